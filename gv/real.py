"""Real compilers and interpreters as oracles for string literals."""

import json
import os
import subprocess

from . import core
from .core import CheckError

# Sources are cut into functions, which languages bound in size.
CHUNK = 400


def emit(run, what, n, seed=None):
    """Samples of a kind by file name, as (value, source)."""
    d = os.path.join(run.work, f"emit-{what}")
    os.makedirs(d, exist_ok=True)
    p = subprocess.run([core.GV, "emit", what, "--seed", str(run.seed if seed is None else seed), "--n", str(n), "--dir", d],
                       capture_output=True, text=True, timeout=600, preexec_fn=core.limit)
    if p.returncode != 0:
        raise CheckError(f"emit {what} ends with {p.returncode}: {p.stderr[-500:]}")
    out = {}
    for f in sorted(os.listdir(d)):
        rows = []
        with open(os.path.join(d, f)) as h:
            for line in h:
                a, _, b = line.strip("\n").partition(" ")
                b = bytes.fromhex(b).decode()
                if a == "error":
                    run.res.violation(f"{f}: {b}", kind="emit", what=what)
                    continue
                rows.append((bytes.fromhex(a).decode(), b))
        out[f.removesuffix(".txt")] = rows
    return out


def tool(run, cmd, cwd, timeout=600, **kw):
    e = core.env()
    e.update(kw.pop("env", {}))
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, timeout=timeout, **kw)
    except FileNotFoundError:
        raise CheckError(f"{cmd[0]} is not installed")
    except subprocess.TimeoutExpired:
        raise CheckError(f"{cmd[0]} did not end")


def read_python(run, d, rows):
    import warnings
    out = []
    for _, src in rows:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("error")
                v = eval(compile(src, "<literal>", "eval"), {}, {})
            out.append(v if isinstance(v, str) else None)
        except Exception as e:
            out.append(e)
    return out


def read_js(run, d, rows, prelude=""):
    with open(os.path.join(d, "in.json"), "w") as f:
        json.dump([src for _, src in rows], f)
    with open(os.path.join(d, "main.js"), "w") as f:
        f.write('"use strict";\n' + prelude + """
const fs = require("fs");
const out = JSON.parse(fs.readFileSync("in.json", "utf8")).map(s => {
    try { const v = eval(s); return typeof v === "string" ? v : null; }
    catch (e) { return {error: String(e)}; }
});
fs.writeFileSync("out.json", JSON.stringify(out));
""")
    p = tool(run, ["node", "main.js"], d)
    if p.returncode != 0:
        raise CheckError(f"node: {p.stderr.decode()[-800:]}")
    with open(os.path.join(d, "out.json")) as f:
        return json.load(f)


def hexes(p, rows, what):
    lines = p.stdout.decode().split()
    if p.returncode != 0 or len(lines) != len(rows):
        raise CheckError(f"{what}: {p.returncode}, {len(lines)} of {len(rows)} values: {p.stderr.decode()[-800:]}")
    return [bytes.fromhex(x[1:]).decode("utf-8", "replace") for x in lines]


class Rejected(Exception):
    """The compiler does not take the source."""


def compiled(p, what):
    if p.returncode != 0:
        raise Rejected((p.stdout + p.stderr).decode("utf-8", "replace")[:1500])


def read_java(run, d, rows):
    chunks = [rows[i:i + CHUNK] for i in range(0, len(rows), CHUNK)]
    with open(os.path.join(d, "M.java"), "w", encoding="utf-8") as f:
        f.write("class M {\n")
        f.write('static void p(StringBuilder o, String s) { o.append("x"); for (byte b : '
                's.getBytes(java.nio.charset.StandardCharsets.UTF_8)) o.append(String.format("%02x", b)); o.append("\\n"); }\n')
        for i, c in enumerate(chunks):
            f.write(f"static void f{i}(StringBuilder o) {{\n")
            for _, src in c:
                f.write(f"p(o, {src});\n")
            f.write("}\n")
        f.write("public static void main(String[] a) { StringBuilder o = new StringBuilder();\n")
        for i in range(len(chunks)):
            f.write(f"f{i}(o);\n")
        f.write("System.out.print(o); } }\n")
    compiled(tool(run, ["javac", "-encoding", "UTF-8", "-d", d, "M.java"], d), "javac")
    return hexes(tool(run, ["java", "-cp", d, "M"], d), rows, "java")


def read_go(run, d, rows):
    with open(os.path.join(d, "main.go"), "w", encoding="utf-8") as f:
        f.write('package main\n\nimport ("fmt"; "os"; "bufio")\n\nvar all = []string{\n')
        for _, src in rows:
            f.write(src + ",\n")
        f.write("}\n\nfunc main() { w := bufio.NewWriter(os.Stdout); for _, s := range all { "
                'fmt.Fprintf(w, "x%x\\n", []byte(s)) }; w.Flush() }\n')
    env = {"GO111MODULE": "off", "GOFLAGS": "", "GOCACHE": os.path.join(core.BUILD, "gocache"), "GOTOOLCHAIN": "local",
           "GOPATH": os.path.join(core.BUILD, "gopath")}
    compiled(tool(run, ["go", "build", "-o", "main", "main.go"], d, env=env), "go")
    return hexes(tool(run, ["./main"], d), rows, "go")


def read_c(run, d, rows):
    with open(os.path.join(d, "main.c"), "w", encoding="utf-8") as f:
        f.write("#include <stdio.h>\n")
        for i, (_, src) in enumerate(rows):
            f.write(f"static const char s{i}[] = {src};\n")
        f.write("static void p(const char *s, unsigned long n) { putchar('x'); for (unsigned long i = 0; i + 1 < n; i++) "
                'printf("%02x", (unsigned char)s[i]); putchar(10); }\n')
        f.write("int main(void) {\n")
        for i in range(len(rows)):
            f.write(f"p(s{i}, sizeof s{i});\n")
        f.write("return 0; }\n")
    compiled(tool(run, ["gcc", "-std=gnu11", "-finput-charset=UTF-8", "-fexec-charset=UTF-8", "-Wno-normalized", "-Wno-bidi-chars", "-o",
                        "main", "main.c"], d), "gcc")
    return hexes(tool(run, ["./main"], d), rows, "c")


def read_rust(run, d, rows):
    with open(os.path.join(d, "main.rs"), "w", encoding="utf-8") as f:
        f.write("#![allow(text_direction_codepoint_in_literal)]\nstatic ALL: &[&str] = &[\n")
        for _, src in rows:
            f.write(src + ",\n")
        f.write("];\nfn main() { let mut o = String::new(); for s in ALL { o.push('x'); for b in s.bytes() "
                '{ o.push_str(&format!("{b:02x}")); } o.push(\'\\n\'); } print!("{o}"); }\n')
    compiled(tool(run, ["rustc", "--edition", "2021", "-o", "main", "main.rs"], d), "rustc")
    return hexes(tool(run, ["./main"], d), rows, "rust")


READERS = {"Python": read_python, "Js": read_js, "Java": read_java, "Go": read_go, "C": read_c, "Rust": read_rust}


def scratch(run, name):
    d = os.path.join(run.work, name)
    os.makedirs(d, exist_ok=True)
    return d


def read(run, lang, rows, reader=None):
    """The values, with what was rejected on its own narrowed down to."""
    reader = reader or READERS[lang]
    d = scratch(run, f"real-{lang}")
    try:
        return reader(run, d, rows)
    except Rejected as e:
        if len(rows) == 1:
            return [e]
        # Find one which is rejected.
        lo = rows
        while len(lo) > 1:
            h = len(lo) // 2
            try:
                reader(run, d, lo[:h])
                lo = lo[h:]
            except Rejected:
                lo = lo[:h]
        try:
            reader(run, d, lo)
        except Rejected as e:
            i = rows.index(lo[0])
            return [rows[k][0] if k != i else e for k in range(len(rows))]
        raise CheckError(f"{lang}: rejected together, but not apart: {e}")


def literals(run, langs, n, round=0):
    """Have the real languages read what was quoted for them."""
    samples = emit(run, "C14", n, run.seed * 1000 + round)
    for lang in langs:
        rows = samples[lang]
        got = read(run, lang, rows)
        for (value, src), v in zip(rows, got):
            run.res.evaluated((lang, src), bool(value))
            if v != value:
                run.res.violation(f"{lang} reads the literal of {value!r}, which is\n{src}\nas {v!r}", kind="literal",
                                  lang=lang, value=value, source=src)
                break
        run.res.saw(f"literals read by {lang.lower()} itself", len(rows))
        run.log(f"{lang}: {len(rows)} literals")


JS_PRELUDE = """
const s = n => "‹" + n + "›";
const a = s("a"), b1 = s("b1"), _x = s("_x"), x = {y: s("x.y")}, f = v => "‹f(" + v + ")›", w = [s("w[0]")], $v = s("$v"),
    this1 = s("this1"), V = s("V"),
    m = {k: s("m.k"), "\\\\": s("m.\\\\"), "}": s("m.}")};
"""


def templates(run, n):
    """Have node evaluate interpolated strings."""
    rows = emit(run, "C15", n)["Js"]
    got = read(run, "Js", rows, lambda run, d, rows: read_js(run, d, rows, JS_PRELUDE))
    for (value, src), v in zip(rows, got):
        run.res.evaluated(("node", src))
        if v != value:
            run.res.violation(f"node evaluates\n{src}\nto {v!r} instead of {value!r}", kind="template", value=value, source=src)
            break
    run.res.saw("interpolated strings evaluated by node", len(rows))
    run.log(f"node: {len(rows)} interpolated strings")
