//! Generators shared by the workloads.

use std::cell::Cell;

use crate::rng::Rng;

thread_local! {
    static WIDE: Cell<Option<u64>> = const { Cell::new(None) };
}

/// Whether many names of few places are to be generated.
pub fn set_wide(seed: Option<u64>) {
    WIDE.with(|w| w.set(seed));
}

fn wide() -> Option<u64> {
    WIDE.with(|w| w.get())
}

thread_local! {
    static MANY: Cell<bool> = const { Cell::new(false) };
}

/// Whether many places are to be generated.
pub fn set_many(many: bool) {
    MANY.with(|m| m.set(many));
}

pub fn many() -> bool {
    MANY.with(|m| m.get())
}

/// A number which sets a place apart, if many of them are called for.
pub fn apart(r: &mut Rng) -> Option<usize> {
    (many() && wide().is_none() && !r.one_in(3)).then(|| r.below(400))
}

/// Make a path longer than usual, now and then, and one of many if that's called
/// for.
pub fn stretch(r: &mut Rng, path: String, sep: &str) -> String {
    let mut path = match apart(r) {
        Some(n) => format!("{path}{sep}p{n}"),
        None => path,
    };
    if r.one_in(400) {
        let n = *r.pick(&[3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100]);
        let d = r.below(2);
        for k in 0..n {
            path.push_str(&format!("{sep}deep{}", k * d));
        }
    }
    path
}

/// A generator of places to import from.
pub fn place(r: &mut Rng) -> Rng {
    match wide() {
        Some(seed) if many() && !r.one_in(20) => Rng::new(seed),
        Some(seed) if !r.one_in(4) => Rng::new(seed.wrapping_add(r.below(2) as u64)),
        _ => Rng::new(r.u64()),
    }
}

/// One of several aliases.
pub fn alias(r: &mut Rng, prefix: &str) -> String {
    let n = match wide() {
        Some(_) if many() => 1000,
        Some(_) => 60,
        None => 3,
    };
    format!("{prefix}{}", r.below(n))
}

/// Names which are in scope without an import somewhere, or well known.
const KNOWN: &[&str] = &[
    "String", "Option", "Vec", "Result", "Box", "Some", "Ok", "Clone", "Iterator", "u8", "str", "Object", "Integer", "List", "Math", "System", "Error",
    "Promise", "Array", "require", "exports", "module", "undefined", "print", "int", "list", "dict", "len", "object", "Exception", "main", "init",
    "New", "Println", "nil", "NULL", "size_t", "printf", "bool", "FILE", "Future", "num", "Int", "Void", "Any", "map", "builtins", "toString",
];

/// A name which is a part of another or well known, now and then.
pub fn related(r: &mut Rng, one_in: usize, module: &str) -> Option<String> {
    if !r.one_in(one_in) {
        return None;
    }
    if r.one_in(3) {
        return Some(r.pick(KNOWN).to_string());
    }
    let parts = module
        .split(['.', '/', ':', '@', '-'])
        .filter(|p| !p.is_empty() && p.chars().all(|c| c.is_ascii_alphanumeric() || c == '_'))
        .filter(|p| !matches!(*p, "crate" | "self" | "super" | "default"))
        .collect::<Vec<_>>();
    match r.below(3) {
        0 => parts.first(),
        _ => parts.last(),
    }
    .map(|s| s.to_string())
}

/// Characters which are known to be delicate somewhere.
const HOSTILE: &[&str] = &[
    "\"", "'", "\\", "`", "$", "${", "{", "}", "$(", "#{", "%", "\n", "\r", "\t", "\0", "\u{1}", "\u{7}",
    "\u{8}", "\u{b}", "\u{c}", "\u{1b}", "\u{1f}", "\u{7f}", "\u{80}", "\u{85}", "\u{9f}", "\u{a0}", "\u{ad}",
    "\u{ff}", "\u{100}", "π", "é", "ß", "あ", "\u{2028}", "\u{2029}", "\u{feff}", "\u{fffd}", "\u{ffff}",
    "\u{10000}", "😊", "\u{10ffff}", "\u{200b}", "\u{301}", "0", "1", "7", "8", "9", "a", "b", "c", "f", "A",
    "F", "x", "u", "U", "n", "r", "t", "N", "g", "G", "_", " ", "  ", ";", "//", "/*", "*/", "#", "<", ">", "&",
    "??/", "''", "\"\"\"", "\\u0041", "\\n", "\\", "u{41}", "u0041", "x41", "\r\n", "$$", "$a", "\\(", "@",
    "\u{e000}", "\u{d7ff}", "\u{600}",
];

pub fn hostile_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(8) {
            0 => r.below(0x20) as u32,
            1 => 0x7f + r.below(0x22) as u32,
            2 | 3 => 0x20 + r.below(0x5f) as u32,
            4 => 0xa0 + r.below(0x700) as u32,
            5 => r.below(0x1_0000) as u32,
            6 => 0x1_0000 + r.below(0x10_0000) as u32,
            _ => 0x2000 + r.below(0x70) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

/// A string of up to about `max` parts, with weight on delicate characters.
pub fn hostile_string(r: &mut Rng, max: usize) -> String {
    let mut s = String::new();
    match r.below(12) {
        0 if max > 1 && r.one_in(300) => {
            let n = *r.pick(&[127, 128, 255, 256, 257, 1000, 1023, 4097, 9000]);
            let part = format!("{}{}", r.pick(HOSTILE), hostile_char(r));
            s.extend(part.chars().cycle().skip(r.below(2)).take(n));
        }
        0 => {}
        1 => s.push(hostile_char(r)),
        _ => {
            for _ in 0..1 + r.size(max.max(1)) {
                match r.below(10) {
                    0..=6 => s.push_str(r.pick(HOSTILE)),
                    7 | 8 => s.push(hostile_char(r)),
                    _ => s.push_str(&word(r)),
                }
            }
        }
    }
    s
}

pub fn word(r: &mut Rng) -> String {
    let n = 1 + r.below(5);
    (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
}

/// An identifier from a small pool, so that clashes are common.
pub fn ident(r: &mut Rng, pool: usize) -> String {
    const N: &[&str] = &[
        "Foo", "Bar", "Baz", "Debug", "a", "b", "Map", "list", "X1", "_y", "Alpha", "Zed", "foo", "bar", "Qux", "Ab",
        "ABc", "z9", "T", "Set",
    ];
    let n = N[r.below(pool.min(N.len()))];
    if r.one_in(500) {
        let k = *r.pick(&[15, 16, 31, 32, 63, 64, 65, 79, 80, 99, 100, 120, 127, 128, 200, 254, 255, 256, 257, 300, 1000]);
        let last = *r.pick(&["", "", "y"]);
        return format!("Lo{}{last}", "n".repeat(k));
    }
    if r.one_in(50) {
        return r.pick(&["Größe", "ßa", "名前", "__", "É", "ñ1", "Ünï_x"]).to_string();
    }
    if many() && !r.one_in(8) {
        return format!("{n}{}", r.below(400));
    }
    if wide().is_some() && !r.one_in(4) {
        return format!("{n}{}", r.below(40));
    }
    n.to_string()
}

/// An identifier, rarely one of the given ones.
pub fn ident_or(r: &mut Rng, pool: usize, unusual: &[&str]) -> String {
    if r.one_in(30) {
        return r.pick(unusual).to_string();
    }
    ident(r, pool)
}

/// Plain text for tokens: never empty, no whitespace at either end.
pub fn token_text(r: &mut Rng) -> String {
    const N: &[&str] = &[
        "a", "foo", "{", "}", "(", ")", ";", ",", "let", "x", "=", "bar()", "/*c*/", "é", "…", "😊", "if", "1.0", ".",
        "::", "->", "\"", "'", "\\",
    ];
    if r.one_in(40) {
        let n = [1, 3, 99, 100, 101, 300][r.below(6)];
        let n = if r.one_in(50) { 5000 } else { n };
        return "w".repeat(n);
    }
    r.pick(N).to_string()
}

/// Text with whitespace of its own, which has to be kept as it is.
pub fn spaced_text(r: &mut Rng) -> String {
    r.pick(&[" ", "x ", " x", "  x  ", "\t", "x\t", "a b", "\u{a0}", "x\u{a0}", "\u{3000}", "x \u{200b}"]).to_string()
}
