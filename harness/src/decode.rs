//! Readers for the string literals of each language, written from the language
//! references. They accept what the language accepts on a single line and
//! reject everything else.

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Dialect {
    Rust,
    Js,
    Python,
    Java,
    Csharp,
    C,
    Go,
    Dart,
    Swift,
    Nix,
}

pub const DIALECTS: [Dialect; 10] = [
    Dialect::Rust,
    Dialect::Js,
    Dialect::Python,
    Dialect::Java,
    Dialect::Csharp,
    Dialect::C,
    Dialect::Go,
    Dialect::Dart,
    Dialect::Swift,
    Dialect::Nix,
];

type R<T> = Result<T, String>;

/// A value being put together: some languages have bytes, some UTF-16.
enum Val {
    Bytes(Vec<u8>),
    Utf16(Vec<u16>),
}

impl Val {
    fn new(d: Dialect) -> Val {
        match d {
            Dialect::C | Dialect::Go => Val::Bytes(Vec::new()),
            _ => Val::Utf16(Vec::new()),
        }
    }

    fn chr(&mut self, c: char) {
        match self {
            Val::Bytes(b) => b.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
            Val::Utf16(u) => u.extend_from_slice(c.encode_utf16(&mut [0; 2])),
        }
    }

    /// A scalar value, which has to be one unless units of UTF-16 are allowed.
    fn code(&mut self, d: Dialect, n: u32) -> R<()> {
        match char::from_u32(n) {
            Some(c) => self.chr(c),
            None => match self {
                Val::Utf16(u) if n < 0x10000 && matches!(d, Dialect::Java | Dialect::Js | Dialect::Csharp | Dialect::Dart | Dialect::Python) => {
                    u.push(n as u16)
                }
                _ => return Err(format!("escape of {n:x}, which is no character")),
            },
        }
        Ok(())
    }

    fn byte(&mut self, n: u32) -> R<()> {
        match self {
            Val::Bytes(b) if n < 256 => b.push(n as u8),
            Val::Utf16(u) if n < 0x10000 => u.push(n as u16),
            _ => return Err(format!("escape {n:x} out of range")),
        }
        Ok(())
    }

    fn done(self) -> R<String> {
        match self {
            Val::Bytes(b) => String::from_utf8(b).map_err(|e| format!("not UTF-8: {:x?}", e.into_bytes())),
            Val::Utf16(u) => {
                String::from_utf16(&u).map_err(|_| format!("unpaired surrogate: {u:x?}"))
            }
        }
    }
}

pub struct P {
    pub c: Vec<char>,
    pub i: usize,
}

impl P {
    pub fn new(s: &str) -> P {
        P { c: s.chars().collect(), i: 0 }
    }

    pub fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }

    pub fn peek1(&self) -> Option<char> {
        self.c.get(self.i + 1).copied()
    }

    pub fn next(&mut self) -> R<char> {
        let c = self.peek().ok_or("unexpected end")?;
        self.i += 1;
        Ok(c)
    }

    pub fn eat(&mut self, s: &str) -> bool {
        let n = s.chars().count();
        if self.i + n <= self.c.len() && self.c[self.i..self.i + n].iter().copied().eq(s.chars()) {
            self.i += n;
            return true;
        }
        false
    }

    pub fn expect(&mut self, s: &str) -> R<()> {
        if self.eat(s) {
            Ok(())
        } else {
            Err(format!("expected {s:?} at {:?}", self.rest()))
        }
    }

    pub fn rest(&self) -> String {
        self.c[self.i..].iter().take(40).collect()
    }

    pub fn end(&self) -> bool {
        self.i == self.c.len()
    }

    pub fn ws(&mut self) {
        while matches!(self.peek(), Some(' ' | '\n' | '\t')) {
            self.i += 1;
        }
    }

    pub fn sp(&mut self) {
        while matches!(self.peek(), Some(' ')) {
            self.i += 1;
        }
    }

    pub fn ident(&mut self) -> R<String> {
        self.ident_with("")
    }

    /// An identifier, which may have some other characters in it.
    pub fn ident_with(&mut self, also: &str) -> R<String> {
        let s = self.i;
        while matches!(self.peek(), Some(c) if c.is_alphanumeric() || c == '_' || also.contains(c)) {
            self.i += 1;
        }
        if s == self.i || self.c[s].is_numeric() {
            return Err(format!("expected an identifier at {:?}", self.rest()));
        }
        Ok(self.c[s..self.i].iter().collect())
    }

    /// Hexadecimal digits, `min` to `max` of them.
    fn hex(&mut self, min: usize, max: usize) -> R<u32> {
        let mut n = 0u32;
        let mut k = 0;
        while k < max {
            match self.peek().and_then(|c| c.to_digit(16)) {
                Some(d) => n = n.checked_mul(16).and_then(|n| n.checked_add(d)).ok_or("escape overflows")?,
                None => break,
            }
            self.i += 1;
            k += 1;
        }
        if k < min {
            return Err(format!("expected hexadecimal digits at {:?}", self.rest()));
        }
        Ok(n)
    }

    fn oct(&mut self, min: usize, max: usize) -> R<u32> {
        let mut n = 0;
        let mut k = 0;
        while k < max {
            match self.peek().and_then(|c| c.to_digit(8)) {
                Some(d) => n = n * 8 + d,
                None => break,
            }
            self.i += 1;
            k += 1;
        }
        if k < min {
            return Err(format!("expected octal digits at {:?}", self.rest()));
        }
        Ok(n)
    }

    fn braced(&mut self, max: usize) -> R<u32> {
        self.expect("{")?;
        let n = self.hex(1, max)?;
        self.expect("}")?;
        Ok(n)
    }
}

/// Java replaces unicode escapes ahead of anything else.
pub fn java_unescape(s: &str) -> R<Vec<u16>> {
    let c = s.chars().collect::<Vec<_>>();
    let mut out = Vec::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\\' {
            if c.get(i + 1) == Some(&'u') {
                let mut j = i + 1;
                while c.get(j) == Some(&'u') {
                    j += 1;
                }
                let d = c.get(j..j + 4).ok_or("short unicode escape")?.iter().collect::<String>();
                if !d.chars().all(|c| c.is_ascii_hexdigit()) {
                    return Err(format!("unicode escape \\u{d}"));
                }
                out.push(u16::from_str_radix(&d, 16).map_err(|e| e.to_string())?);
                i = j + 4;
                continue;
            }
            if c.get(i + 1) == Some(&'\\') {
                out.extend([0x5c, 0x5c]);
                i += 2;
                continue;
            }
        }
        out.extend_from_slice(c[i].encode_utf16(&mut [0; 2]));
        i += 1;
    }
    Ok(out)
}

/// What a literal is made of: text, and for languages with interpolation the
/// place of each expression.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Part {
    Text(String),
    /// The source of a delimited expression.
    Expr(String),
}

/// Read one literal at the position, and have it end at its closing quote.
pub fn string(d: Dialect, p: &mut P) -> R<String> {
    let open = p.next()?;
    if open != '"' {
        return Err(format!("expected a string literal, found {open:?}"));
    }
    let mut v = Val::new(d);
    loop {
        let c = p.next().map_err(|_| "unterminated literal")?;
        match c {
            '"' => break,
            '\n' | '\r' => return Err(format!("line break {c:?} in a literal")),
            '\\' => escape(d, p, &mut v)?,
            _ => raw(d, p, &mut v, c)?,
        }
    }
    v.done()
}

fn raw(d: Dialect, p: &mut P, v: &mut Val, c: char) -> R<()> {
    match d {
        Dialect::Csharp if matches!(c, '\u{85}' | '\u{2028}' | '\u{2029}') => return Err(format!("line break {c:?} in a literal")),
        Dialect::Go if matches!(c, '\0' | '\u{feff}') => return Err(format!("{c:?} is not allowed in source code")),
        Dialect::Python | Dialect::C | Dialect::Swift if c == '\0' => return Err("raw NUL".into()),
        Dialect::Dart if c == '$' => return Err(format!("interpolation at {:?}", p.rest())),
        Dialect::Nix if c == '$' => match p.peek() {
            Some('{') => return Err(format!("interpolation at {:?}", p.rest())),
            Some('"' | '\\') | None => {}
            Some(n) => {
                p.i += 1;
                v.chr('$');
                v.chr(n);
                return Ok(());
            }
        },
        _ => {}
    }
    v.chr(c);
    Ok(())
}

fn escape(d: Dialect, p: &mut P, v: &mut Val) -> R<()> {
    use Dialect::*;
    let c = p.next().map_err(|_| "unterminated escape")?;
    let simple = match c {
        'n' => Some('\n'),
        'r' => Some('\r'),
        't' => Some('\t'),
        '\\' => Some('\\'),
        '"' => Some('"'),
        '\'' if !matches!(d, Go) => Some('\''),
        'b' if !matches!(d, Rust | Swift | Nix) => Some('\u{8}'),
        'f' if !matches!(d, Rust | Swift | Nix) => Some('\u{c}'),
        'v' if matches!(d, Js | Python | Csharp | C | Go | Dart) => Some('\u{b}'),
        'a' if matches!(d, Python | Csharp | C | Go) => Some('\u{7}'),
        's' if d == Java => Some(' '),
        '0' if matches!(d, Rust | Swift | Csharp) => Some('\0'),
        '0' if d == Js => {
            if matches!(p.peek(), Some('0'..='9')) {
                return Err("octal escape".into());
            }
            Some('\0')
        }
        '?' if d == C => Some('?'),
        _ => None,
    };
    if let Some(s) = simple {
        v.chr(s);
        return Ok(());
    }
    match (d, c) {
        (Rust, 'x') => {
            let n = p.hex(2, 2)?;
            if n > 0x7f {
                return Err(format!("\\x{n:x} is out of range"));
            }
            v.code(d, n)
        }
        (Rust, 'u') => {
            let n = p.braced(6)?;
            v.code(d, n)
        }
        (Js, 'x') | (Dart, 'x') | (Python, 'x') => {
            let n = p.hex(2, 2)?;
            v.code(d, n)
        }
        (Js | Dart, 'u') => {
            let n = if p.peek() == Some('{') { p.braced(6)? } else { p.hex(4, 4)? };
            v.code(d, n)
        }
        (Js, '1'..='9') => Err("octal escape".into()),
        (Js, '\n' | '\r' | '\u{2028}' | '\u{2029}') => Err("line continuation".into()),
        (Swift, 'u') => {
            let n = p.braced(8)?;
            v.code(d, n)
        }
        (Python, 'u') | (Go, 'u') => {
            let n = p.hex(4, 4)?;
            if (0xd800..0xe000).contains(&n) {
                return Err("escape of a surrogate".into());
            }
            v.code(d, n)
        }
        (Csharp, 'u') => {
            let n = p.hex(4, 4)?;
            v.code(d, n)
        }
        (C, 'u' | 'U') => {
            let n = if c == 'u' { p.hex(4, 4)? } else { p.hex(8, 8)? };
            if n < 0xa0 && !matches!(n, 0x24 | 0x40 | 0x60) {
                return Err(format!("universal character name of {n:x}"));
            }
            v.code(d, n)
        }
        (Python | Csharp | Go, 'U') => {
            let n = p.hex(8, 8)?;
            if char::from_u32(n).is_none() {
                return Err(format!("escape of {n:x}"));
            }
            v.code(d, n)
        }
        (Csharp, 'x') => {
            let n = p.hex(1, 4)?;
            v.byte(n)
        }
        (C, 'x') => {
            let n = p.hex(1, 64)?;
            v.byte(n)
        }
        (Go, 'x') => {
            let n = p.hex(2, 2)?;
            v.byte(n)
        }
        (Go, '0'..='7') => {
            p.i -= 1;
            let n = p.oct(3, 3)?;
            v.byte(n)
        }
        (C | Python | Java, '0'..='7') => {
            p.i -= 1;
            let max = if d == Java && c > '3' { 2 } else { 3 };
            let n = p.oct(1, max)?;
            v.byte(n)
        }
        (Python, '\n') => Err("line continuation".into()),
        // Note: unknown escapes stand for themselves, including the backslash.
        (Python, 'N') => Err("named escape".into()),
        (Python, c) => {
            v.chr('\\');
            v.chr(c);
            Ok(())
        }
        (Nix | Dart | Js, c) => {
            v.chr(c);
            Ok(())
        }
        (_, c) => Err(format!("unknown escape \\{c}")),
    }
}

/// Read a source text which has to be one literal and nothing else.
pub fn whole(d: Dialect, s: &str) -> R<String> {
    if s.contains('\n') || s.contains('\r') {
        return Err("more than one line".into());
    }
    let s = match d {
        Dialect::Java => String::from_utf16(&java_unescape(s)?).map_err(|_| "unpaired surrogate")?,
        _ => s.to_string(),
    };
    let mut p = P::new(&s);
    let v = string(d, &mut p)?;
    if !p.end() {
        return Err(format!("{:?} follows the literal", p.rest()));
    }
    Ok(v)
}

/// Read an interpolated literal: a template literal of JavaScript, or a string
/// of Dart. Expressions are given by their source.
pub fn interpolated(d: Dialect, p: &mut P) -> R<Vec<Part>> {
    let quote = match d {
        Dialect::Js => '`',
        _ => '"',
    };
    if p.next()? != quote {
        return Err(format!("expected an interpolated literal at {:?}", p.rest()));
    }
    let mut parts = Vec::new();
    let mut v = Val::new(d);
    loop {
        let c = p.next().map_err(|_| "unterminated literal")?;
        let expr = match c {
            c if c == quote => break,
            '\n' | '\r' => return Err(format!("line break {c:?} in a literal")),
            '\\' => {
                escape(d, p, &mut v)?;
                continue;
            }
            '$' if p.peek() == Some('{') => {
                p.i += 1;
                let s = p.i;
                skip_expr(d, p)?;
                let e = p.c[s..p.i].iter().collect::<String>();
                p.expect("}")?;
                e
            }
            '$' if d == Dialect::Dart => {
                let s = p.i;
                while matches!(p.peek(), Some(c) if c.is_ascii_alphanumeric() || c == '_') {
                    p.i += 1;
                }
                let e = p.c[s..p.i].iter().collect::<String>();
                if e.is_empty() || e.starts_with(|c: char| c.is_ascii_digit()) {
                    return Err(format!("a lone $ at {:?}", p.rest()));
                }
                if matches!(&*e, "true" | "false" | "null" | "if" | "for" | "in" | "var" | "new") {
                    return Err(format!("${e} is not an identifier"));
                }
                e
            }
            c => {
                v.chr(c);
                continue;
            }
        };
        let done = std::mem::replace(&mut v, Val::new(d)).done()?;
        parts.push(Part::Text(done));
        parts.push(Part::Expr(expr));
    }
    parts.push(Part::Text(v.done()?));
    Ok(parts)
}

/// Skip an expression up to the brace which closes it.
fn skip_expr(d: Dialect, p: &mut P) -> R<()> {
    let mut depth = 0;
    loop {
        match p.peek() {
            None => return Err("unterminated expression".into()),
            Some('}') if depth == 0 => return Ok(()),
            Some('}') => {
                depth -= 1;
                p.i += 1;
            }
            Some('{') => {
                depth += 1;
                p.i += 1;
            }
            Some('`') if d == Dialect::Js => {
                interpolated(d, p)?;
            }
            Some('"') if d == Dialect::Dart => {
                interpolated(d, p)?;
            }
            Some('"') => {
                string(d, p)?;
            }
            Some('\n' | '\r') => return Err("line break in an interpolation".into()),
            Some(_) => p.i += 1,
        }
    }
}

/// Evaluate an expression of names, strings and concatenations. A name stands
/// for `‹name›`.
pub fn eval(d: Dialect, src: &str) -> R<String> {
    let mut p = P::new(src);
    let v = expr(d, &mut p)?;
    p.sp();
    if !p.end() {
        return Err(format!("{:?} follows the expression", p.rest()));
    }
    Ok(v)
}

fn expr(d: Dialect, p: &mut P) -> R<String> {
    let mut v = term(d, p)?;
    loop {
        p.sp();
        if !p.eat("+") {
            return Ok(v);
        }
        v.push_str(&term(d, p)?);
    }
}

fn term(d: Dialect, p: &mut P) -> R<String> {
    p.sp();
    match p.peek() {
        Some('(') => {
            p.i += 1;
            let v = expr(d, p)?;
            p.sp();
            p.expect(")")?;
            Ok(v)
        }
        Some('"') if d != Dialect::Dart => string(d, p),
        Some('"' | '`') => {
            let mut v = String::new();
            for part in interpolated(d, p)? {
                match part {
                    Part::Text(t) => v.push_str(&t),
                    Part::Expr(e) => v.push_str(&eval(d, &e)?),
                }
            }
            Ok(v)
        }
        _ => Ok(format!("‹{}›", p.ident()?)),
    }
}
