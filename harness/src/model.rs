//! Reference models of token streams and of formatting.

use std::fmt::Write as _;

use genco::fmt;
use genco::tokens::{Item, ItemStr};
use genco::Tokens;

genco::impl_lang! {
    /// A language whose items write a text of their own.
    pub Tl {
        type Config = ();
        type Format = ();
        type Item = Any;
    }

    Mark {
        fn format(&self, out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
            match self.mode % 4 {
                0 => out.write_str(&self.text)?,
                1 => {
                    for c in self.text.chars() {
                        out.write_char(c)?;
                    }
                }
                2 => write!(out, "{}", self.text)?,
                _ => {
                    out.write_str("")?;
                    out.write_str(&self.text)?;
                    out.write_str("")?;
                }
            }
            Ok(())
        }
    }

    Mute {
        fn format(&self, _: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
            Ok(())
        }
    }
}

#[derive(Debug, Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct Mark {
    pub id: u32,
    pub mode: u8,
    pub text: String,
}

#[derive(Debug, Clone, Hash, PartialEq, Eq, PartialOrd, Ord)]
pub struct Mute {
    pub id: u32,
}

pub fn item_id(a: &Any) -> u32 {
    match a {
        Any::Mark(m) => m.id,
        Any::Mute(m) => m.id,
    }
}

pub fn item_text(a: &Any) -> &str {
    match a {
        Any::Mark(m) => &m.text,
        Any::Mute(_) => "",
    }
}

/// A model item.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MI {
    Lit(String),
    Lang(Any),
    Reg(Any),
    Push,
    Line,
    Space,
    Ind(i32),
    OpenQuote(bool),
    CloseQuote,
    OpenEval,
    CloseEval,
}

/// A model token stream: one list, and one rule per operation.
#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct MTokens(pub Vec<MI>);

impl MTokens {
    fn ends_with(&self, f: fn(&MI) -> bool) -> bool {
        self.0.last().map_or(false, f)
    }

    fn trim(&mut self, f: fn(&MI) -> bool) {
        while self.ends_with(f) {
            self.0.pop();
        }
    }

    pub fn space(&mut self) {
        if !self.ends_with(|i| matches!(i, MI::Space)) {
            self.0.push(MI::Space);
        }
    }

    pub fn push(&mut self) {
        self.trim(|i| matches!(i, MI::Space | MI::Push));
        if !self.ends_with(|i| matches!(i, MI::Line)) {
            self.0.push(MI::Push);
        }
    }

    pub fn line(&mut self) {
        self.trim(|i| matches!(i, MI::Line | MI::Push));
        self.0.push(MI::Line);
    }

    pub fn ind(&mut self, n: i32) {
        let mut sum = n;
        let mut out = false;
        loop {
            match self.0.last() {
                Some(MI::Push | MI::Line | MI::Space) => {}
                Some(MI::Ind(u)) => {
                    out = *u < 0;
                    sum += u;
                }
                _ => break,
            }
            self.0.pop();
        }
        if sum != 0 {
            self.0.push(MI::Ind(sum));
        } else if out {
            self.0.push(MI::Push);
        }
    }

    pub fn item(&mut self, i: &MI) {
        match i {
            MI::Push => self.push(),
            MI::Line => self.line(),
            MI::Space => self.space(),
            MI::Ind(n) => self.ind(*n),
            other => self.0.push(other.clone()),
        }
    }

    pub fn extend(&mut self, o: &MTokens) {
        for i in &o.0 {
            self.item(i);
        }
    }

    /// Does the real stream hold the same items?
    pub fn same(&self, t: &Tokens<Tl>) -> Result<(), String> {
        let got = t.iter().map(real_to_model).collect::<Vec<_>>();
        if got != self.0 {
            return Err(format!("items differ:\n  expected {:?}\n  actual   {:?}", self.0, got));
        }
        Ok(())
    }
}

pub fn real_to_model(i: &Item<Tl>) -> MI {
    match i {
        Item::Literal(s) => MI::Lit(s.to_string()),
        Item::Lang(_, a) => MI::Lang((**a).clone()),
        Item::Register(_, a) => MI::Reg((**a).clone()),
        Item::Push => MI::Push,
        Item::Line => MI::Line,
        Item::Space => MI::Space,
        Item::Indentation(n) => MI::Ind(*n as i32),
        Item::OpenQuote(e) => MI::OpenQuote(*e),
        Item::CloseQuote => MI::CloseQuote,
        Item::OpenEval => MI::OpenEval,
        Item::CloseEval => MI::CloseEval,
    }
}

pub fn model_to_real(i: &MI, bogus: usize) -> Item<Tl> {
    match i {
        MI::Lit(s) => Item::Literal(ItemStr::from(s.as_str())),
        // Note: the position of an item is rewritten when it's put into a stream.
        MI::Lang(a) => Item::Lang(bogus, Box::new(a.clone())),
        MI::Reg(a) => Item::Register(bogus, Box::new(a.clone())),
        MI::Push => Item::Push,
        MI::Line => Item::Line,
        MI::Space => Item::Space,
        MI::Ind(n) => Item::Indentation(*n as i16),
        MI::OpenQuote(e) => Item::OpenQuote(*e),
        MI::CloseQuote => Item::CloseQuote,
        MI::OpenEval => Item::OpenEval,
        MI::CloseEval => Item::CloseEval,
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Unit {
    Space(usize),
    Tab,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Gap {
    Initial,
    None,
    Push,
    Line,
}

/// Reference layout: what's between two texts is decided by what was requested
/// in between, and is only written ahead of a text.
#[derive(Debug, Clone)]
pub struct MFmt {
    pub out: String,
    unit: Unit,
    newline: &'static str,
    gap: Gap,
    spaces: usize,
    level: i32,
}

impl MFmt {
    pub fn new(unit: Unit, newline: &'static str) -> Self {
        MFmt { out: String::new(), unit, newline, gap: Gap::Initial, spaces: 0, level: 0 }
    }

    pub fn text(&mut self, s: &str) {
        if s.is_empty() {
            return;
        }
        let n = match self.gap {
            Gap::None | Gap::Initial => 0,
            Gap::Push => 1,
            Gap::Line => 2,
        };
        for _ in 0..n {
            self.out.push_str(self.newline);
        }
        if self.gap != Gap::None {
            for _ in 0..self.level.max(0) {
                match self.unit {
                    Unit::Space(n) => self.out.extend(std::iter::repeat(' ').take(n)),
                    Unit::Tab => self.out.push('\t'),
                }
            }
        }
        self.out.extend(std::iter::repeat(' ').take(self.spaces));
        self.gap = Gap::None;
        self.spaces = 0;
        self.out.push_str(s);
    }

    pub fn push(&mut self) {
        self.spaces = 0;
        if self.gap == Gap::None {
            self.gap = Gap::Push;
        }
    }

    pub fn line(&mut self) {
        self.spaces = 0;
        if self.gap != Gap::Initial {
            self.gap = Gap::Line;
        }
    }

    pub fn space(&mut self) {
        self.spaces += 1;
    }

    pub fn ind(&mut self, n: i32) {
        if n != 0 {
            self.push();
            self.level += n;
        }
    }

    /// Items with quotes which are neither evaluated nor nested.
    pub fn items(&mut self, items: &[MI]) {
        for i in items {
            match i {
                MI::Lit(s) => self.text(s),
                MI::Lang(a) => self.text(item_text(a)),
                MI::Reg(_) => {}
                MI::Push => self.push(),
                MI::Line => self.line(),
                MI::Space => self.space(),
                MI::Ind(n) => self.ind(*n),
                MI::OpenQuote(_) | MI::CloseQuote => self.text("\""),
                MI::OpenEval | MI::CloseEval => unreachable!("not part of this model"),
            }
        }
    }

    pub fn file_end(&mut self) {
        self.out.push_str(self.newline);
    }
}

pub fn config<L: genco::lang::Lang>(unit: Unit, newline: &'static str) -> fmt::Config {
    let (indentation, n) = match unit {
        Unit::Space(n) => (fmt::Indentation::Space(n), n),
        Unit::Tab => (fmt::Indentation::Tab, 1),
    };
    let c = fmt::Config::from_lang::<L>();
    // It's the same in every order, and what is set last counts.
    match (n + newline.len()) % 4 {
        0 => c.with_indentation(indentation).with_newline(newline),
        1 => c.with_newline(newline).with_indentation(indentation),
        2 => c.with_newline("<other>").with_indentation(indentation).with_newline(newline).clone(),
        _ => c.with_indentation(fmt::Indentation::Space(9)).with_newline(newline).clone().with_indentation(indentation),
    }
}

/// A string which refuses to grow without bounds.
pub struct Bounded(pub String, pub usize);

impl std::fmt::Write for Bounded {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        assert!(self.0.len() + s.len() <= self.1, "genco: output exceeds {} bytes", self.1);
        self.0.push_str(s);
        Ok(())
    }
}
