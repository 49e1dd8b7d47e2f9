//! Token streams and their layout: C01, C02, C04.

use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};

use genco::fmt::FmtWriter;
use genco::tokens::{self, quoted, register, FormatInto, Item, ItemStr};
use genco::Tokens;

use crate::gen::{spaced_text, token_text};
use crate::model::*;
use crate::rng::Rng;
use crate::run::{Ctx, Verdict};

/// An iterator with a size hint of its own. The lower bound is never too high,
/// and the upper bound never too low.
pub struct Hinted<I>(I, (usize, Option<usize>));

impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        // Note: only asked for up front.
        self.1
    }
}

pub fn hinted<T>(r: &mut Rng, v: Vec<T>) -> Hinted<std::vec::IntoIter<T>> {
    let n = v.len();
    let lo = *r.pick(&[0, n, n / 2]);
    let hi = *r.pick(&[None, Some(n), Some(n + 7), Some(usize::MAX), Some(1 << 40)]);
    Hinted(v.into_iter(), (lo, hi))
}

pub fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

struct B<'a> {
    r: &'a mut Rng,
    next_id: u32,
    /// Raw quote and evaluation items in any order.
    raw_quotes: bool,
    check_each: bool,
    log: String,
    steps: u64,
    maxlen: usize,
}

impl<'a> B<'a> {
    fn new(r: &'a mut Rng) -> Self {
        B { r, next_id: 0, raw_quotes: false, check_each: false, log: String::new(), steps: 0, maxlen: 240 }
    }

    fn mark(&mut self) -> Mark {
        self.next_id += 1;
        let text = if self.r.one_in(8) { String::new() } else { format!("⟦{}⟧", self.next_id) };
        Mark { id: self.next_id, mode: self.r.below(4) as u8, text }
    }

    fn lit(&mut self, t: &mut Tokens<Tl>, m: &mut MTokens) {
        let s = match self.r.below(48) {
            0..=3 => String::new(),
            4..=6 => spaced_text(self.r),
            7 => format!("{}\n{}", token_text(self.r), spaced_text(self.r)),
            _ => token_text(self.r),
        };
        match self.r.below(5) {
            0 => t.append(&*s),
            1 => t.append(s.clone()),
            2 => t.append(ItemStr::from(s.clone())),
            3 => t.append(Item::Literal(ItemStr::from(&s))),
            _ => t.append(tokens::display(&s)),
        }
        let _ = write!(self.log, "{s:?} ");
        m.item(&MI::Lit(s));
    }

    fn ws(&mut self, t: &mut Tokens<Tl>, m: &mut MTokens) {
        match self.r.below(7) {
            0 | 1 => {
                let _ = write!(self.log, "sp ");
                if self.r.one_in(4) {
                    t.append(Item::Space)
                } else {
                    t.space()
                }
                m.space();
            }
            2 | 3 => {
                let _ = write!(self.log, "push ");
                if self.r.one_in(4) {
                    t.append(Item::Push)
                } else {
                    t.push()
                }
                m.push();
            }
            4 => {
                let _ = write!(self.log, "line ");
                if self.r.one_in(4) {
                    t.append(Item::Line)
                } else {
                    t.line()
                }
                m.line();
            }
            5 => {
                let up = self.r.below(5) < 3;
                let _ = write!(self.log, "{} ", if up { "in" } else { "un" });
                if up {
                    t.indent()
                } else {
                    t.unindent()
                }
                m.ind(if up { 1 } else { -1 });
            }
            _ => {
                let n = match self.r.below(8) {
                    0 => 0,
                    1 => self.r.range(-60, 60) as i32 * if self.r.one_in(16) { 5 } else { 1 },
                    _ => self.r.range(-3, 3) as i32,
                };
                let _ = write!(self.log, "ind{n} ");
                t.append(Item::Indentation(n as i16));
                m.ind(n);
            }
        }
    }

    fn lang(&mut self, t: &mut Tokens<Tl>, m: &mut MTokens) {
        let mark = self.mark();
        let mute = self.r.one_in(6).then(|| Mute { id: mark.id });
        let _ = write!(self.log, "#{} ", mark.id);
        match (mute, self.r.below(6)) {
            (Some(x), 0..=2) => {
                t.append(x.clone());
                m.item(&MI::Lang(Any::Mute(x)));
            }
            (Some(x), _) => {
                t.register(x.clone());
                m.item(&MI::Reg(Any::Mute(x)));
            }
            (None, 0) => {
                t.append(&mark);
                m.item(&MI::Lang(Any::Mark(mark)));
            }
            (None, 1) => {
                let _ = write!(self.log, "(reg) ");
                t.register(&mark);
                m.item(&MI::Reg(Any::Mark(mark)));
            }
            (None, 2) => {
                let _ = write!(self.log, "(reg) ");
                t.append(register(mark.clone()));
                m.item(&MI::Reg(Any::Mark(mark)));
            }
            (None, 3) => {
                let bogus = self.r.below(50);
                t.append(Item::Lang(bogus, Box::new(Any::Mark(mark.clone()))));
                m.item(&MI::Lang(Any::Mark(mark)));
            }
            (None, _) => {
                t.append(mark.clone());
                m.item(&MI::Lang(Any::Mark(mark)));
            }
        }
    }

    /// Run `n` operations against the stream and its model.
    fn ops(&mut self, t: &mut Tokens<Tl>, m: &mut MTokens, n: usize, depth: usize) -> Verdict {
        for _ in 0..n {
            if m.0.len() > self.maxlen {
                break;
            }
            self.steps += 1;
            match self.r.weighted(&[34, 18, 7, if depth > 0 { 9 } else { 0 }, 4, 3]) {
                0 => self.ws(t, m),
                1 => self.lit(t, m),
                2 => self.lang(t, m),
                3 => self.embed(t, m, depth - 1)?,
                4 => self.rebuild(t, m),
                _ => self.quote(t, m),
            }
            if self.check_each {
                self.check(t, m)?;
            }
        }
        Ok(())
    }

    fn check(&mut self, t: &Tokens<Tl>, m: &MTokens) -> Verdict {
        m.same(t).map_err(|e| format!("after {}\n{e}", self.log))?;
        if t.is_empty() != m.0.is_empty() {
            return Err(format!("is_empty is {} for {:?}\nafter {}", t.is_empty(), m.0, self.log));
        }
        Ok(())
    }

    fn quote(&mut self, t: &mut Tokens<Tl>, m: &mut MTokens) {
        if self.raw_quotes {
            let i = match self.r.below(5) {
                0 => MI::OpenQuote(false),
                1 => MI::OpenQuote(true),
                2 => MI::CloseQuote,
                3 => MI::OpenEval,
                _ => MI::CloseEval,
            };
            let _ = write!(self.log, "{i:?} ");
            t.append(model_to_real(&i, 0));
            m.item(&i);
            return;
        }
        // A simple quote of some words.
        let _ = write!(self.log, "quote[ ");
        if self.r.bool() {
            let s = token_text(self.r);
            t.append(quoted(&*s));
            m.item(&MI::OpenQuote(false));
            m.item(&MI::Lit(s));
            m.item(&MI::CloseQuote);
        } else {
            let e = self.r.bool();
            t.append(Item::OpenQuote(e));
            m.item(&MI::OpenQuote(e));
            for _ in 0..self.r.below(4) {
                if self.r.bool() {
                    self.lit(t, m);
                } else {
                    t.space();
                    m.space();
                }
            }
            t.append(Item::CloseQuote);
            m.item(&MI::CloseQuote);
        }
        let _ = write!(self.log, "] ");
    }

    fn embed(&mut self, t: &mut Tokens<Tl>, m: &mut MTokens, depth: usize) -> Verdict {
        let mut st = match self.r.below(3) {
            0 => Tokens::default(),
            1 => Tokens::with_capacity(self.r.below(9)),
            _ => Tokens::new(),
        };
        let mut sm = MTokens::default();
        let kind = self.r.below(9);
        let _ = write!(self.log, "e{kind}( ");
        let n = self.r.size(9);
        self.ops(&mut st, &mut sm, n, depth)?;
        let _ = write!(self.log, ") ");

        match kind {
            0 => t.append(&st),
            1 => t.append(st),
            2 => t.extend(st),
            3 if n % 2 == 0 => t.extend((&st).into_iter().cloned()),
            3 => t.extend(st.iter().cloned()),
            4 => (&st).format_into(t),
            5 => {
                let v = st.into_iter().collect::<Vec<_>>();
                let it = hinted(self.r, v);
                t.extend(it)
            }
            6 => t.append(Some(st)),
            7 => {
                // Twice, out of a vector.
                t.append(&vec![st.clone(), st]);
                m.extend(&sm);
            }
            _ => {
                // Item by item, from a plain vector.
                let bogus = self.r.below(100);
                let v = sm.0.iter().map(|i| model_to_real(i, bogus)).collect::<Vec<_>>();
                if st != v && !sm.0.iter().any(|i| matches!(i, MI::Lang(_) | MI::Reg(_))) {
                    return Err(format!("stream does not equal its items: {st:?}\n{v:?}\nafter {}", self.log));
                }
                t.extend(v);
            }
        }
        m.extend(&sm);
        Ok(())
    }

    /// Put the stream together again from its own items.
    fn rebuild(&mut self, t: &mut Tokens<Tl>, m: &mut MTokens) {
        let old = std::mem::take(t);
        // Note: quotes have to stay in order if the result is to be formatted.
        let kind = self.r.below(if self.raw_quotes { 8 } else { 4 });
        let _ = write!(self.log, "r{kind} ");
        let src = std::mem::take(m);
        *t = match kind {
            0 => old.clone(),
            1 if old.iter().count() % 2 == 0 => (&old).into_iter().collect(),
            1 => old.iter().collect(),
            2 => old.into_iter().collect(),
            3 => {
                let v = old.into_iter().collect();
                hinted(self.r, v).collect()
            }
            4 => {
                // Drop some items.
                let k = 2 + self.r.below(5);
                let keep = |n: usize| n % k != 1;
                for (i, x) in src.0.iter().enumerate() {
                    if keep(i) {
                        m.item(x);
                    }
                }
                *t = if self.r.bool() {
                    old.into_iter().enumerate().filter(|(i, _)| keep(*i)).map(|(_, x)| x).collect()
                } else {
                    old.iter().enumerate().filter(|(i, _)| keep(*i)).map(|(_, x)| x).collect()
                };
                return;
            }
            5 => {
                // Turn it around.
                for x in src.0.iter().rev() {
                    m.item(x);
                }
                let v = old.into_iter().collect::<Vec<_>>();
                *t = if self.r.bool() { v.iter().rev().collect() } else { v.into_iter().rev().collect() };
                return;
            }
            6 => {
                // Repeat every item, which nothing has put next to itself before.
                let v = old.into_iter().flat_map(|x| [x.clone(), x]).take(100).collect::<Vec<_>>();
                for x in src.0.iter().flat_map(|x| [x, x]).take(100) {
                    m.item(x);
                }
                *t = match self.r.below(4) {
                    0 => v.iter().collect(),
                    1 => v.into_iter().collect(),
                    2 => {
                        let mut t = Tokens::new();
                        t.extend(v);
                        t
                    }
                    _ => hinted(self.r, v).collect(),
                };
                return;
            }
            _ => {
                // Whitespace as it comes, between the items which are there.
                let mut raw = Vec::new();
                for x in src.0 {
                    for _ in 0..self.r.below(4) {
                        raw.push(match self.r.below(6) {
                            0 => MI::Push,
                            1 => MI::Line,
                            2 | 3 => MI::Space,
                            4 => MI::Ind(self.r.range(-2, 2) as i32),
                            _ => MI::Lit(String::new()),
                        });
                    }
                    raw.push(x);
                    if raw.len() > 120 {
                        break;
                    }
                }
                for x in &raw {
                    m.item(x);
                }
                let v = raw.iter().map(|i| model_to_real(i, 3)).collect::<Vec<_>>();
                *t = match self.r.below(3) {
                    0 => v.iter().collect(),
                    1 => v.into_iter().collect(),
                    _ => hinted(self.r, v).collect(),
                };
                return;
            }
        };
        m.extend(&src);
    }
}

pub fn c01(cx: &mut Ctx) -> Verdict {
    let mut r = cx.rng.clone();
    let mut b = B::new(&mut r);
    b.raw_quotes = b.r.bool();
    b.check_each = true;

    let mut t = Tokens::new();
    let mut m = MTokens::default();
    let n = 2 + b.r.size(40);
    b.ops(&mut t, &mut m, n, 3)?;

    // Equality, ordering and hashing against another stream, which is a copy made
    // in another way or slightly different.
    let at = b.log.clone();
    let log = |s: &str| format!("{s}\nafter {at}");
    let (u, mu) = match b.r.below(4) {
        0 => (t.clone(), m.clone()),
        1 => {
            let mut mm = MTokens::default();
            mm.extend(&m);
            (t.iter().cloned().collect::<Tokens<Tl>>(), mm)
        }
        2 => {
            let (mut u, mut mu) = (t.clone(), m.clone());
            b.ops(&mut u, &mut mu, 1, 0)?;
            (u, mu)
        }
        _ => {
            let (mut u, mut mu) = (Tokens::new(), MTokens::default());
            let n = b.r.below(4);
            b.ops(&mut u, &mut mu, n, 1)?;
            (u, mu)
        }
    };
    let same = m == mu;
    if (t == u) != same || (u == t) != same {
        return Err(log(&format!("== gives {} for {:?} and {:?}", t == u, m.0, mu.0)));
    }
    let (x, y) = (t.cmp(&u), u.cmp(&t));
    if (x == std::cmp::Ordering::Equal) != same || x != y.reverse() || t.partial_cmp(&u) != Some(x) {
        return Err(log(&format!("cmp gives {x:?} and {y:?} for {:?} and {:?}", m.0, mu.0)));
    }
    if same && hash(&t) != hash(&u) {
        return Err(log("equal streams differ in hash"));
    }
    let items = t.iter().cloned().collect::<Vec<_>>();
    if t != items || items != t || t != items[..] || items[..] != t {
        return Err(log("a stream does not equal its own items"));
    }
    // Slices which are not quite the same.
    let mut other = u.iter().cloned().collect::<Vec<_>>();
    if (items.cmp(&other), items.partial_cmp(&other)) != (x, Some(x)) {
        return Err(log(&format!("cmp gives {x:?} and not what it is for the items of {:?} and {:?}", m.0, mu.0)));
    }
    match b.r.below(4) {
        0 => other.truncate(b.r.below(other.len() + 1)),
        1 => other.extend(items.first().cloned()),
        2 => {
            other = items.clone();
            other.push(Item::CloseQuote);
        }
        _ => {
            other = items[..b.r.below(items.len() + 1)].to_vec();
            let rest = b.r.below(3).min(items.len());
            other.extend_from_slice(&items[items.len() - rest..]);
        }
    }
    let same = items.len() == other.len() && items.iter().zip(&other).all(|(a, b)| a == b);
    for (eq, ne) in [
        (t == other, t != other),
        (other == t, other != t),
        (t == other[..], t != other[..]),
        (other[..] == t, other[..] != t),
    ] {
        if eq != same || ne == same {
            return Err(log(&format!("== gives {eq} and != {ne} for {:?} and {other:?}", m.0)));
        }
    }

    let it = t.iter();
    let (lo, hi) = it.size_hint();
    if lo > items.len() || hi.map_or(false, |h| h < items.len()) {
        return Err(log("wrong size hint"));
    }

    cx.saw_n("operations", b.steps);
    cx.saw_n("items compared", m.0.len() as u64);
    for i in &m.0 {
        match i {
            MI::Ind(_) => cx.saw("indentation items"),
            MI::Line => cx.saw("line items"),
            MI::Push => cx.saw("push items"),
            MI::Space => cx.saw("space items"),
            _ => {}
        }
    }
    cx.evaluated(&at, m.0.len() >= 2);
    Ok(())
}

pub fn c02(cx: &mut Ctx) -> Verdict {
    let mut r = cx.rng.clone();
    let unit = match r.below(8) {
        0 => Unit::Tab,
        1 => Unit::Space(0),
        2 => Unit::Space(*r.pick(&[1, 2, 3, 8, 17, 50, 101])),
        3 => Unit::Tab,
        _ => Unit::Space(4),
    };
    let newline = *r.pick(&["\n", "\n", "\r\n", "\r", "<nl>", "\u{2028}"]);
    let streams = 1 + r.below(3);
    let file = r.bool();

    let mut b = B::new(&mut r);
    let mut real = Vec::new();
    let mut model = Vec::new();
    for k in 0..streams {
        let mut t = Tokens::new();
        let mut m = MTokens::default();
        // Start out deep from time to time.
        if b.r.one_in(6) {
            let n = *b.r.pick(&[10, 25, 26, 39, 40, 41, 100, 120]);
            t.append(Item::Indentation(n));
            m.ind(n as i32);
            let _ = write!(b.log, "ind{n} ");
        }
        let n = 1 + b.r.size(if streams == 1 { 40 } else { 14 });
        b.ops(&mut t, &mut m, n, 2)?;
        if b.r.one_in(16_000) {
            // More items than fit in 16 bits.
            let n = 65_500 + b.r.below(100);
            for _ in 0..n {
                t.append("y");
                m.item(&MI::Lit("y".into()));
            }
            let _ = write!(b.log, "text{n} ");
            b.ops(&mut t, &mut m, 5, 2)?;
        }
        if k + 1 < streams {
            let _ = write!(b.log, "|| ");
        }
        real.push(t);
        model.push(m);
    }

    let mut want = MFmt::new(unit, newline);
    for m in &model {
        want.items(&m.0);
    }
    if file {
        want.file_end();
    }

    let cfg = config::<Tl>(unit, newline);
    let mut w = FmtWriter::new(Bounded(String::new(), want.out.len() * 2 + 100_000));
    {
        let mut f = w.as_formatter(&cfg);
        for (i, t) in real.iter().enumerate() {
            let res = if file && i + 1 == real.len() { t.format_file(&mut f, &()) } else { t.format(&mut f, &(), &()) };
            if res.is_err() {
                return Err(format!("formatting fails for {}", b.log));
            }
        }
    }
    let got = w.into_inner().0;
    if got != want.out {
        return Err(format!(
            "{unit:?}, newline {newline:?}, file {file}: {}\n  expected {:?}\n  actual   {:?}",
            b.log, want.out, got
        ));
    }

    // The same with the defaults.
    if streams == 1 {
        let mut want = MFmt::new(Unit::Space(4), "\n");
        want.items(&model[0].0);
        let got = real[0].to_string().map_err(|_| format!("to_string fails for {}", b.log))?;
        if got != want.out {
            return Err(format!("to_string: {}\n  expected {:?}\n  actual   {:?}", b.log, want.out, got));
        }
        want.file_end();
        let got = real[0].to_file_string().map_err(|_| format!("to_file_string fails for {}", b.log))?;
        if got != want.out {
            return Err(format!("to_file_string: {}\n  expected {:?}\n  actual   {:?}", b.log, want.out, got));
        }
        cx.saw("compared with defaults");
    }

    cx.saw_n("bytes compared", got.len() as u64);
    cx.saw_n("line breaks", got.matches(newline).count() as u64);
    if unit == Unit::Tab {
        cx.saw("with tabs");
    }
    if streams > 1 {
        cx.saw("several streams through one formatter");
    }
    if newline != "\n" {
        cx.saw("with another newline");
    }
    let key = format!("{unit:?} {newline:?} file={file} {}", b.log);
    cx.evaluated(&key, got.contains(newline));
    Ok(())
}

/// A stream, the ids put into it in order, and whether they were registered.
#[derive(Clone, Default)]
struct Held {
    t: Tokens<Tl>,
    ids: Vec<(u32, bool)>,
}

impl Held {
    fn check(&self, log: &str) -> Verdict {
        let mut want = self.ids.iter().map(|x| x.0).collect::<Vec<_>>();
        let mut got = self.t.walk_imports().map(item_id).take(want.len() + 1000).collect::<Vec<_>>();
        want.sort_unstable();
        got.sort_unstable();
        if want != got {
            return Err(format!("walk_imports: {log}\n  expected {want:?}\n  actual   {got:?}"));
        }
        let text = self.t.to_string().map_err(|_| format!("formatting fails: {log}"))?;
        let want = self.ids.iter().filter(|x| !x.1).map(|x| format!("⟦{}⟧", x.0)).collect::<String>();
        let got = text.split_whitespace().collect::<String>();
        if want != got {
            return Err(format!("items written: {log}\n  expected {want}\n  actual   {got}"));
        }
        Ok(())
    }
}

pub fn c04(cx: &mut Ctx) -> Verdict {
    let mut r = cx.rng.clone();
    let mut log = String::new();
    let mut next = 0u32;
    let mut pool = vec![Held::default(); 4];
    let mut steps = 3 + r.size(30);

    if r.one_in(8_000) {
        // More items than fit in 16 bits.
        let n = 65_500 + r.below(100);
        for _ in 0..n {
            pool[0].t.append("");
        }
        let _ = write!(log, "0:empty{n} ");
        steps = 10;
        cx.saw("streams of more than 65500 items");
    }

    for _ in 0..steps {
        let k = r.below(pool.len());
        let mut mk = |r: &mut Rng| {
            next += 1;
            Mark { id: next, mode: r.below(4) as u8, text: format!("⟦{next}⟧") }
        };
        let _ = write!(log, "{k}:");
        let p = &mut pool[k];
        if p.ids.len() > 150 {
            *p = Held::default();
        }

        match r.below(16) {
            0 | 1 => {
                let m = mk(&mut r);
                let _ = write!(log, "use {} ", m.id);
                p.ids.push((m.id, false));
                match r.below(6) {
                    0 => p.t.append(m),
                    1 => p.t.append(&m),
                    2 => m.format_into(&mut p.t),
                    3 => p.t.append(Some(m)),
                    4 => p.t.append(Item::Lang(r.below(40), Box::new(Any::Mark(m)))),
                    _ => p.t.extend(Some(Item::Lang(r.below(3), Box::new(m.into())))),
                }
            }
            2 => {
                let n = r.size(4);
                let v = (0..n).map(|_| mk(&mut r)).collect::<Vec<_>>();
                p.ids.extend(v.iter().map(|m| (m.id, false)));
                let _ = write!(log, "use-many {n} ");
                match r.below(4) {
                    0 => p.t.append(v),
                    1 => p.t.append(&v),
                    2 => p.t.append(&v[..]),
                    _ => p.t.append(std::borrow::Cow::Borrowed(&v[..])),
                }
            }
            3 => {
                let m = mk(&mut r);
                let _ = write!(log, "reg {} ", m.id);
                p.ids.push((m.id, true));
                match r.below(5) {
                    0 => p.t.register(m),
                    1 => p.t.register(&m),
                    2 => p.t.append(register(m)),
                    3 => p.t.append(Item::Register(r.below(40), Box::new(Any::Mark(m)))),
                    _ => p.t.append(register(&m)),
                }
            }
            4 | 5 => {
                let n = 1 + r.below(8);
                let v = (0..n).map(|_| mk(&mut r)).collect::<Vec<_>>();
                p.ids.extend(v.iter().map(|m| (m.id, true)));
                let _ = write!(log, "reg-tuple {n} ");
                let t = &mut p.t;
                match &v[..] {
                    [a] => t.register((a,)),
                    [a, b] => t.register((a, b.clone())),
                    [a, b, c] => t.append(register((a, b, c))),
                    [a, b, c, d] => t.register((a, b, c, d)),
                    [a, b, c, d, e] => t.register((a, b, c, d, e)),
                    [a, b, c, d, e, f] => t.register((a, b, c, d, e, f)),
                    [a, b, c, d, e, f, g] => t.register((a, b, c, d, e, f, g)),
                    [a, b, c, d, e, f, g, h] => t.append(register((a, b, c, d, e, f, g, h))),
                    _ => unreachable!(),
                }
            }
            6 => {
                let _ = write!(log, "ws ");
                match r.below(5) {
                    0 => p.t.space(),
                    1 => p.t.push(),
                    2 => p.t.line(),
                    3 => p.t.indent(),
                    _ => p.t.unindent(),
                }
            }
            7..=11 => {
                // Embed another stream.
                let j = r.below(pool.len());
                let o = pool[j].clone();
                let kind = r.below(9);
                let _ = write!(log, "embed{kind} {j} ");
                let p = &mut pool[k];
                p.ids.extend(o.ids.iter().copied());
                match kind {
                    0 => p.t.append(&o.t),
                    1 => p.t.append(o.t),
                    2 => p.t.extend(o.t),
                    3 => p.t.extend(o.t.iter().cloned()),
                    4 => {
                        let v = o.t.into_iter().collect();
                        let it = hinted(&mut r, v);
                        p.t.extend(it)
                    }
                    5 => p.t.append(Some(&o.t)),
                    6 => {
                        p.ids.extend(o.ids.iter().copied());
                        p.t.append(vec![o.t.clone(), o.t]);
                    }
                    7 => {
                        let inner = &o.t;
                        p.t.append(tokens::from_fn(|t: &mut Tokens<Tl>| t.append(inner)));
                    }
                    _ => {
                        for i in o.t {
                            p.t.append(i);
                        }
                    }
                }
            }
            12 | 13 => {
                // Take the items out and put them back.
                let old = std::mem::take(p);
                let kind = r.below(5);
                let _ = write!(log, "again{kind} ");
                match kind {
                    0 => {
                        p.t = old.t.into_iter().collect();
                        p.ids = old.ids;
                    }
                    1 => {
                        p.t = old.t.iter().collect();
                        p.ids = old.ids;
                    }
                    2 => {
                        let v = old.t.into_iter().collect::<Vec<_>>();
                        p.t = v.into_iter().rev().collect();
                        p.ids = old.ids.into_iter().rev().collect();
                    }
                    3 => {
                        // Every other language item only.
                        let is_lang = |i: &Item<Tl>| matches!(i, Item::Lang(..) | Item::Register(..));
                        let mut n = 0;
                        p.t = old
                            .t
                            .into_iter()
                            .filter(|i| {
                                if !is_lang(i) {
                                    return true;
                                }
                                n += 1;
                                n % 2 == 1
                            })
                            .collect();
                        p.ids = old.ids.into_iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|x| x.1).collect();
                    }
                    _ => {
                        let v = old.t.into_iter().collect();
                        p.t = hinted(&mut r, v).collect();
                        p.ids = old.ids;
                    }
                }
            }
            14 => {
                let j = r.below(pool.len());
                let _ = write!(log, "copy {j} ");
                pool[k] = pool[j].clone();
            }
            _ => {
                // Swap a quoted stream in.
                let m = mk(&mut r);
                let _ = write!(log, "quoted-reg {} ", m.id);
                p.ids.push((m.id, true));
                p.t.append(quoted(register(m)));
                // Note: the quotes themselves are of no interest here.
                let t = std::mem::take(&mut p.t);
                p.t = t.into_iter().filter(|i| !matches!(i, Item::OpenQuote(_) | Item::CloseQuote)).collect();
            }
        }

        pool[k].check(&log)?;
        cx.saw("streams checked");
        cx.saw_n("items conserved", pool[k].ids.len() as u64);
    }

    let nontrivial = pool.iter().any(|p| p.ids.len() > 2);
    cx.evaluated(&log, nontrivial);
    Ok(())
}
