From b89791f65e4b9161c4ec1bf4ec3b7d64db10e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:43 +0000
Subject: [PATCH 01/33] fix: emit escapes for the control characters they
 denote

The form feed and vertical tab escapes were keyed on U+0012 and U+0011, and
Java's backspace on U+0007, so these characters changed when read back.
---
 src/lang/dart/mod.rs | 4 ++--
 src/lang/java/mod.rs | 4 ++--
 src/lang/js.rs       | 4 ++--
 src/lang/mod.rs      | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index 077f932..cf2d765 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -100,7 +100,7 @@ impl_lang! {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-                    '\u{0012}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     // new line
                     '\n' => out.write_str("\\n")?,
                     // carriage return
@@ -108,7 +108,7 @@ impl_lang! {
                     // horizontal tab
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
-                    '\u{0011}' => out.write_str("\\v")?,
+                    '\u{000b}' => out.write_str("\\v")?,
                     // Note: only relevant if we were to use single-quoted strings.
                     // '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
diff --git a/src/lang/java/mod.rs b/src/lang/java/mod.rs
index 265bee9..a4e195a 100644
--- a/src/lang/java/mod.rs
+++ b/src/lang/java/mod.rs
@@ -44,10 +44,10 @@ impl_lang! {
             for c in input.chars() {
                 match c {
                     '\t' => out.write_str("\\t")?,
-                    '\u{0007}' => out.write_str("\\b")?,
+                    '\u{0008}' => out.write_str("\\b")?,
                     '\n' => out.write_str("\\n")?,
                     '\r' => out.write_str("\\r")?,
-                    '\u{0014}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
                     '\\' => out.write_str("\\\\")?,
diff --git a/src/lang/js.rs b/src/lang/js.rs
index 6d129e4..182a5ca 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -129,7 +129,7 @@ impl_lang! {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-                    '\u{0012}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     // new line
                     '\n' => out.write_str("\\n")?,
                     // carriage return
@@ -137,7 +137,7 @@ impl_lang! {
                     // horizontal tab
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
-                    '\u{0011}' => out.write_str("\\v")?,
+                    '\u{000b}' => out.write_str("\\v")?,
                     // null character.
                     '\0' => out.write_str("\\0")?,
                     // Note: only relevant if we were to use single-quoted strings.
diff --git a/src/lang/mod.rs b/src/lang/mod.rs
index 85d2852..88c80aa 100644
--- a/src/lang/mod.rs
+++ b/src/lang/mod.rs
@@ -187,7 +187,7 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             // backspace
             '\u{0008}' => out.write_str("\\b")?,
             // form feed
-            '\u{0012}' => out.write_str("\\f")?,
+            '\u{000c}' => out.write_str("\\f")?,
             // new line
             '\n' => out.write_str("\\n")?,
             // carriage return
@@ -195,7 +195,7 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             // horizontal tab
             '\t' => out.write_str("\\t")?,
             // vertical tab
-            '\u{0011}' => out.write_str("\\v")?,
+            '\u{000b}' => out.write_str("\\v")?,
             '\'' => out.write_str("\\'")?,
             '"' => out.write_str("\\\"")?,
             '\\' => out.write_str("\\\\")?,
-- 
2.43.0


From a013f47249844383841e986a661d235f865258ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 02/33] fix: do not escape single quotes in double-quoted C
 family strings

Go rejects the escape in an interpreted string literal, so any quoted Go string
with an apostrophe did not compile.
---
 src/lang/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lang/mod.rs b/src/lang/mod.rs
index 88c80aa..d332ebd 100644
--- a/src/lang/mod.rs
+++ b/src/lang/mod.rs
@@ -196,7 +196,9 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             '\t' => out.write_str("\\t")?,
             // vertical tab
             '\u{000b}' => out.write_str("\\v")?,
-            '\'' => out.write_str("\\'")?,
+            // Note: only relevant for single-quoted strings, and not a legal escape
+            // in a double-quoted Go string.
+            // '\'' => out.write_str("\\'")?,
             '"' => out.write_str("\\\"")?,
             '\\' => out.write_str("\\\\")?,
             ' ' => out.write_char(' ')?,
-- 
2.43.0


From 65238ef5e13cbdf6a9d55284d572873f2e9ce77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 03/33] fix: keep numeric escapes in C and C# strings from
 consuming what follows

\x has no maximum length in C and takes up to four digits in C#, so a control
character followed by a hex digit was read back as a different character. C also
rejects universal character names for the C1 controls.
---
 src/lang/c.rs   | 39 ++++++++++++++++++++++++++++++++++++++-
 src/lang/mod.rs | 10 ++++++++--
 2 files changed, 46 insertions(+), 3 deletions(-)

diff --git a/src/lang/c.rs b/src/lang/c.rs
index 15e0b7d..1ca80ae 100644
--- a/src/lang/c.rs
+++ b/src/lang/c.rs
@@ -20,7 +20,44 @@ impl_lang! {
         type Item = Import;
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
-            super::c_family_write_quoted(out, input)
+            // From: https://en.cppreference.com/w/c/language/escape
+
+            for c in input.chars() {
+                match c {
+                    // alert (bell)
+                    '\u{0007}' => out.write_str("\\a")?,
+                    // backspace
+                    '\u{0008}' => out.write_str("\\b")?,
+                    // form feed
+                    '\u{000c}' => out.write_str("\\f")?,
+                    // new line
+                    '\n' => out.write_str("\\n")?,
+                    // carriage return
+                    '\r' => out.write_str("\\r")?,
+                    // horizontal tab
+                    '\t' => out.write_str("\\t")?,
+                    // vertical tab
+                    '\u{000b}' => out.write_str("\\v")?,
+                    '"' => out.write_str("\\\"")?,
+                    '\\' => out.write_str("\\\\")?,
+                    c if c.is_ascii() && !c.is_control() => out.write_char(c)?,
+                    // Note: hexadecimal escapes have no maximum length, and universal
+                    // character names cannot designate a control character.
+                    c if c.is_control() => {
+                        for b in c.encode_utf8(&mut [0u8; 4]).bytes() {
+                            write!(out, "\\{:03o}", b)?;
+                        }
+                    }
+                    c if (c as u32) < 0x10000 => {
+                        write!(out, "\\u{:04x}", c as u32)?;
+                    }
+                    c => {
+                        write!(out, "\\U{:08x}", c as u32)?;
+                    }
+                }
+            }
+
+            Ok(())
         }
 
         fn format_file(
diff --git a/src/lang/mod.rs b/src/lang/mod.rs
index d332ebd..734dae9 100644
--- a/src/lang/mod.rs
+++ b/src/lang/mod.rs
@@ -180,7 +180,9 @@ where
 /// This is one of the more common escape sequences and is provided here so you
 /// can use it if a language you've implemented requires it.
 pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Result {
-    for c in input.chars() {
+    let mut chars = input.chars().peekable();
+
+    while let Some(c) = chars.next() {
         match c {
             // alert (bell)
             '\u{0007}' => out.write_str("\\a")?,
@@ -203,10 +205,14 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             '\\' => out.write_str("\\\\")?,
             ' ' => out.write_char(' ')?,
             c if c.is_ascii() => {
+                // Note: C# reads up to four digits following `\x`, so it can only be
+                // used if what comes next is known not to be another digit.
                 if !c.is_control() {
                     out.write_char(c)?
-                } else {
+                } else if matches!(chars.peek(), Some(n) if !n.is_ascii_hexdigit()) {
                     write!(out, "\\x{:02x}", c as u32)?;
+                } else {
+                    write!(out, "\\u{:04x}", c as u32)?;
                 }
             }
             c if (c as u32) < 0x10000 => {
-- 
2.43.0


From 4e4f0289b6dbf7dfbb3c45ee7fe1940044283099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 04/33] fix: use Nix escapes in quoted Nix strings

Nix has no numeric escapes, so anything outside of printable ASCII was mangled,
and an unescaped ${ started an interpolation.
---
 src/lang/nix.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/lang/nix.rs b/src/lang/nix.rs
index 9e71ad6..9987d17 100644
--- a/src/lang/nix.rs
+++ b/src/lang/nix.rs
@@ -21,7 +21,26 @@ impl_lang! {
         type Item = Import;
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
-            super::c_family_write_quoted(out, input)
+            // From: https://nix.dev/manual/nix/latest/language/string-literals
+
+            for c in input.chars() {
+                match c {
+                    // new line
+                    '\n' => out.write_str("\\n")?,
+                    // carriage return
+                    '\r' => out.write_str("\\r")?,
+                    // horizontal tab
+                    '\t' => out.write_str("\\t")?,
+                    '"' => out.write_str("\\\"")?,
+                    '\\' => out.write_str("\\\\")?,
+                    // start of an interpolation
+                    '$' => out.write_str("\\$")?,
+                    // Note: there are no numeric escapes.
+                    c => out.write_char(c)?,
+                }
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From 78ecaf9422ca5119ca855fc8b0a5259e37868a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 05/33] fix: escape JavaScript strings so template literals
 round-trip

Backticks and ${ were written verbatim into template literals, ending or
interpolating them, and a null character followed by a digit became a legacy
octal escape.
---
 src/lang/js.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 182a5ca..bb0725a 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -124,7 +124,9 @@ impl_lang! {
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
             // Reference: https://mathiasbynens.be/notes/javascript-escapes
 
-            for c in input.chars() {
+            let mut chars = input.chars().peekable();
+
+            while let Some(c) = chars.next() {
                 match c {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
@@ -138,8 +140,10 @@ impl_lang! {
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
                     '\u{000b}' => out.write_str("\\v")?,
-                    // null character.
-                    '\0' => out.write_str("\\0")?,
+                    // Note: `\0` is not used since it can't be followed by a digit.
+                    // Note: only relevant in template literals.
+                    '`' => out.write_str("\\`")?,
+                    '$' if matches!(chars.peek(), None | Some('{')) => out.write_str("\\$")?,
                     // Note: only relevant if we were to use single-quoted strings.
                     // '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
-- 
2.43.0


From 58f483ba0dbc6872c3b2206e4530ce50a6ac430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 06/33] fix: delimit Dart interpolations which are not simple
 identifiers

$(a.b) was written as $a.b, which only interpolates a, and $(world)s as
$worlds, which interpolates another variable.
---
 src/fmt/cursor.rs    |  6 ++++++
 src/fmt/formatter.rs | 15 ++++++++++++++-
 src/lang/dart/mod.rs | 12 +++++++++++-
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/fmt/cursor.rs b/src/fmt/cursor.rs
index 5dfc8dc..81cde30 100644
--- a/src/fmt/cursor.rs
+++ b/src/fmt/cursor.rs
@@ -85,6 +85,12 @@ where
         Some(first)
     }
 
+    /// Get the item at the given offset without consuming it.
+    #[inline]
+    pub(super) fn get(&self, n: usize) -> Option<&Item<L>> {
+        self.items.get(n)
+    }
+
     #[inline]
     pub(super) fn peek<P>(&self) -> bool
     where
diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 922ba69..ee71b59 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -212,7 +212,20 @@ impl<'a> Formatter<'a> {
                     self.indentation(*n);
                 }
                 Item::OpenEval if *in_quote => {
-                    if cursor.peek::<cursor::Literal>() && cursor.peek1::<cursor::CloseEval>() {
+                    // Note: the literal form might not be delimited, so it can
+                    // only be used if what follows isn't read as part of it.
+                    let delimited = match cursor.get(2) {
+                        None | Some(Item::CloseQuote | Item::OpenEval) => true,
+                        Some(Item::Literal(s)) => {
+                            s.starts_with(|c: char| !c.is_alphanumeric() && c != '_')
+                        }
+                        Some(..) => false,
+                    };
+
+                    if delimited
+                        && cursor.peek::<cursor::Literal>()
+                        && cursor.peek1::<cursor::CloseEval>()
+                    {
                         let literal = cursor.parse::<cursor::Literal>()?;
                         L::string_eval_literal(self, config, format, literal)?;
                         cursor.parse::<cursor::CloseEval>()?;
diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index cf2d765..97c27f3 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -67,7 +67,17 @@ impl_lang! {
             _format: &Self::Format,
             literal: &str,
         ) -> fmt::Result {
-            write!(out, "${}", literal)?;
+            let simple = literal.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
+                && literal.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
+                && !matches!(literal, "true" | "false" | "null");
+
+            // Anything but a simple identifier has to be delimited.
+            if simple {
+                write!(out, "${}", literal)?;
+            } else {
+                write!(out, "${{{}}}", literal)?;
+            }
+
             Ok(())
         }
 
-- 
2.43.0


From 8392d65eee8c11639ff339ecf05c09a9131539a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 07/33] fix: escape the contents of nested quotes, and allow
 any depth of them

The contents of a quote inside of a quote were written verbatim, so a quote or a
backslash in them ended the inner string. A third level failed to format.
---
 src/fmt/formatter.rs | 49 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index ee71b59..b467ee7 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -155,7 +155,12 @@ impl<'a> Formatter<'a> {
         let mut buf = String::new();
         let mut stack = smallvec::SmallVec::<[Frame; 4]>::new();
 
-        stack.push(Frame::default());
+        // Note: a nested quote starts out inside of the quote being nested.
+        stack.push(Frame {
+            in_quote: end_on_close_quote,
+            has_eval: false,
+            end_on_eval: false,
+        });
 
         while let (Some(item), Some(head)) = (cursor.next(), stack.last_mut()) {
             let Frame {
@@ -168,7 +173,9 @@ impl<'a> Formatter<'a> {
                 Item::Register(..) => (),
                 Item::Indentation(0) => (),
                 Item::Literal(literal) => {
-                    if *in_quote {
+                    if end_on_close_quote {
+                        self.write_nested_quoted::<L>(literal)?;
+                    } else if *in_quote {
                         L::write_quoted(self, literal)?;
                     } else {
                         self.write_str(literal)?;
@@ -185,7 +192,13 @@ impl<'a> Formatter<'a> {
                 // Evaluating quotes are not supported.
                 Item::OpenQuote(false) if *in_quote => {
                     self.quoted_quote(cursor, &mut buf, config, format)?;
-                    L::write_quoted(self, &buf)?;
+
+                    if end_on_close_quote {
+                        self.write_nested_quoted::<L>(&buf)?;
+                    } else {
+                        L::write_quoted(self, &buf)?;
+                    }
+
                     buf.clear();
                 }
                 Item::CloseQuote if end_on_close_quote => {
@@ -211,7 +224,7 @@ impl<'a> Formatter<'a> {
                 Item::Indentation(n) => {
                     self.indentation(*n);
                 }
-                Item::OpenEval if *in_quote => {
+                Item::OpenEval if *in_quote && !end_on_close_quote => {
                     // Note: the literal form might not be delimited, so it can
                     // only be used if what follows isn't read as part of it.
                     let delimited = match cursor.get(2) {
@@ -253,7 +266,7 @@ impl<'a> Formatter<'a> {
 
         return Ok(());
 
-        #[derive(Default, Clone)]
+        #[derive(Clone)]
         struct Frame {
             in_quote: bool,
             has_eval: bool,
@@ -282,6 +295,32 @@ impl<'a> Formatter<'a> {
         Ok(())
     }
 
+    /// Write the contents of a quote which is inside of another quote.
+    ///
+    /// Printable characters outside of ASCII are left to the outer quote.
+    fn write_nested_quoted<L>(&mut self, mut input: &str) -> fmt::Result
+    where
+        L: Lang,
+    {
+        let verbatim = |c: char| {
+            !c.is_ascii() && !c.is_control() && !matches!(c, '\u{2028}' | '\u{2029}')
+        };
+
+        while !input.is_empty() {
+            let n = input.find(verbatim).unwrap_or(input.len());
+            let (escape, rest) = input.split_at(n);
+            L::write_quoted(self, escape)?;
+
+            let n = rest.find(|c| !verbatim(c)).unwrap_or(rest.len());
+            let (rest, tail) = rest.split_at(n);
+            self.write_str(rest)?;
+
+            input = tail;
+        }
+
+        Ok(())
+    }
+
     // Realize any pending whitespace just prior to writing a non-whitespace
     // item.
     fn flush_whitespace(&mut self) -> fmt::Result {
-- 
2.43.0


From 9d9ed4a5512606c03340d456444046bd16d72a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 08/33] fix: discard pending spaces at every line break

Spaces preceding a line break at the start of a file, or following a blank line,
were carried over in front of the next token.
---
 src/fmt/formatter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index b467ee7..8a6afa7 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -110,8 +110,8 @@ impl<'a> Formatter<'a> {
 
     fn push(&mut self) {
         self.line = match self.line {
-            Whitespace::Initial => return,
-            Whitespace::Line => return,
+            Whitespace::Initial => Whitespace::Initial,
+            Whitespace::Line => Whitespace::Line,
             _ => Whitespace::Push,
         };
 
@@ -121,7 +121,7 @@ impl<'a> Formatter<'a> {
     /// Push a new line.
     fn line(&mut self) {
         self.line = match self.line {
-            Whitespace::Initial => return,
+            Whitespace::Initial => Whitespace::Initial,
             _ => Whitespace::Line,
         };
 
-- 
2.43.0


From e4cc0fea2d40cc9d28bbf8eba166dfab87c1852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 09/33] fix: do not reserve the upper bound of an iterator

The upper bound of a size hint is not a promise, so extending from an iterator
with a large one panicked with a capacity overflow.
---
 src/tokens/tokens.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/tokens/tokens.rs b/src/tokens/tokens.rs
index 3e5f81e..3962e40 100644
--- a/src/tokens/tokens.rs
+++ b/src/tokens/tokens.rs
@@ -203,8 +203,8 @@ where
         I: IntoIterator<Item = Item<L>>,
     {
         let it = it.into_iter();
-        let (low, high) = it.size_hint();
-        self.items.reserve(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        self.items.reserve(low);
 
         for item in it {
             self.item(item);
@@ -1001,8 +1001,7 @@ where
 {
     fn from_iter<I: IntoIterator<Item = &'a Item<L>>>(iter: I) -> Self {
         let it = iter.into_iter();
-        let (low, high) = it.size_hint();
-        let mut tokens = Self::with_capacity(high.unwrap_or(low));
+        let mut tokens = Self::new();
         tokens.extend(it.cloned());
         tokens
     }
@@ -1014,8 +1013,7 @@ where
 {
     fn from_iter<I: IntoIterator<Item = Item<L>>>(iter: I) -> Self {
         let it = iter.into_iter();
-        let (low, high) = it.size_hint();
-        let mut tokens = Self::with_capacity(high.unwrap_or(low));
+        let mut tokens = Self::new();
         tokens.extend(it);
         tokens
     }
-- 
2.43.0


From 4fca18adb8a8f5edacd0cabb2465d4762dffc96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:06 +0000
Subject: [PATCH 10/33] fix: reject lines shallower than the first line of a
 quote

There is no known indentation level for such a line, which is documented to be
an error. The whitespace was dropped instead, fusing the tokens around it.
---
 genco-macros/src/encoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 3f517be..09eebf0 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -415,6 +415,12 @@ impl<'a> Encoder<'a> {
                     self.output.extend(q::quote!(#r.line();));
                 }
             } else if last_start_column > to.column {
+                // Shallower than the first line, so there is no known
+                // indentation to match.
+                if self.indents.is_empty() && self.last.is_some() && to_span.is_some() {
+                    return Err(indentation_error(to.column, last_start_column, to_span));
+                }
+
                 while let Some((column, _)) = self.indents.pop() {
                     if column > to.column && !self.indents.is_empty() {
                         self.output.extend(q::quote!(#r.unindent();));
-- 
2.43.0


From 45754222fd29c1d70eb7ba32ed6f1456352e2f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 11/33] fix: allow interpolated expressions to span lines

The first token of the expression was used as the span of all of it, so the
macro panicked if it ended on a later line.
---
 genco-macros/src/string_parser.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/genco-macros/src/string_parser.rs b/genco-macros/src/string_parser.rs
index 5f7dc52..469cc29 100644
--- a/genco-macros/src/string_parser.rs
+++ b/genco-macros/src/string_parser.rs
@@ -287,9 +287,7 @@ impl<'a> StringParser<'a> {
                     let content;
                     let end = syn::parenthesized!(content in input).span;
 
-                    let (req, stream) = crate::quote::Quote::new(self.cx)
-                        .with_span(content.span())?
-                        .parse(&content)?;
+                    let (req, stream) = crate::quote::Quote::new(self.cx).parse(&content)?;
                     requirements.merge_with(req);
                     let start = self.buf.cursor(start.span())?;
                     let end = self.buf.cursor(end.span())?;
-- 
2.43.0


From 82fef6f5d479a394a61a45e8f9410f979a828253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 12/33] fix: parse attributes in front of match arms

They were looked for following the match instead of in its body, so an arm with
an attribute was a syntax error.
---
 genco-macros/src/quote.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genco-macros/src/quote.rs b/genco-macros/src/quote.rs
index 82c4fd2..835d7ae 100644
--- a/genco-macros/src/quote.rs
+++ b/genco-macros/src/quote.rs
@@ -196,7 +196,7 @@ impl<'a> Quote<'a> {
         let mut arms = Vec::new();
 
         while !body.is_empty() {
-            let attr = input.call(syn::Attribute::parse_outer)?;
+            let attr = body.call(syn::Attribute::parse_outer)?;
             let pattern = syn::Pat::parse_multi_with_leading_vert(&body)?;
 
             let condition = if body.peek(Token![if]) {
-- 
2.43.0


From d15fbf4abb1a936e5560166f652702ee7d751685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 13/33] fix: resolve Java names which are in scope without
 being imported

Importing a type with the name of one used from java.lang or from the package of
the file caused both to be written as the imported name.
---
 src/lang/java/mod.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/lang/java/mod.rs b/src/lang/java/mod.rs
index a4e195a..e7d0237 100644
--- a/src/lang/java/mod.rs
+++ b/src/lang/java/mod.rs
@@ -90,7 +90,11 @@ impl_lang! {
             let imported = format.imported.get(self.name.as_ref()).map(String::as_str);
             let pkg = Some(self.package.as_ref());
 
-            if &*self.package != JAVA_LANG && imported != pkg && file_package != pkg {
+            // Note: a name which isn't imported is looked up in the package of the
+            // file and java.lang.
+            let implicit = imported.is_none() && (pkg == Some(JAVA_LANG) || file_package == pkg);
+
+            if imported != pkg && !implicit {
                 out.write_str(self.package.as_ref())?;
                 out.write_str(SEP)?;
             }
@@ -188,16 +192,17 @@ impl Java {
             return;
         }
 
-        for (package, name) in modules {
-            if imported.contains_key(&*name) {
-                continue;
-            }
-
-            if &*package == JAVA_LANG {
-                continue;
+        // Reserve the names which are in scope without being imported.
+        for scope in file_package.into_iter().chain([JAVA_LANG]) {
+            for (package, name) in &modules {
+                if &**package == scope && !imported.contains_key(&**name) {
+                    imported.insert(name.to_string(), package.to_string());
+                }
             }
+        }
 
-            if Some(&*package) == file_package {
+        for (package, name) in modules {
+            if imported.contains_key(&*name) {
                 continue;
             }
 
-- 
2.43.0


From fe340bc4da84e3394d9e0d7c05bf500aeebeaf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 14/33] fix: qualify C# names which do not refer to the type
 being imported

Importing a namespace brings all of its names into scope, so a name used from two
imported namespaces is ambiguous, and names in the current and enclosing
namespaces take precedence over imported ones.
---
 src/lang/csharp/mod.rs | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/lang/csharp/mod.rs b/src/lang/csharp/mod.rs
index 5606b3a..4e423de 100644
--- a/src/lang/csharp/mod.rs
+++ b/src/lang/csharp/mod.rs
@@ -57,7 +57,7 @@ impl_lang! {
 
             let mut format = Format::default();
 
-            Self::imports(&mut file, tokens, config, &mut format.imported_names);
+            Self::imports(&mut file, tokens, config, &mut format);
 
             if let Some(namespace) = &config.namespace {
                 quote_in! { file =>
@@ -99,6 +99,10 @@ impl_lang! {
                     }
                 }
 
+                if format.ambiguous_names.contains(name) {
+                    return true;
+                }
+
                 if let Some(imported) = format.imported_names.get(name) {
                     // a conflicting name is in the namespace.
                     if imported != namespace {
@@ -123,6 +127,8 @@ pub struct Format {
     ///
     /// A missing name means that it has to be used in a qualified manner.
     imported_names: BTreeMap<String, String>,
+    /// Names which would refer to more than one type if they're not qualified.
+    ambiguous_names: BTreeSet<String>,
 }
 
 /// Config data for Csharp formatting.
@@ -169,12 +175,8 @@ impl Import {
 }
 
 impl Csharp {
-    fn imports(
-        out: &mut Tokens,
-        tokens: &Tokens,
-        config: &Config,
-        imported_names: &mut BTreeMap<String, String>,
-    ) {
+    fn imports(out: &mut Tokens, tokens: &Tokens, config: &Config, format: &mut Format) {
+        let imported_names = &mut format.imported_names;
         let mut modules = BTreeSet::new();
 
         for import in tokens.walk_imports() {
@@ -187,7 +189,21 @@ impl Csharp {
 
         let mut imported = BTreeSet::new();
 
-        for (namespace, name) in modules {
+        // Reserve the names in the current and the enclosing namespaces, which take
+        // precedence over imported ones.
+        let mut scope = config.namespace.as_deref();
+
+        while let Some(current) = scope {
+            for &(_, name) in modules.iter().filter(|m| m.0 == current) {
+                imported_names
+                    .entry(name.to_string())
+                    .or_insert_with(|| current.to_string());
+            }
+
+            scope = current.rsplit_once(SEP).map(|(parent, _)| parent);
+        }
+
+        for &(namespace, name) in &modules {
             if Some(namespace) == config.namespace.as_deref() {
                 continue;
             }
@@ -209,6 +225,15 @@ impl Csharp {
             imported_names.insert(name.to_string(), namespace.to_string());
         }
 
+        // Importing a namespace brings all of its names into scope.
+        for (namespace, name) in modules {
+            if imported.contains(namespace)
+                && imported_names.get(name).map(String::as_str) != Some(namespace)
+            {
+                format.ambiguous_names.insert(name.to_string());
+            }
+        }
+
         out.line();
     }
 }
-- 
2.43.0


From 60106b61d36d2c71a80af5224202426e1d76cf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:32 +0000
Subject: [PATCH 15/33] fix: do not qualify aliased Python names

Combining an alias with a qualified import wrote the alias as an attribute of the
module, which does not exist. Aliasing is documented to imply an unqualified
import.
---
 src/lang/python.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lang/python.rs b/src/lang/python.rs
index f6272ee..948f08f 100644
--- a/src/lang/python.rs
+++ b/src/lang/python.rs
@@ -63,9 +63,10 @@ impl_lang! {
                 out.write_str(SEP)?;
             }
 
-            let name = match &self.alias {
-                Some(alias) => alias,
-                None => &self.name,
+            let name = match (&self.module, &self.alias) {
+                // Note: an alias is not an attribute of the module.
+                (TypeModule::Unqualified { .. }, Some(alias)) => alias,
+                _ => &self.name,
             };
 
             out.write_str(name)?;
@@ -110,6 +111,14 @@ enum TypeModule {
 }
 
 impl TypeModule {
+    fn unqualified(self) -> Self {
+        match self {
+            Self::Qualified { module, .. } | Self::Unqualified { module } => {
+                Self::Unqualified { module }
+            }
+        }
+    }
+
     fn qualified(self) -> Self {
         match self {
             Self::Unqualified { module } => Self::Qualified {
@@ -175,6 +184,7 @@ impl Import {
         T: Into<ItemStr>,
     {
         Self {
+            module: self.module.unqualified(),
             alias: Some(alias.into()),
             ..self
         }
-- 
2.43.0


From 1d42fb0eb11e6774ca5e9ad72886651aa58430fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 16/33] fix: import every default import of a JavaScript module

Importing the default export of a module under more than one name only declared
one of them.
---
 src/lang/js.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index bb0725a..21352f0 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -423,6 +423,7 @@ impl JavaScript {
 
         let mut modules = BTreeMap::<&Module, ResolvedModule<'_>>::new();
         let mut wildcards = BTreeSet::new();
+        let default_name = ItemStr::Static("default");
 
         for import in tokens.walk_imports() {
             match import.kind {
@@ -436,7 +437,7 @@ impl JavaScript {
                 }
                 ImportKind::Default => {
                     let module = modules.entry(&import.module).or_default();
-                    module.default_import = Some(&import.name);
+                    module.default_imports.insert(&import.name);
                 }
                 ImportKind::Wildcard => {
                     wildcards.insert((&import.module, &import.name));
@@ -455,11 +456,22 @@ impl JavaScript {
             }
         }
 
-        for (name, module) in modules {
+        for (name, mut module) in modules {
+            // Note: there can only be one default import per declaration, any
+            // others have to be imported by name.
+            let mut defaults = core::mem::take(&mut module.default_imports).into_iter();
+            let default_import = defaults.next();
+
+            for name in defaults {
+                module
+                    .set
+                    .insert(ImportedElement::Aliased(&default_name, name));
+            }
+
             out.push();
             quote_in! { *out =>
                 import $(ref tokens => {
-                    if let Some(default) = module.default_import {
+                    if let Some(default) = default_import {
                         tokens.append(ItemStr::from(default));
 
                         if !module.set.is_empty() {
@@ -499,7 +511,7 @@ impl JavaScript {
 
         #[derive(Default)]
         struct ResolvedModule<'a> {
-            default_import: Option<&'a ItemStr>,
+            default_imports: BTreeSet<&'a ItemStr>,
             set: BTreeSet<ImportedElement<'a>>,
         }
 
-- 
2.43.0


From 90bbcf766a7ff4f096966ef10c3ed8a6394f8fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 17/33] fix: import dart:core if it's aliased

The prefix was used without being declared.
---
 src/lang/dart/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index 97c27f3..e2e203d 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -204,7 +204,13 @@ impl Dart {
 
         for import in input.walk_imports() {
             if &*import.path == DART_CORE {
-                continue;
+                // Note: the core library is only in scope without a prefix, and no
+                // longer imported implicitly once it's imported with one.
+                if import.alias.is_some() {
+                    modules.insert((import.path.clone(), None));
+                } else {
+                    continue;
+                }
             }
 
             modules.insert((import.path.clone(), import.alias.clone()));
-- 
2.43.0


From 2daad923b49e273e79511b3f6a2e018d5b2dc094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 18/33] fix: collect Nix imports at every depth of nested
 variables

Only the arguments and inherits used directly by the value of a variable were
collected, so variables and withs used by a variable were left undefined.
---
 src/lang/nix.rs | 50 ++++++++++++++++++++++++-------------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/lang/nix.rs b/src/lang/nix.rs
index 9987d17..a99ed77 100644
--- a/src/lang/nix.rs
+++ b/src/lang/nix.rs
@@ -4,6 +4,8 @@ use core::fmt::Write as _;
 
 use alloc::collections::BTreeSet;
 use alloc::string::ToString;
+use alloc::vec;
+use alloc::vec::Vec;
 
 use crate as genco;
 use crate::fmt;
@@ -137,10 +139,28 @@ impl Config {
 }
 
 impl Nix {
+    /// Walk all imports, including the ones used by the values of variables.
+    fn walk(tokens: &Tokens) -> Vec<&Import> {
+        let mut imports = Vec::new();
+        let mut queue = vec![tokens];
+
+        while let Some(tokens) = queue.pop() {
+            for import in tokens.walk_imports() {
+                if let Import::Variable(variable) = import {
+                    queue.push(&variable.value);
+                }
+
+                imports.push(import);
+            }
+        }
+
+        imports
+    }
+
     fn arguments(out: &mut Tokens, tokens: &Tokens) {
         let mut arguments = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
+        for imports in Self::walk(tokens) {
             match imports {
                 Import::Argument(argument) => {
                     arguments.insert(argument.0.to_string());
@@ -151,23 +171,7 @@ impl Nix {
                         arguments.insert(a.to_string());
                     }
                 }
-                Import::Variable(variable) => {
-                    let value = &variable.value;
-                    for import in value.walk_imports() {
-                        match import {
-                            Import::Inherit(inherit) => {
-                                let argument = inherit.path.split('.').next();
-                                if let Some(a) = argument {
-                                    arguments.insert(a.to_string());
-                                }
-                            }
-                            Import::Argument(argument) => {
-                                arguments.insert(argument.0.to_string());
-                            }
-                            _ => (),
-                        }
-                    }
-                }
+                Import::Variable(..) => (),
                 Import::With(with) => {
                     let argument = with.argument.split('.').next();
                     if let Some(a) = argument {
@@ -199,7 +203,7 @@ impl Nix {
     fn withs(out: &mut Tokens, tokens: &Tokens) {
         let mut withs = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
+        for imports in Self::walk(tokens) {
             if let Import::With(with) = imports {
                 withs.insert(&with.argument);
             }
@@ -221,18 +225,12 @@ impl Nix {
         let mut inherits = BTreeSet::new();
         let mut variables = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
+        for imports in Self::walk(tokens) {
             match imports {
                 Import::Inherit(inherit) => {
                     inherits.insert((&inherit.path, &inherit.name));
                 }
                 Import::Variable(variable) => {
-                    let value = &variable.value;
-                    for import in value.walk_imports() {
-                        if let Import::Inherit(inherit) = import {
-                            inherits.insert((&inherit.path, &inherit.name));
-                        }
-                    }
                     variables.insert((&variable.name, &variable.value));
                 }
                 _ => (),
-- 
2.43.0


From c205d0ad163d813b6a320be1daa2fcecc162505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 19/33] fix: compare strings by content

Equal strings compared as different if one of them was static, which duplicated
imports and ordered them by how they were stored.
---
 src/tokens/item_str.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/tokens/item_str.rs b/src/tokens/item_str.rs
index 928c84d..65d0d53 100644
--- a/src/tokens/item_str.rs
+++ b/src/tokens/item_str.rs
@@ -1,6 +1,8 @@
 //! Helper trait to take ownership of strings.
 
+use core::cmp::Ordering;
 use core::fmt;
+use core::hash::{Hash, Hasher};
 use core::ops::Deref;
 
 use alloc::borrow::{Cow, ToOwned};
@@ -12,7 +14,7 @@ use crate::lang::Lang;
 use crate::tokens::{FormatInto, Item, Tokens};
 
 /// A managed string that permits immutable borrowing.
-#[derive(Debug, Clone, Hash, PartialOrd, Ord, PartialEq, Eq)]
+#[derive(Debug, Clone)]
 pub enum ItemStr {
     /// A boxed string.
     Box(Box<str>),
@@ -20,6 +22,37 @@ pub enum ItemStr {
     Static(&'static str),
 }
 
+// Note: comparisons are by content, regardless of how the string is stored.
+
+impl PartialEq for ItemStr {
+    fn eq(&self, other: &Self) -> bool {
+        **self == **other
+    }
+}
+
+impl Eq for ItemStr {}
+
+impl PartialOrd for ItemStr {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for ItemStr {
+    fn cmp(&self, other: &Self) -> Ordering {
+        (**self).cmp(&**other)
+    }
+}
+
+impl Hash for ItemStr {
+    fn hash<H>(&self, state: &mut H)
+    where
+        H: Hasher,
+    {
+        (**self).hash(state);
+    }
+}
+
 /// Convert stringy things.
 impl<L> FormatInto<L> for ItemStr
 where
-- 
2.43.0


From d0d2708a8203a8e51a4a5eff5d92d60364fd81a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 20/33] fix: write C header names verbatim

Header names have no escape sequences, so a path with a backslash or a character
outside of ASCII named another file.
---
 src/lang/c.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lang/c.rs b/src/lang/c.rs
index 1ca80ae..694232e 100644
--- a/src/lang/c.rs
+++ b/src/lang/c.rs
@@ -7,7 +7,7 @@ use alloc::collections::BTreeSet;
 use crate as genco;
 use crate::fmt;
 use crate::quote_in;
-use crate::tokens::{quoted, ItemStr};
+use crate::tokens::ItemStr;
 
 /// Tokens container specialization for C.
 pub type Tokens = crate::Tokens<C>;
@@ -121,7 +121,8 @@ impl C {
             if system_header {
                 quote_in!(*out => #include <$(file)>);
             } else {
-                quote_in!(*out => #include $(quoted(file)));
+                // Note: a header name is not a string, so it has no escapes.
+                quote_in!(*out => #include $("\"")$(file)$("\""));
             }
             out.push();
         }
-- 
2.43.0


From 59c328e598444602fe14684373fee4ff948408c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 21/33] fix: reject evaluations which are closed inside of a
 quote

---
 src/fmt/formatter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 8a6afa7..085fa99 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -252,8 +252,9 @@ impl<'a> Formatter<'a> {
                         });
                     }
                 }
-                // Eval are only allowed within quotes.
-                Item::CloseEval if *end_on_eval => {
+                // Eval are only allowed within quotes, and quotes within it have to
+                // be closed.
+                Item::CloseEval if *end_on_eval && !*in_quote => {
                     L::end_string_eval(self, config, format)?;
                     stack.pop();
                 }
-- 
2.43.0


From 5926a63d889573ee57cc27cb5a70d185ed442af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 22/33] fix: escape byte order marks in nested quotes

---
 src/fmt/formatter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 085fa99..3cd4048 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -304,7 +304,9 @@ impl<'a> Formatter<'a> {
         L: Lang,
     {
         let verbatim = |c: char| {
-            !c.is_ascii() && !c.is_control() && !matches!(c, '\u{2028}' | '\u{2029}')
+            !c.is_ascii()
+                && !c.is_control()
+                && !matches!(c, '\u{2028}' | '\u{2029}' | '\u{feff}')
         };
 
         while !input.is_empty() {
-- 
2.43.0


From e1908e63ac96cf763ae6f3c1419b7bd0bbd89100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 23/33] fix: keep whitespace around interpolated expressions of
 strings

---
 genco-macros/src/string_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/genco-macros/src/string_parser.rs b/genco-macros/src/string_parser.rs
index 469cc29..01585a9 100644
--- a/genco-macros/src/string_parser.rs
+++ b/genco-macros/src/string_parser.rs
@@ -287,7 +287,9 @@ impl<'a> StringParser<'a> {
                     let content;
                     let end = syn::parenthesized!(content in input).span;
 
-                    let (req, stream) = crate::quote::Quote::new(self.cx).parse(&content)?;
+                    let (req, stream) = crate::quote::Quote::new(self.cx)
+                        .with_span(end.span())?
+                        .parse(&content)?;
                     requirements.merge_with(req);
                     let start = self.buf.cursor(start.span())?;
                     let end = self.buf.cursor(end.span())?;
-- 
2.43.0


From eda6cfcde5f186ce3d6116b332e59cf5092f80fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:20 +0000
Subject: [PATCH 24/33] fix: interpolate inside of groups in strings

---
 genco-macros/src/string_parser.rs | 40 +++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/genco-macros/src/string_parser.rs b/genco-macros/src/string_parser.rs
index 01585a9..16cbe60 100644
--- a/genco-macros/src/string_parser.rs
+++ b/genco-macros/src/string_parser.rs
@@ -234,7 +234,17 @@ impl<'a> StringParser<'a> {
     pub(crate) fn parse(self, input: ParseStream) -> Result<(Options, Requirements, TokenStream)> {
         let mut requirements = Requirements::default();
         let encoder = Encoder::new(self.cx, self.start, self.span);
+        self.parse_inner(&encoder, &mut requirements, input)?;
+        let (options, stream) = encoder.finalize(self.end)?;
+        Ok((options, requirements, stream))
+    }
 
+    fn parse_inner(
+        &self,
+        encoder: &Encoder<'_>,
+        requirements: &mut Requirements,
+        input: ParseStream,
+    ) -> Result<()> {
         while !input.is_empty() {
             if input.peek(syn::Token![$]) && input.peek2(syn::Token![$]) {
                 let start = input.parse::<syn::Token![$]>()?;
@@ -299,13 +309,39 @@ impl<'a> StringParser<'a> {
                 continue;
             }
 
+            // Recurse into groups, since they might contain interpolations.
+            if input.peek(token::Paren) || input.peek(token::Brace) || input.peek(token::Bracket) {
+                let content;
+
+                let (span, open, close) = if input.peek(token::Paren) {
+                    let group = syn::parenthesized!(content in input);
+                    (group.span, '(', ')')
+                } else if input.peek(token::Brace) {
+                    let group = syn::braced!(content in input);
+                    (group.span, '{', '}')
+                } else {
+                    let group = syn::bracketed!(content in input);
+                    (group.span, '[', ']')
+                };
+
+                let cursor = self.buf.cursor(span.span())?;
+
+                let first = cursor.first_character();
+                encoder.encode_char(open, first.start, first.end)?;
+
+                self.parse_inner(encoder, requirements, &content)?;
+
+                let last = cursor.last_character();
+                encoder.encode_char(close, last.start, last.end)?;
+                continue;
+            }
+
             let tt = input.parse::<TokenTree>()?;
             let cursor = self.buf.cursor(tt.span())?;
             encoder.extend_tt(&tt, cursor.start, Some(cursor.end))?;
         }
 
-        let (options, stream) = encoder.finalize(self.end)?;
-        Ok((options, requirements, stream))
+        Ok(())
     }
 }
 
-- 
2.43.0


From a6f7d724d2556aad363df41a97599f93a815cb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 25/33] fix: keep the line break between an unindentation and
 an indentation

---
 src/tokens/tokens.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/tokens/tokens.rs b/src/tokens/tokens.rs
index 3962e40..ef12ea4 100644
--- a/src/tokens/tokens.rs
+++ b/src/tokens/tokens.rs
@@ -643,13 +643,18 @@ where
 
     /// Internal function to modify the indentation of the token stream.
     fn indentation(&mut self, mut n: i16) {
+        let mut unindented = false;
+
         let item = loop {
             // flush all whitespace preceeding the indentation change.
             match self.items.pop() {
                 Some(Item::Push) => continue,
                 Some(Item::Space) => continue,
                 Some(Item::Line) => continue,
-                Some(Item::Indentation(u)) => n += u,
+                Some(Item::Indentation(u)) => {
+                    unindented = u < 0;
+                    n += u;
+                }
                 item => break item,
             }
         };
@@ -658,6 +663,10 @@ where
 
         if n != 0 {
             self.items.push(Item::Indentation(n));
+        } else if unindented {
+            // What follows is on the same level as the block which was ended,
+            // but must still be separated from it.
+            self.items.push(Item::Push);
         }
     }
 }
-- 
2.43.0


From 3ea4becec50bf97148c30dc516a9a82661c6e11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 26/33] fix: accept struct literals in let statements

---
 genco-macros/src/quote.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genco-macros/src/quote.rs b/genco-macros/src/quote.rs
index 835d7ae..4c398ea 100644
--- a/genco-macros/src/quote.rs
+++ b/genco-macros/src/quote.rs
@@ -251,7 +251,7 @@ impl<'a> Quote<'a> {
 
         let name = syn::Pat::parse_single(input)?;
         input.parse::<Token![=]>()?;
-        let expr = syn::Expr::parse_without_eager_brace(input)?;
+        let expr = input.parse::<syn::Expr>()?;
 
         let ast = Ast::Let { name, expr };
 
-- 
2.43.0


From 6e5f121b22ec3b028f8047fb02fc8146b8a42254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:03 +0000
Subject: [PATCH 27/33] fix: declare an import once when it is also aliased to
 its own name

---
 src/lang/js.rs   |  7 +++++--
 src/lang/rust.rs | 15 ++++++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 21352f0..b960437 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -431,8 +431,11 @@ impl JavaScript {
                     let module = modules.entry(&import.module).or_default();
 
                     module.set.insert(match &import.alias {
-                        None => ImportedElement::Plain(&import.name),
-                        Some(alias) => ImportedElement::Aliased(&import.name, alias),
+                        // Note: an alias which is the name itself is the same declaration.
+                        Some(alias) if *alias != import.name => {
+                            ImportedElement::Aliased(&import.name, alias)
+                        }
+                        _ => ImportedElement::Plain(&import.name),
                     });
                 }
                 ImportKind::Default => {
diff --git a/src/lang/rust.rs b/src/lang/rust.rs
index 439e1ea..c59a812 100644
--- a/src/lang/rust.rs
+++ b/src/lang/rust.rs
@@ -424,13 +424,16 @@ impl Rust {
         }
 
         while let Some(import) = queue.pop_front() {
+            // Note: an alias which is the name itself is the same declaration.
+            let alias = import.alias.as_ref().filter(|a| **a != import.name);
+
             match &import.module {
                 Module::Module {
                     module,
                     import: Some(ImportMode::Direct),
                 } => {
                     let module = modules.entry(module).or_default();
-                    module.names.insert((&import.name, import.alias.as_ref()));
+                    module.names.insert((&import.name, alias));
                 }
                 Module::Module {
                     module,
@@ -445,7 +448,7 @@ impl Rust {
                 } => match config.default_import {
                     ImportMode::Direct => {
                         let module = modules.entry(module).or_default();
-                        module.names.insert((&import.name, import.alias.as_ref()));
+                        module.names.insert((&import.name, alias));
                     }
                     ImportMode::Qualified => {
                         let module = modules.entry(module).or_default();
@@ -453,8 +456,14 @@ impl Rust {
                     }
                 },
                 Module::Aliased { module, alias } => {
+                    let last = module.rsplit(SEP).next();
                     let module = modules.entry(module).or_default();
-                    module.self_aliases.insert(alias);
+
+                    if last == Some(&**alias) {
+                        module.self_import = true;
+                    } else {
+                        module.self_aliases.insert(alias);
+                    }
                 }
             }
         }
-- 
2.43.0


From 3cc34dc0d757b30bfaf4b88b34464601ddbc54c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:09 +0000
Subject: [PATCH 28/33] fix: temporaries of the iterated expression live as
 long as a joined loop

---
 genco-macros/src/encoder.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 09eebf0..90fb4f6 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -244,18 +244,19 @@ impl<'a> Encoder<'a> {
         self.item_buffer.flush(&mut self.output);
 
         if let Some(join) = join {
+            // NB: temporaries of the expression have to outlive the loop.
             self.output.extend(q::quote! {
-                {
-                    let mut __it = IntoIterator::into_iter(#expr).peekable();
-
-                    while let Some(#pattern) = __it.next() {
-                        #stream
-
-                        if __it.peek().is_some() {
-                            #join
+                match IntoIterator::into_iter(#expr).peekable() {
+                    mut __it => {
+                        while let Some(#pattern) = __it.next() {
+                            #stream
+
+                            if __it.peek().is_some() {
+                                #join
+                            }
                         }
                     }
-                }
+                };
             });
         } else {
             self.output.extend(q::quote! {
-- 
2.43.0


From 03836f101382c1a0d5cf89a58cca2b1ae31f08eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:31 +0000
Subject: [PATCH 29/33] fix: a joined loop with a refutable pattern is an error
 instead of ending early

---
 genco-macros/src/encoder.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 90fb4f6..f686e86 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -244,11 +244,13 @@ impl<'a> Encoder<'a> {
         self.item_buffer.flush(&mut self.output);
 
         if let Some(join) = join {
-            // NB: temporaries of the expression have to outlive the loop.
+            // NB: temporaries of the expression have to outlive the loop, and a
+            // pattern which can't match every element must not end it.
             self.output.extend(q::quote! {
                 match IntoIterator::into_iter(#expr).peekable() {
                     mut __it => {
-                        while let Some(#pattern) = __it.next() {
+                        while let Some(__next) = __it.next() {
+                            let #pattern = __next;
                             #stream
 
                             if __it.peek().is_some() {
-- 
2.43.0


From 68202d6d1af2f388802617e7895fdf82d6182fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:59 +0000
Subject: [PATCH 30/33] fix: reject tokens whose whitespace cannot be
 determined instead of panicking

---
 genco-macros/src/encoder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index f686e86..6c7814a 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -405,7 +405,14 @@ impl<'a> Encoder<'a> {
         // line.
         self.item_buffer.flush(&mut self.output);
 
-        debug_assert!(from.line < to.line);
+        // Going back to an earlier line, so the tokens do not stem from the same
+        // template and there is no whitespace between them to look at.
+        if from.line > to.line {
+            return Err(syn::Error::new(
+                to_span.unwrap_or_else(Span::call_site),
+                "unable to determine the whitespace in front of this token, does it stem from another macro?",
+            ));
+        }
 
         let line = to.line - from.line > 1;
 
-- 
2.43.0


From 8ed5dba542ac0ff282ed31ab53f5d3908bf21897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:07 +0000
Subject: [PATCH 31/33] fix: keep joined loops independent of what is in scope

---
 genco-macros/src/encoder.rs | 11 +++++++----
 src/tokens/mod.rs           |  6 ++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 6c7814a..93c0feb 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -241,19 +241,22 @@ impl<'a> Encoder<'a> {
         join: Option<TokenStream>,
         stream: TokenStream,
     ) {
+        let Ctxt { module, .. } = self.cx;
+
         self.item_buffer.flush(&mut self.output);
 
         if let Some(join) = join {
             // NB: temporaries of the expression have to outlive the loop, and a
-            // pattern which can't match every element must not end it.
+            // pattern which can't match every element must not end it. Whatever
+            // is in scope here must not matter, like it doesn't to a `for` loop.
             self.output.extend(q::quote! {
-                match IntoIterator::into_iter(#expr).peekable() {
+                match #module::tokens::__Iterator::peekable(#module::tokens::__IntoIterator::into_iter(#expr)) {
                     mut __it => {
-                        while let Some(__next) = __it.next() {
+                        while let #module::tokens::__Option::Some(__next) = #module::tokens::__Iterator::next(&mut __it) {
                             let #pattern = __next;
                             #stream
 
-                            if __it.peek().is_some() {
+                            if let #module::tokens::__Option::Some(_) = (&mut __it).peek() {
                                 #join
                             }
                         }
diff --git a/src/tokens/mod.rs b/src/tokens/mod.rs
index 644a68a..03fac15 100644
--- a/src/tokens/mod.rs
+++ b/src/tokens/mod.rs
@@ -81,3 +81,9 @@ pub use self::tokens::Tokens;
 pub use self::internal::__lang_item;
 #[doc(hidden)]
 pub use self::internal::__lang_item_register;
+
+// What macros refer to, no matter what is in scope where they are used.
+#[doc(hidden)]
+pub use core::iter::{IntoIterator as __IntoIterator, Iterator as __Iterator};
+#[doc(hidden)]
+pub use core::option::Option as __Option;
-- 
2.43.0


From 927b954d95a4f510debae8c8015d796937fe87f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:32 +0000
Subject: [PATCH 32/33] fix: point errors about unknown functions and controls
 at their names

---
 genco-macros/src/ast.rs   | 18 ++++++++----------
 genco-macros/src/quote.rs |  4 ++--
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/genco-macros/src/ast.rs b/genco-macros/src/ast.rs
index 64cb6dc..daf3390 100644
--- a/genco-macros/src/ast.rs
+++ b/genco-macros/src/ast.rs
@@ -64,9 +64,9 @@ pub(crate) enum Name {
     /// The name is the `const` token.
     Const(Token![const]),
     /// Custom name.
-    Ident(String),
+    Ident(String, Span),
     /// Character name.
-    Char(char),
+    Char(char, Span),
 }
 
 impl Name {
@@ -74,18 +74,16 @@ impl Name {
     pub(crate) fn as_literal_name(&self) -> LiteralName<'_> {
         match self {
             Name::Const(..) => LiteralName::Ident("const"),
-            Name::Ident(name) => LiteralName::Ident(name.as_str()),
-            Name::Char(c) => LiteralName::Char(*c),
+            Name::Ident(name, ..) => LiteralName::Ident(name.as_str()),
+            Name::Char(c, ..) => LiteralName::Char(*c),
         }
     }
-}
 
-impl q::ToTokens for Name {
-    fn to_tokens(&self, tokens: &mut TokenStream) {
+    /// Get the span of the name.
+    pub(crate) fn span(&self) -> Span {
         match self {
-            Name::Const(t) => t.to_tokens(tokens),
-            Name::Ident(name) => name.to_tokens(tokens),
-            Name::Char(c) => c.to_tokens(tokens),
+            Name::Const(t) => t.span,
+            Name::Ident(_, span) | Name::Char(_, span) => *span,
         }
     }
 }
diff --git a/genco-macros/src/quote.rs b/genco-macros/src/quote.rs
index 4c398ea..4786e68 100644
--- a/genco-macros/src/quote.rs
+++ b/genco-macros/src/quote.rs
@@ -516,10 +516,10 @@ pub(crate) fn parse_internal_function<'a>(
         Name::Const(function.parse()?)
     } else if function.peek(syn::LitChar) {
         let c = function.parse::<syn::LitChar>()?;
-        Name::Char(c.value())
+        Name::Char(c.value(), c.span())
     } else {
         let ident = function.parse::<syn::Ident>()?;
-        Name::Ident(ident.to_string())
+        Name::Ident(ident.to_string(), ident.span())
     };
 
     if !function.is_empty() {
-- 
2.43.0


From 1669870cc42e9d95347b4ccd83f940d125098633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:41 +0000
Subject: [PATCH 33/33] fix: point errors about unsupported evaluations at the
 string

---
 genco-macros/src/encoder.rs      |  7 ++++++-
 genco-macros/src/requirements.rs | 20 ++++++++++++--------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 93c0feb..8b73ab8 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -65,7 +65,12 @@ impl<'a> Encoder<'a> {
                 self.encode_literal(&tt.to_string());
             }
             Ast::String { has_eval, stream } => {
-                self.requirements.lang_supports_eval |= has_eval;
+                if has_eval {
+                    self.requirements
+                        .lang_supports_eval
+                        .get_or_insert(cursor.span);
+                }
+
                 self.encode_string(has_eval, stream);
             }
             Ast::Quoted { s } => {
diff --git a/genco-macros/src/requirements.rs b/genco-macros/src/requirements.rs
index b6ff84c..5935618 100644
--- a/genco-macros/src/requirements.rs
+++ b/genco-macros/src/requirements.rs
@@ -1,23 +1,27 @@
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
+
 /// Language requirements for token stream.
 #[derive(Debug, Default, Clone, Copy)]
 pub(crate) struct Requirements {
-    pub(crate) lang_supports_eval: bool,
+    /// The first string which requires the language to support evaluations.
+    pub(crate) lang_supports_eval: Option<Span>,
 }
 
 impl Requirements {
     /// Merge this requirements with another.
     pub fn merge_with(&mut self, other: Self) {
-        self.lang_supports_eval |= other.lang_supports_eval;
+        self.lang_supports_eval = self.lang_supports_eval.or(other.lang_supports_eval);
     }
 
     /// Generate checks for requirements.
     pub fn into_check(self, receiver: &syn::Ident) -> TokenStream {
-        let lang_supports_eval = if self.lang_supports_eval {
-            Some(q::quote!(#receiver.lang_supports_eval();))
-        } else {
-            None
-        };
+        let lang_supports_eval = self.lang_supports_eval.map(|span| {
+            // NB: make errors point at the string, with names resolved as usual.
+            let span = receiver.span().located_at(span);
+            let mut receiver = receiver.clone();
+            receiver.set_span(span);
+            q::quote_spanned!(span => #receiver.lang_supports_eval();)
+        });
 
         q::quote! {
             #lang_supports_eval
-- 
2.43.0

