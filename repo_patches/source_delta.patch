From 993d4c2696400398d630c1f4edcaaf6bf41d77f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 01/30] fix: isolate the loop of a Kleene closure when it is
 combined with other NFAs

The initial state of the inner NFA was reused as the final state of the
closure, so edges added to it by alternations and concatenations leaked
into the loop: 'a*|b' matched "ab", and 'a*b' and 'c' added to one
builder matched "ac".
---
 laps_regex/src/nfa.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/laps_regex/src/nfa.rs b/laps_regex/src/nfa.rs
index 05d3f8e..0b435db 100644
--- a/laps_regex/src/nfa.rs
+++ b/laps_regex/src/nfa.rs
@@ -51,12 +51,20 @@ where
         // create NFA and normalize
         let mut nfa = Self::new(*k);
         let id = nfa.normalize();
-        // create a edge to the initial state
-        let init = nfa.fa.init_id();
-        nfa.fa.state_mut(id).unwrap().add(None, init);
-        // set the initial state as a final state
-        nfa.fa.set_final_state(init);
-        nfa
+        // create a new NFA, its initial state has no incoming edges and
+        // its final state has no outgoing edges, so it can be combined with
+        // other NFAs without being affected by the loop
+        let mut fa = MultiFA::new();
+        let fs = fa.add_final_state();
+        let entry = fa.add_state();
+        fa.init_mut().add(None, entry);
+        let state = fa.state_mut(entry).unwrap();
+        state.add(None, fs);
+        state.add(None, nfa.fa.init_id());
+        // create a loop edge
+        nfa.fa.state_mut(id).unwrap().add(None, entry);
+        fa.union(nfa.fa);
+        Self { fa, tags: nfa.tags }
       }
     }
   }
-- 
2.43.0


From c27a4923764419688f11b0eedea553a3e74277f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:04 +0000
Subject: [PATCH 02/30] fix: do not panic when all regular expressions only
 match the empty string

The number of states was taken from the first row of the table, which does
not exist when there are no symbols.
---
 laps_regex/src/table.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/laps_regex/src/table.rs b/laps_regex/src/table.rs
index 2343ded..2618924 100644
--- a/laps_regex/src/table.rs
+++ b/laps_regex/src/table.rs
@@ -34,9 +34,10 @@ impl<S, T> StateTransTable<S, T> {
   where
     S: Clone + Hash + Eq + Ord + SymbolOp,
   {
-    let (equivs, trans_table, init_id, tags) = TempTable::new(dfa).into_optimized();
     // get number of states
-    let num_states = trans_table[0].len();
+    let temp_table = TempTable::new(dfa);
+    let num_states = temp_table.num_states;
+    let (equivs, trans_table, init_id, tags) = temp_table.into_optimized();
     // get the final table
     let table = trans_table
       .into_iter()
@@ -137,6 +138,7 @@ where
 /// [`StateTransTable`].
 struct TempTable<S, T> {
   table: HashMap<Vec<(S, S)>, Vec<usize>>,
+  num_states: usize,
   tags: HashMap<usize, T>,
   init_id: usize,
 }
@@ -174,6 +176,7 @@ impl<S, T> TempTable<S, T> {
     let tags = tags.into_iter().map(|(id, tag)| (ids[&id], tag)).collect();
     Self {
       table,
+      num_states,
       tags,
       init_id: ids[&fa.init_id()],
     }
-- 
2.43.0


From 55063d724372098148b0b053532dc8f9809f0598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 03/30] fix: keep the first tag of a regular expression that is
 added more than once

The last tag replaced the earlier ones, although smaller tags have higher
precedence.
---
 laps_regex/src/mir.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index f1f054b..68c4b0b 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -351,11 +351,13 @@ where
     if a.is_empty() {
       return Err(Error::MatchesNothing);
     }
-    // collect expressions that have a tag
-    let tagged_exps: HashMap<_, _> = a
-      .iter()
-      .filter_map(|(e, t)| t.clone().map(|t| (e.clone(), t)))
-      .collect();
+    // collect expressions that have a tag, keep the first tag of each expression
+    let mut tagged_exps = HashMap::new();
+    for (e, t) in &a {
+      if let Some(t) = t {
+        tagged_exps.entry(e.clone()).or_insert_with(|| t.clone());
+      }
+    }
     // optimize all sub-expressions, flatten nested alternations
     // and remove duplicate expressions
     let mut new_a = Vec::new();
-- 
2.43.0


From b613b4f100e9ba633dd165e8e18109f72c556869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 04/30] fix: give smaller tags higher precedence regardless of
 insertion order

When two expressions shared a (sub)expression, the one that was added first
won even if its tag was larger.
---
 laps_regex/src/re.rs | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/laps_regex/src/re.rs b/laps_regex/src/re.rs
index 5d33ab0..0768f68 100644
--- a/laps_regex/src/re.rs
+++ b/laps_regex/src/re.rs
@@ -80,26 +80,28 @@ where
     if self.re_tags.is_empty() {
       Err(Error::EmptyBuilder)
     } else {
-      Mir::Alter(
-        self
-          .re_tags
-          .into_iter()
-          .map(|(re, tag)| {
-            re_parse(&re)
-              .map_err(|e| Error::Regex(Box::new(e), tag.clone()))
-              .and_then(|hir| Mir::new(hir).map_err(Error::Mir))
-              .map(|mir| (mir, Some(tag)))
-          })
-          .collect::<Result<_, _>>()?,
-      )
-      .optimize()
-      .map(|mir| {
-        RegexMatcher::new(StateTransTable::new(DFA::new(
-          NFA::new(mir),
-          self.enable_par,
-        )))
-      })
-      .map_err(Error::Mir)
+      // parse all regular expressions
+      let mut mirs = self
+        .re_tags
+        .into_iter()
+        .map(|(re, tag)| {
+          re_parse(&re)
+            .map_err(|e| Error::Regex(Box::new(e), tag.clone()))
+            .and_then(|hir| Mir::new(hir).map_err(Error::Mir))
+            .map(|mir| (mir, Some(tag)))
+        })
+        .collect::<Result<Vec<_>, _>>()?;
+      // smaller tags have higher precedence
+      mirs.sort_by(|(_, t1), (_, t2)| t1.cmp(t2));
+      Mir::Alter(mirs)
+        .optimize()
+        .map(|mir| {
+          RegexMatcher::new(StateTransTable::new(DFA::new(
+            NFA::new(mir),
+            self.enable_par,
+          )))
+        })
+        .map_err(Error::Mir)
     }
   }
 }
-- 
2.43.0


From 45bc33a633c2ea100cdffec5a972f6d0fdcf5e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 05/30] fix: report no successor for the last Unicode scalar
 value

---
 laps_regex/src/mir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index 68c4b0b..9d652a1 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -565,7 +565,7 @@ impl SymbolOp for char {
   fn next(&self) -> Option<Self> {
     match self {
       '\u{d7ff}' => Some('\u{e000}'),
-      '\u{10fff}' => None,
+      '\u{10ffff}' => None,
       _ => Some(unsafe { char::from_u32_unchecked(*self as u32 + 1) }),
     }
   }
-- 
2.43.0


From 3605487ce5a7edfa6345435f3ccac89c9cd24388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:50 +0000
Subject: [PATCH 06/30] fix: do not overflow on the first and last byte symbol

---
 laps_regex/src/mir.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index 9d652a1..cb60129 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -573,10 +573,10 @@ impl SymbolOp for char {
 
 impl SymbolOp for u8 {
   fn prev(&self) -> Option<Self> {
-    (*self != u8::MIN).then_some(self - 1)
+    self.checked_sub(1)
   }
 
   fn next(&self) -> Option<Self> {
-    (*self != u8::MAX).then_some(self + 1)
+    self.checked_add(1)
   }
 }
-- 
2.43.0


From d6316ac57db5f7a8d7129e4879e765bdf3661840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 07/30] fix: accept ASCII character classes in byte mode

---
 laps_regex/src/mir.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/laps_regex/src/mir.rs b/laps_regex/src/mir.rs
index cb60129..7cd56d2 100644
--- a/laps_regex/src/mir.rs
+++ b/laps_regex/src/mir.rs
@@ -504,7 +504,11 @@ impl<T> MirBuilder for Mir<u8, T> {
       Class::Bytes(b) => Ok(Self::Ranges(
         b.ranges().iter().map(|r| (r.start(), r.end())).collect(),
       )),
-      Class::Unicode(_) => Err(Error::UnsupportedOp("Unicode in byte mode")),
+      // a class of ASCII characters is also a class of bytes
+      Class::Unicode(u) => match u.to_byte_class() {
+        Some(b) => Self::new_from_class(Class::Bytes(b)),
+        None => Err(Error::UnsupportedOp("Unicode in byte mode")),
+      },
     }
   }
 }
-- 
2.43.0


From ad4dd7e93c47230ff0a12a3141849c1b25ed5af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:37 +0000
Subject: [PATCH 08/30] fix: keep reading when a UTF-8 character is split by a
 short read

---
 src/reader.rs | 49 +++++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8bebb25..83ac183 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -60,24 +60,29 @@ impl<T, const BUFFER_SIZE: usize> Reader<T, BUFFER_SIZE> {
   {
     // get the current location
     let loc = self.span.start();
-    // read bytes to buffer
-    let count = self
-      .reader
-      .read(&mut self.byte_buf[self.byte_buf_offset..])
-      .map_err(|e| log_raw_fatal_error!(self.span, "{e}"))?
-      + self.byte_buf_offset;
-    // handle EOF
-    if count == 0 {
-      return Ok((None, loc));
-    }
-    // converts bytes to UTF-8 string
-    let (s, end) = match from_utf8(&self.byte_buf[..count]) {
-      Ok(s) => (s, None),
-      Err(e) => {
-        let end = e.valid_up_to();
-        // safe due to the above check
-        let s = unsafe { from_utf8_unchecked(&self.byte_buf[..end]) };
-        (s, Some(end))
+    let (s, end) = loop {
+      // read bytes to buffer
+      let len = self
+        .reader
+        .read(&mut self.byte_buf[self.byte_buf_offset..])
+        .map_err(|e| log_raw_fatal_error!(self.span, "{e}"))?;
+      self.byte_buf_offset += len;
+      let count = self.byte_buf_offset;
+      // handle EOF
+      if count == 0 {
+        return Ok((None, loc));
+      }
+      // converts bytes to UTF-8 string
+      match from_utf8(&self.byte_buf[..count]) {
+        Ok(s) => break (s, count),
+        // the first character is incomplete, read more bytes
+        Err(e) if e.valid_up_to() == 0 && e.error_len().is_none() && len != 0 => continue,
+        Err(e) => {
+          let end = e.valid_up_to();
+          // safe due to the above check
+          let s = unsafe { from_utf8_unchecked(&self.byte_buf[..end]) };
+          break (s, end);
+        }
       }
     };
     // get the character and fill the char buffer
@@ -89,12 +94,8 @@ impl<T, const BUFFER_SIZE: usize> Reader<T, BUFFER_SIZE> {
       return log_raw_fatal_error!(self.span, "invalid UTF-8 character").into();
     };
     // update byte buffer and its offset
-    if let Some(end) = end {
-      self.byte_buf.copy_within(end..count, 0);
-      self.byte_buf_offset = count - end;
-    } else {
-      self.byte_buf_offset = 0;
-    }
+    self.byte_buf.copy_within(end..self.byte_buf_offset, 0);
+    self.byte_buf_offset -= end;
     // update the span
     self.span.update(&c);
     Ok((Some(c), loc))
-- 
2.43.0


From 1dde319b9732833a15cf031889bd02b98d676592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:38 +0000
Subject: [PATCH 09/30] fix: ask the predicate about each character only once
 when collecting with span

---
 src/input.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/input.rs b/src/input.rs
index 4a6521b..1aeb4f0 100644
--- a/src/input.rs
+++ b/src/input.rs
@@ -135,7 +135,11 @@ pub trait InputStream {
   {
     let mut v = Vec::new();
     let mut span = match self.peek_with_span()? {
-      (Some(c), span) if !f(&c) => span,
+      (Some(c), span) if !f(&c) => {
+        v.push(c);
+        self.next_char()?;
+        span
+      }
       (_, span) => return Ok((v, span)),
     };
     while let Some(c) = self.peek()? {
-- 
2.43.0


From e781955ecb5962cb2a347ec5ecbc01a2ffc7df8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:07 +0000
Subject: [PATCH 10/30] fix: parse the minimum of signed integer types

---
 src/lexer.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 231179d..740ef03 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -98,6 +98,15 @@ where
 pub fn int_literal<T>(s: &str) -> Option<T>
 where
   T: IntLiteral,
+{
+  int_literal_with(s, T::from_str_radix)
+}
+
+/// Parses integer literals from the given string, converts the digits
+/// and the radix of the literal to an integer with the given function.
+fn int_literal_with<T, F>(s: &str, convert: F) -> Option<T>
+where
+  F: FnOnce(&str, u32) -> Result<T, ParseIntError>,
 {
   // check if is a valid integer literal
   let mut chars = s.chars();
@@ -119,7 +128,7 @@ where
     return None;
   }
   // convert to integer
-  T::from_str_radix(&s[starts_from..], radix).ok()
+  convert(&s[starts_from..], radix).ok()
 }
 
 /// Parses integer literals with an optional sign from the given string.
@@ -148,8 +157,15 @@ where
   T: IntLiteral,
 {
   let first = s.chars().next()?;
-  if first == '+' || first == '-' {
-    int_literal(&s[1..]).map(|n: T| if first == '-' { n.wrapping_neg() } else { n })
+  if first == '-' {
+    int_literal_with(&s[1..], |digits, radix| {
+      T::from_str_radix(digits, radix)
+        .map(|n| n.wrapping_neg())
+        // the minimum of a signed type has no positive counterpart
+        .or_else(|_| T::from_str_radix(&format!("-{digits}"), radix))
+    })
+  } else if first == '+' {
+    int_literal(&s[1..])
   } else {
     int_literal(s)
   }
-- 
2.43.0


From dd8730d7d369e8811846e96dd6a78ce85af0ef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:08 +0000
Subject: [PATCH 11/30] fix: reject Unicode escapes without digits

---
 src/lexer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 740ef03..2babc0e 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -339,8 +339,11 @@ where
         if iter.next() != Some('{') {
           return ParseResult::Error;
         }
-        // get hex value
-        let mut hex = 0u32;
+        // get hex value, at least one digit is required
+        let mut hex = match iter.next().and_then(|c| c.to_digit(16)) {
+          Some(h) => h,
+          None => return ParseResult::Error,
+        };
         for c in iter {
           match c.to_digit(16) {
             Some(h) => match hex.checked_mul(16) {
-- 
2.43.0


From 9db589bb5e504d9e6d7a6b918385ccb4ad076757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:09 +0000
Subject: [PATCH 12/30] fix: put tokens back if the default implementation of
 peeking fails

---
 src/token.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/token.rs b/src/token.rs
index afc387a..9214d63 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -157,7 +157,13 @@ pub trait TokenStream: Tokenizer {
     Self::Token: Clone,
   {
     let token1 = self.next_token()?;
-    let token2 = self.next_token()?;
+    let token2 = match self.next_token() {
+      Ok(token) => token,
+      Err(e) => {
+        self.unread(token1);
+        return Err(e);
+      }
+    };
     self.unread(token2.clone());
     self.unread(token1.clone());
     Ok((token1, token2))
@@ -170,11 +176,13 @@ pub trait TokenStream: Tokenizer {
   where
     Self::Token: Clone,
   {
-    let v = (0..n)
-      .map(|_| self.next_token())
-      .collect::<Result<Vec<_>>>()?;
+    let mut v = Vec::new();
+    let result = (0..n).try_for_each(|_| {
+      v.push(self.next_token()?);
+      Ok(())
+    });
     v.iter().rev().for_each(|t| self.unread(t.clone()));
-    Ok(v)
+    result.map(|_| v)
   }
 
   /// Skips tokens untils a token specified by the predicate is encountered.
-- 
2.43.0


From 6a4f63299f123445ac33167e3f8c0be79b2faeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 13/30] fix: put the prefix token back if checking the rest of
 a prefixed AST fails

---
 src/ast.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.rs b/src/ast.rs
index fb85587..3e4ae14 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -510,9 +510,9 @@ where
   fn maybe(tokens: &mut TS) -> Result<bool> {
     if P::maybe(tokens)? {
       let token = tokens.next_token()?;
-      let result = T::maybe(tokens)?;
+      let result = T::maybe(tokens);
       tokens.unread(token);
-      Ok(result)
+      result
     } else {
       T::maybe(tokens)
     }
@@ -556,9 +556,9 @@ where
   fn maybe(tokens: &mut TS) -> Result<bool> {
     if P::maybe(tokens)? {
       let token = tokens.next_token()?;
-      let result = T::maybe(tokens)?;
+      let result = T::maybe(tokens);
       tokens.unread(token);
-      Ok(result)
+      result
     } else {
       Ok(false)
     }
-- 
2.43.0


From 48314abe083c5c075fa419da3cac5990c44894c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:35 +0000
Subject: [PATCH 14/30] fix: build without the feature logger

---
 src/span.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 9c73796..e067fe5 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -173,7 +173,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_error(&self, args: Arguments) -> Error {
     // update error number
-    self.status.errors.set(self.status.errors.get() + 1);
+    self.status.errors.fetch_add(1, Ordering::Relaxed);
     Error::Normal(format!("{args}"))
   }
 
@@ -191,7 +191,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_fatal_error(&self, args: Arguments) -> Error {
     // update error number
-    self.status.errors.set(self.status.errors.get() + 1);
+    self.status.errors.fetch_add(1, Ordering::Relaxed);
     Error::Fatal(format!("{args}"))
   }
 
@@ -209,7 +209,7 @@ impl Span {
   #[cfg(not(feature = "logger"))]
   pub fn log_raw_warning(&self, _: Arguments) {
     // update warning number
-    self.status.warnings.set(self.status.warnings.get() + 1);
+    self.status.warnings.fetch_add(1, Ordering::Relaxed);
   }
 
   /// Logs warning with no span provided.
-- 
2.43.0


From ed8eefd66b4ef802c92e9f33bf65b352a644b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:35 +0000
Subject: [PATCH 15/30] fix: do not panic when reporting spans with unusual
 line numbers

---
 src/span.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index e067fe5..7c349ce 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -428,15 +428,17 @@ impl Span {
   fn print_file_info(&self, color: Color) {
     let file_type = &self.status.file_type;
     eprintln!("  {} {file_type}:{}", "at".blue(), self.start);
-    if self.start.col > 0 && self.end.col > 0 {
+    if self.start.line > 0 && self.start.col > 0 && self.end.col > 0 {
       if let FileType::File(path) = file_type {
         // open file and get lines, ignore all errors
         let _ = File::open(path).map_err(|_| fmt::Error).and_then(|file| {
           let mut lines = BufReader::new(file).lines();
           if self.start.line == self.end.line {
             self.print_single_line_info(&mut lines, color)
-          } else {
+          } else if self.start.line < self.end.line {
             self.print_multi_line_info(&mut lines, color)
+          } else {
+            Ok(())
           }
         });
       }
@@ -477,7 +479,7 @@ impl Span {
   {
     let mut buf = String::new();
     // get some parameters
-    let width = ((self.end.line + 1) as f32).log10().ceil() as usize;
+    let width = ((self.end.line as usize + 1) as f32).log10().ceil() as usize;
     let width = std::cmp::max(width, 2);
     // write the first line to buffer
     let line_num = self.start.line as usize;
-- 
2.43.0


From 0a4215c0a5fd2ef99fc86a344c7fac1d6d6483fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:42 +0000
Subject: [PATCH 16/30] fix: mark exactly the columns of wide and zero-width
 characters

---
 src/span.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 7c349ce..3af8947 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -456,10 +456,10 @@ impl Span {
   {
     // get some parameters
     let line_num = self.start.line as usize;
-    let (line, c1, c2) = get_line_str!(lines.nth(line_num - 1), self.start.col, self.end.col);
+    let (line, c1, c2) = get_line_str!(lines.nth(line_num - 1), self.start.col - 1, self.end.col);
     let width = ((line_num + 1) as f32).log10().ceil() as usize;
-    let leading = c1 - 1;
-    let len = c2 - c1 + 1;
+    let leading = c1;
+    let len = std::cmp::max(c2 - c1, 1);
     // print the current line to stderr
     eprintln!("{:width$} {}", "", "|".blue());
     eprint!("{} ", format!("{:width$}", line_num).blue());
@@ -484,7 +484,8 @@ impl Span {
     // write the first line to buffer
     let line_num = self.start.line as usize;
     let mut lines = lines.skip(line_num - 1);
-    let (line, start) = get_line_str!(lines.next(), self.start.col);
+    let (line, leading): (_, usize) = get_line_str!(lines.next(), self.start.col - 1);
+    let start = leading + 1;
     writeln!(buf, "{:width$} {}", "", "|".blue())?;
     write!(buf, "{} ", format!("{:width$}", line_num).blue())?;
     writeln!(buf, "{}   {line}", "|".blue())?;
-- 
2.43.0


From 6f187a4bd466b190e6698303ebc9c83f382545bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:02 +0000
Subject: [PATCH 17/30] fix: reserve a value for the dead state in the tables
 of derived lexers

---
 laps_macros/src/tokenize.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 664ae23..ebd78a2 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -410,7 +410,8 @@ impl RegexImpls {
     if self.num_states <= 1 {
       quote!(u8)
     } else {
-      let table_size_bits = (self.num_states - 1).ilog2() + 1;
+      // `num_states` itself is also stored in the table
+      let table_size_bits = self.num_states.ilog2() + 1;
       if table_size_bits <= 8 {
         quote!(u8)
       } else if table_size_bits <= 16 {
-- 
2.43.0


From f8de8d1bbc58e93475801a4a1ba1c95bf9b27b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:16 +0000
Subject: [PATCH 18/30] fix: never produce tokens from empty matches in derived
 lexers

---
 laps_macros/src/tokenize.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index ebd78a2..30fe1c1 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -385,7 +385,13 @@ impl RegexImpls {
 
       loop {
         let LexerResult { last_state, buf, span, is_eof } = next_token_impl(input)?;
-        match is_final(last_state, &buf, &span)? {
+        // an empty match is never a token
+        let result = if buf.is_empty() {
+          TokenResult::Unknown
+        } else {
+          is_final(last_state, &buf, &span)?
+        };
+        match result {
           TokenResult::Token(t) => return Ok(t),
           TokenResult::Skip => continue,
           TokenResult::Unknown if is_eof && buf.is_empty() => #eof_token,
-- 
2.43.0


From 9392f7ea0d0db8a99b2a3ff0c2a50af3c3b9d2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:30 +0000
Subject: [PATCH 19/30] fix: derive lexers that have no symbols

---
 laps_macros/src/tokenize.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 30fe1c1..3794440 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -454,8 +454,11 @@ impl RegexImpls {
       }
     };
     // generate boundary check
-    let l = bound(&self.sym_map.first().unwrap().0);
-    let r = bound(&self.sym_map.last().unwrap().1);
+    let (l, r) = match (self.sym_map.first(), self.sym_map.last()) {
+      (Some((l, _, _)), Some((_, r, _))) => (bound(l), bound(r)),
+      // no symbols can be accepted
+      _ => return quote!(let _ = c; None),
+    };
     // generate equivalent IDs
     let equivs = self.sym_map.iter().map(|(l, r, id)| {
       let l = bound(l);
-- 
2.43.0


From 07f1f0169058a680e17bfec01d6051f40897bb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:43 +0000
Subject: [PATCH 20/30] fix: accept other attributes after the attributes of
 derived lexers

---
 laps_macros/src/tokenize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 3794440..89828e1 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -135,6 +135,10 @@ impl VariantInfo {
     // collect variant attributes
     let mut attr = None;
     for a in &v.attrs {
+      let path = a.path();
+      if !path.is_ident("regex") && !path.is_ident("skip") && !path.is_ident("eof") {
+        continue;
+      }
       if attr.is_none() {
         match &a.meta {
           Meta::List(l) if l.path.is_ident("regex") => {
-- 
2.43.0


From 7cd67d9ea0c74d8c4a5c229e11cc16806173db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 21/30] fix: escape braces in prompts of tokens

---
 laps_macros/src/token_ast.rs  | 3 ++-
 laps_macros/src/token_kind.rs | 3 ++-
 laps_macros/src/tokenize.rs   | 6 ++++--
 laps_macros/src/utils.rs      | 6 ++++++
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/laps_macros/src/token_ast.rs b/laps_macros/src/token_ast.rs
index a4a55b8..b01d704 100644
--- a/laps_macros/src/token_ast.rs
+++ b/laps_macros/src/token_ast.rs
@@ -1,4 +1,4 @@
-use crate::utils::{ident, return_error};
+use crate::utils::{escape_braces, ident, return_error};
 use proc_macro::TokenStream;
 use proc_macro2::{Ident, TokenStream as TokenStream2};
 use quote::quote;
@@ -168,6 +168,7 @@ fn gen_ast_defs(input: &TokenAst) -> Result<(TokenStream2, Vec<TokenStream2>)> {
     .clone()
     .zip(&input.arms)
     .map(|(name, TokenAstArm { pat, guard, prompt, .. })| {
+      let prompt = prompt.as_ref().map(|p| escape_braces(&p.value()));
       let if_guard = guard.as_ref().map(|e| quote!(if #e));
       let parse_body = match prompt {
         Some(prompt) => quote! {
diff --git a/laps_macros/src/token_kind.rs b/laps_macros/src/token_kind.rs
index fd7fd0d..c6c9450 100644
--- a/laps_macros/src/token_kind.rs
+++ b/laps_macros/src/token_kind.rs
@@ -1,4 +1,4 @@
-use crate::utils::{camel_to_lower, parse_doc_comments, return_error};
+use crate::utils::{camel_to_lower, escape_braces, parse_doc_comments, return_error};
 use proc_macro::TokenStream;
 use proc_macro2::TokenStream as TokenStream2;
 use quote::quote;
@@ -81,6 +81,7 @@ fn gen_display_impl(input: &ItemEnum) -> TokenStream2 {
         p
       },
     );
+    let prompt = escape_braces(&prompt);
     arms.extend(match &variant.fields {
       Fields::Unnamed(f) if f.unnamed.len() == 1 => {
         let prompt = prompt + " `{}`";
diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 89828e1..07d6801 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -1,4 +1,6 @@
-use crate::utils::{camel_to_lower, error, match_attr, parse_doc_comments, return_error};
+use crate::utils::{
+  camel_to_lower, error, escape_braces, match_attr, parse_doc_comments, return_error,
+};
 use laps_regex::re::{Error, RegexBuilder, RegexMatcher};
 use laps_regex::table::StateTransTable;
 use proc_macro::TokenStream;
@@ -484,7 +486,7 @@ impl RegexImpls {
       .enumerate()
       .filter_map(|(i, v)| match &v.attr {
         Some(VariantAttr::Regex(RegexAttr { parser, .. })) => {
-          let err = &v.err;
+          let err = escape_braces(&v.err);
           let field = match parser {
             Some(e) => quote! {
               (#e)(buf).ok_or_else(|| return_error!(span, std::concat!("invalid ", #err)))?
diff --git a/laps_macros/src/utils.rs b/laps_macros/src/utils.rs
index f41a66f..e5dbed9 100644
--- a/laps_macros/src/utils.rs
+++ b/laps_macros/src/utils.rs
@@ -113,3 +113,9 @@ pub fn camel_to_lower(s: String) -> String {
   }
   ans
 }
+
+/// Escapes braces in the given string, so that it can be used
+/// as a part of format strings.
+pub fn escape_braces(s: &str) -> String {
+  s.replace('{', "{{").replace('}', "}}")
+}
-- 
2.43.0


From 7756acba73341672d4b039ab52e5f95735b5582a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 22/30] fix: derive Spanned for fields with raw identifiers

---
 laps_macros/src/spanned.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laps_macros/src/spanned.rs b/laps_macros/src/spanned.rs
index 8639bc2..c2514d1 100644
--- a/laps_macros/src/spanned.rs
+++ b/laps_macros/src/spanned.rs
@@ -1,7 +1,7 @@
 use crate::utils::{error, return_error};
 use proc_macro::TokenStream;
 use proc_macro2::{Ident, Literal, TokenStream as TokenStream2};
-use quote::quote;
+use quote::{format_ident, quote};
 use syn::{
   punctuated::Punctuated, spanned::Spanned, Attribute, Data, DataEnum, DataStruct, DeriveInput,
   Field, Fields, Meta, Result, Token, Variant,
@@ -86,7 +86,7 @@ fn gen_fields_extract(
     let ts = has_try_span(&field.attrs)?;
     let span = field.span();
     let (ext, ts_id) = if let Some(id) = &field.ident {
-      let new_id = Ident::new(&format!("_{id}"), span);
+      let new_id = format_ident!("_{}", id, span = span);
       (quote!(#id: #new_id,), (ts, new_id))
     } else {
       let index = Literal::usize_unsuffixed(i);
-- 
2.43.0


From a5feab9db3137150022b3937d50f1d6e69dcd727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:05 +0000
Subject: [PATCH 23/30] fix: build derived byte lexers in bytes mode

---
 laps_macros/src/tokenize.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index 07d6801..ef5b945 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -267,8 +267,8 @@ struct RegexImpls {
 impl RegexImpls {
   fn new(info: &EnumInfo) -> Result<Self> {
     macro_rules! new {
-      ($t:ty) => {{
-        let tt: StateTransTable<$t, usize> = gen_trans_table(info, RegexBuilder::build)?;
+      ($t:ty, $build:expr) => {{
+        let tt: StateTransTable<$t, usize> = gen_trans_table(info, $build)?;
         let sym_map = tt
           .sym_map()
           .iter()
@@ -286,9 +286,9 @@ impl RegexImpls {
       }};
     }
     Ok(if info.bytes_mode {
-      new!(u8)
+      new!(u8, RegexBuilder::build_bytes)
     } else {
-      new!(char)
+      new!(char, RegexBuilder::build)
     })
   }
 
-- 
2.43.0


From 2eaff6fd7fb2125ab41988217fe223cc33a031f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:21 +0000
Subject: [PATCH 24/30] fix: do not let the aliases in derived lexers shadow
 enums named Kind or Token

---
 laps_macros/src/tokenize.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index ef5b945..eba7244 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -320,8 +320,8 @@ impl RegexImpls {
       use laps::return_error;
       use laps::span::{Result, Span};
 
-      type Kind #impl_generics = #name #ty_generics;
-      type Token #impl_generics = laps::token::Token<Kind #ty_generics>;
+      type __Kind #impl_generics = #name #ty_generics;
+      type __Token #impl_generics = laps::token::Token<__Kind #ty_generics>;
 
       struct LexerResult {
         last_state: usize,
@@ -331,7 +331,7 @@ impl RegexImpls {
       }
 
       enum TokenResult #impl_generics #where_clause {
-        Token(Token #ty_generics),
+        Token(__Token #ty_generics),
         Skip,
         Unknown,
       }
@@ -497,12 +497,12 @@ impl RegexImpls {
           };
           let ident = &v.ident;
           let kind = match &v.fields {
-            FieldInfo::Unit => quote!(Kind::#ident),
-            FieldInfo::UnnamedUnit => quote!(Kind::#ident()),
-            FieldInfo::Unnamed => quote!(Kind::#ident(#field)),
+            FieldInfo::Unit => quote!(__Kind::#ident),
+            FieldInfo::UnnamedUnit => quote!(__Kind::#ident()),
+            FieldInfo::Unnamed => quote!(__Kind::#ident(#field)),
           };
           Some(
-            quote!(if tag == #i { return Ok(TokenResult::Token(Token::new(#kind, span.clone()))) }),
+            quote!(if tag == #i { return Ok(TokenResult::Token(__Token::new(#kind, span.clone()))) }),
           )
         }
         Some(VariantAttr::Skip(_)) => Some(quote!(if tag == #i { return Ok(TokenResult::Skip) })),
@@ -544,8 +544,8 @@ impl RegexImpls {
       Some(VariantAttr::Eof) => {
         let ident = &v.ident;
         match v.fields {
-          FieldInfo::Unit => Some(quote!(Kind::#ident)),
-          FieldInfo::UnnamedUnit => Some(quote!(Kind::#ident())),
+          FieldInfo::Unit => Some(quote!(__Kind::#ident)),
+          FieldInfo::UnnamedUnit => Some(quote!(__Kind::#ident())),
           _ => unreachable!(),
         }
       }
@@ -553,7 +553,7 @@ impl RegexImpls {
     });
     // generate token
     match eof {
-      Some(eof) => quote!(return Ok(Token::new(#eof, span))),
+      Some(eof) => quote!(return Ok(__Token::new(#eof, span))),
       None => quote!(return_error!(span, "unexpected end-of-file")),
     }
   }
-- 
2.43.0


From 404e1c45cab3deb788036ded99f467e3c7b238ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 25/30] fix: do not panic when reporting a span more than 65535
 cells wide

---
 src/span.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 3af8947..e685d98 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -464,8 +464,8 @@ impl Span {
     eprintln!("{:width$} {}", "", "|".blue());
     eprint!("{} ", format!("{:width$}", line_num).blue());
     eprintln!("{} {}", "|".blue(), line);
-    eprint!("{:width$} {} {:leading$}", "", "|".blue(), "");
-    eprintln!("{}", format!("{:^>len$}", "").color(color));
+    eprint!("{:width$} {} {}", "", "|".blue(), " ".repeat(leading));
+    eprintln!("{}", "^".repeat(len).color(color));
     Ok(())
   }
 
@@ -490,7 +490,7 @@ impl Span {
     write!(buf, "{} ", format!("{:width$}", line_num).blue())?;
     writeln!(buf, "{}   {line}", "|".blue())?;
     write!(buf, "{:width$} {}  ", "", "|".blue())?;
-    writeln!(buf, "{}", format!("{:_>start$}^", "").color(color))?;
+    writeln!(buf, "{}", format!("{}^", "_".repeat(start)).color(color))?;
     // write the middle lines to buffer
     let mid_lines = (self.end.line - self.start.line) as usize - 1;
     if mid_lines <= 4 {
@@ -521,7 +521,7 @@ impl Span {
     } else {
       write!(buf, "{}", "|".color(color))?;
     }
-    writeln!(buf, "{}", format!("{:_>end$}^", "").color(color))?;
+    writeln!(buf, "{}", format!("{}^", "_".repeat(end)).color(color))?;
     // print buffer to stderr
     eprint!("{buf}");
     Ok(())
-- 
2.43.0


From c30066034f3dfcbb0f6cee390d824b589a5690ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 26/30] fix: align the gutter of reports past line ten million

---
 src/span.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index e685d98..349b7cf 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -457,7 +457,7 @@ impl Span {
     // get some parameters
     let line_num = self.start.line as usize;
     let (line, c1, c2) = get_line_str!(lines.nth(line_num - 1), self.start.col - 1, self.end.col);
-    let width = ((line_num + 1) as f32).log10().ceil() as usize;
+    let width = line_num.to_string().len();
     let leading = c1;
     let len = std::cmp::max(c2 - c1, 1);
     // print the current line to stderr
@@ -479,7 +479,7 @@ impl Span {
   {
     let mut buf = String::new();
     // get some parameters
-    let width = ((self.end.line as usize + 1) as f32).log10().ceil() as usize;
+    let width = self.end.line.to_string().len();
     let width = std::cmp::max(width, 2);
     // write the first line to buffer
     let line_num = self.start.line as usize;
-- 
2.43.0


From 461354c9aacfb5665dada0ddf9ad1d1aabbe1328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 27/30] fix: escape quotes in the labels of dumped automata

---
 laps_regex/src/fa.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/laps_regex/src/fa.rs b/laps_regex/src/fa.rs
index abb6868..cc2843d 100644
--- a/laps_regex/src/fa.rs
+++ b/laps_regex/src/fa.rs
@@ -29,6 +29,11 @@ fn get_and_update_state_id() -> usize {
   cur
 }
 
+/// Returns the Graphviz label of the given symbol.
+fn label_of<S: fmt::Debug>(s: &S) -> String {
+  format!("{s:?}").replace('"', "\\\"")
+}
+
 /// Trait for state of finite automaton.
 pub trait State<S> {
   /// Creates a new empty state.
@@ -88,7 +93,7 @@ impl<S> State<S> for DenseState<S> {
     W: io::Write,
   {
     for (s, to) in &self.outs {
-      writeln!(writer, "  {id} -> {to} [label = \"{s:?}\"]")?;
+      writeln!(writer, "  {id} -> {to} [label = \"{}\"]", label_of(s))?;
     }
     Ok(())
   }
@@ -131,7 +136,7 @@ where
   {
     for (s, to_ids) in &self.outs {
       for to in to_ids {
-        writeln!(writer, "  {id} -> {to} [label = \"{s:?}\"]")?;
+        writeln!(writer, "  {id} -> {to} [label = \"{}\"]", label_of(s))?;
       }
     }
     Ok(())
-- 
2.43.0


From da14fd750b66d7930cbfb2ba6032ff906c3e5d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 28/30] fix: refuse helper attributes without the documented
 arguments

`#[char_type]`, `#[enable_par = true]`, `#[token = ".."]`, `#[starts_with]` and the like
were silently ignored.
---
 laps_macros/src/utils.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/laps_macros/src/utils.rs b/laps_macros/src/utils.rs
index e5dbed9..8f86f8e 100644
--- a/laps_macros/src/utils.rs
+++ b/laps_macros/src/utils.rs
@@ -39,17 +39,15 @@ pub(crate) use result_to_tokens;
 macro_rules! match_attr {
   (for $id:ident in $attrs:ident if $name:literal && $cond:expr => $body:block) => {
     for $id in $attrs {
-      match &$id.meta {
-        syn::Meta::List($id) if $id.path.is_ident($name) => {
-          if $cond $body else {
-            use syn::spanned::Spanned;
-            crate::utils::return_error!(
-              $id.span(),
-              concat!("attribute `", $name, "` is bound more than once")
-            );
-          }
+      if $id.path().is_ident($name) {
+        let $id = $id.meta.require_list()?;
+        if $cond $body else {
+          use syn::spanned::Spanned;
+          crate::utils::return_error!(
+            $id.span(),
+            concat!("attribute `", $name, "` is bound more than once")
+          );
         }
-        _ => {}
       }
     }
   };
-- 
2.43.0


From a0ef9b62333f857cee101d82fe8d1ed539d909e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 29/30] fix: refuse malformed `regex`, `skip` and `eof`
 attributes of token kinds

A variant with `#[regex = ".."]`, `#[skip]` or `#[eof()]` was silently treated as one that
is never lexed.
---
 laps_macros/src/tokenize.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/laps_macros/src/tokenize.rs b/laps_macros/src/tokenize.rs
index eba7244..78362a5 100644
--- a/laps_macros/src/tokenize.rs
+++ b/laps_macros/src/tokenize.rs
@@ -9,7 +9,7 @@ use quote::quote;
 use syn::{
   parse::{Parse, ParseStream},
   spanned::Spanned,
-  Data, DeriveInput, Expr, Fields, Ident, ImplGenerics, LitBool, LitStr, Meta, Result, Token, Type,
+  Data, DeriveInput, Expr, Fields, Ident, ImplGenerics, LitBool, LitStr, Result, Token, Type,
   TypeGenerics, Variant, WhereClause,
 };
 
@@ -142,16 +142,14 @@ impl VariantInfo {
         continue;
       }
       if attr.is_none() {
-        match &a.meta {
-          Meta::List(l) if l.path.is_ident("regex") => {
-            attr = Some(VariantAttr::new_regex(&l.tokens)?);
-          }
-          Meta::List(l) if l.path.is_ident("skip") => {
-            attr = Some(VariantAttr::new_skip(&l.tokens)?);
-          }
-          Meta::Path(p) if p.is_ident("eof") => attr = Some(VariantAttr::Eof),
-          _ => {}
-        }
+        attr = Some(if path.is_ident("regex") {
+          VariantAttr::new_regex(&a.meta.require_list()?.tokens)?
+        } else if path.is_ident("skip") {
+          VariantAttr::new_skip(&a.meta.require_list()?.tokens)?
+        } else {
+          a.meta.require_path_only()?;
+          VariantAttr::Eof
+        });
       } else {
         return_error!(
           a.span(),
-- 
2.43.0


From 1fc74103496c28ee48990fa4072b6e21f258ccfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 30/30] fix: refuse `try_span` attributes with arguments
 instead of ignoring them

---
 laps_macros/src/spanned.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/laps_macros/src/spanned.rs b/laps_macros/src/spanned.rs
index c2514d1..eb30594 100644
--- a/laps_macros/src/spanned.rs
+++ b/laps_macros/src/spanned.rs
@@ -4,7 +4,7 @@ use proc_macro2::{Ident, Literal, TokenStream as TokenStream2};
 use quote::{format_ident, quote};
 use syn::{
   punctuated::Punctuated, spanned::Spanned, Attribute, Data, DataEnum, DataStruct, DeriveInput,
-  Field, Fields, Meta, Result, Token, Variant,
+  Field, Fields, Result, Token, Variant,
 };
 
 /// Entry function of `#[derive(Spanned)]`.
@@ -103,14 +103,12 @@ fn gen_fields_extract(
 fn has_try_span(attrs: &[Attribute]) -> Result<bool> {
   let mut result = false;
   for attr in attrs {
-    match &attr.meta {
-      Meta::Path(path) if path.is_ident("try_span") => {
-        if result {
-          return_error!(attr.span(), "attribute `try_span` is bound more than once");
-        }
-        result = true;
+    if attr.path().is_ident("try_span") {
+      attr.meta.require_path_only()?;
+      if result {
+        return_error!(attr.span(), "attribute `try_span` is bound more than once");
       }
-      _ => {}
+      result = true;
     }
   }
   Ok(result)
-- 
2.43.0

