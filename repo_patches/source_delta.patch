From 150aa9b2170b4003ab3b5512e58c6e68e26fe4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:38 +0000
Subject: [PATCH 01/33] Expose parser and html internals to the verification
 harness (cfg vimwiki_verif)

---
 vimwiki-core/src/lang/output/html/mod.rs | 5 +++++
 vimwiki-core/src/lang/parsers/mod.rs     | 5 +++++
 vimwiki-core/src/lib.rs                  | 9 +++++++++
 3 files changed, 19 insertions(+)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index d8c1518..1e04a3a 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -13,6 +13,11 @@ pub use error::{HtmlOutputError, HtmlOutputResult};
 mod utils;
 pub use utils::LinkResolutionError;
 
+#[cfg(vimwiki_verif)]
+pub mod verif_html_utils {
+    pub use super::utils::*;
+}
+
 use crate::lang::{
     elements::*,
     output::{Output, OutputFormatter},
diff --git a/vimwiki-core/src/lang/parsers/mod.rs b/vimwiki-core/src/lang/parsers/mod.rs
index 7398d2d..6d3dc0b 100644
--- a/vimwiki-core/src/lang/parsers/mod.rs
+++ b/vimwiki-core/src/lang/parsers/mod.rs
@@ -2,6 +2,11 @@ mod errors;
 mod span;
 mod utils;
 
+#[cfg(vimwiki_verif)]
+pub mod verif_utils {
+    pub use super::utils::*;
+}
+
 /// Vimwiki-specific parsers
 pub mod vimwiki;
 
diff --git a/vimwiki-core/src/lib.rs b/vimwiki-core/src/lib.rs
index 550e1f6..492d653 100644
--- a/vimwiki-core/src/lib.rs
+++ b/vimwiki-core/src/lib.rs
@@ -25,3 +25,12 @@ pub mod vendor {
 
 #[cfg(feature = "timekeeper")]
 pub mod timekeeper;
+
+/// Internals exposed only to the verification harness
+/// (`RUSTFLAGS="--cfg vimwiki_verif"`)
+#[cfg(vimwiki_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::lang::output::verif_html_utils as html_utils;
+    pub use crate::lang::parsers;
+}
-- 
2.43.0


From 52b38f331d4519a1d9e8dfb2446397df0bb0bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 02/33] fix: do not cut text off before its own start when a
 raw link reaches back over it

---
 .../lang/parsers/vimwiki/blocks/inline/typefaces.rs  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
index a34851d..1420843 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/inline/typefaces.rs
@@ -106,10 +106,16 @@ pub fn text(input: Span) -> IResult<Located<Text>> {
             // sure that we backtrack our length and then we're done
             if let Ok((_, x)) = non_text(text_input) {
                 let non_text_start = x.region().offset();
-                if non_text_start < text_input.start_offset() {
-                    len -= text_input.start_offset() - non_text_start;
+
+                // NOTE: A raw link is found by backtracking, which can reach
+                //       in front of our own input; in that case, it overlaps
+                //       with something already parsed and is not a link here
+                if non_text_start >= input.start_offset() {
+                    if non_text_start < text_input.start_offset() {
+                        len -= text_input.start_offset() - non_text_start;
+                    }
+                    break;
                 }
-                break;
             }
 
             text_input = text_input.advance_start_by(1);
-- 
2.43.0


From 6a4aff3ca295a1455236a2a2c2fe16beec721d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 03/33] fix: keep code and math block indentation trimming on
 character boundaries

---
 vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs | 9 +++++----
 vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
index fe2a661..e3cc3e7 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/code.rs
@@ -37,10 +37,11 @@ pub fn code_block(input: Span) -> IResult<Located<CodeBlock>> {
         let lines = lines
             .into_iter()
             .map(|mut line| {
-                // Figure out total bytes of leading whitespace so we know if
-                // the line is at the same level of indentation, further, or
-                // earlier
-                let cnt = line.len() - line.trim_start().len();
+                // Figure out total bytes of leading spaces and tabs so we
+                // know if the line is at the same level of indentation,
+                // further, or earlier
+                let cnt = line.len()
+                    - line.trim_start_matches(|c| c == ' ' || c == '\t').len();
                 let cnt_to_remove = std::cmp::min(cnt, indent_size);
 
                 match line {
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
index 6a8d1a3..c572316 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/math.rs
@@ -38,10 +38,11 @@ pub fn math_block<'a>(input: Span<'a>) -> IResult<Located<MathBlock<'a>>> {
         let lines = lines
             .into_iter()
             .map(|mut line| {
-                // Figure out total bytes of leading whitespace so we know if
-                // the line is at the same level of indentation, further, or
-                // earlier
-                let cnt = line.len() - line.trim_start().len();
+                // Figure out total bytes of leading spaces and tabs so we
+                // know if the line is at the same level of indentation,
+                // further, or earlier
+                let cnt = line.len()
+                    - line.trim_start_matches(|c| c == ' ' || c == '\t').len();
                 let cnt_to_remove = std::cmp::min(cnt, indent_size);
 
                 match line {
-- 
2.43.0


From a1c3b2c507fcbf3cb48025e1e32bd61ca8447e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 04/33] fix: encode characters a URI fragment cannot hold in
 diary link anchors

---
 .../elements/blocks/inline/links/anchor.rs    | 38 ++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs b/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
index 6844108..22de487 100644
--- a/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
+++ b/vimwiki-core/src/lang/elements/blocks/inline/links/anchor.rs
@@ -2,6 +2,7 @@ use crate::StrictEq;
 use derive_more::{
     Constructor, Deref, DerefMut, Index, IndexMut, IntoIterator,
 };
+use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS};
 use serde::{Deserialize, Serialize};
 use std::{borrow::Cow, convert::TryFrom, fmt};
 use uriparse::{Fragment, FragmentError};
@@ -59,16 +60,43 @@ impl<'a> Anchor<'a> {
     /// Produces an encoded URI fragment in the form of #my%23fragment
     /// if the anchor has any elements, otherwise yields an empty string
     pub fn to_encoded_uri_fragment(&self) -> String {
-        use std::fmt::Write;
         let mut fragment = String::new();
-        if !self.is_empty() {
-            write!(&mut fragment, "#{}", self.0.join("%23")).expect(
-                "Anchor encoded_uri_fragment returned error unexpectedly",
-            );
+        for (i, part) in self.0.iter().enumerate() {
+            fragment.push_str(if i == 0 { "#" } else { "%23" });
+            Self::push_encoded(&mut fragment, part);
         }
         fragment
     }
 
+    /// Appends part of an anchor to a URI fragment, encoding the characters
+    /// that a fragment cannot hold while leaving existing escapes as is
+    fn push_encoded(fragment: &mut String, part: &str) {
+        const FRAGMENT: &AsciiSet = &CONTROLS
+            .add(b' ')
+            .add(b'"')
+            .add(b'#')
+            .add(b'<')
+            .add(b'>')
+            .add(b'[')
+            .add(b'\\')
+            .add(b']')
+            .add(b'^')
+            .add(b'`')
+            .add(b'{')
+            .add(b'|')
+            .add(b'}');
+
+        for (i, piece) in part.split('%').enumerate() {
+            if i > 0 {
+                let bytes = piece.as_bytes();
+                let is_escape = bytes.len() >= 2
+                    && bytes[..2].iter().all(u8::is_ascii_hexdigit);
+                fragment.push_str(if is_escape { "%" } else { "%25" });
+            }
+            fragment.extend(utf8_percent_encode(piece, FRAGMENT));
+        }
+    }
+
     // NOTE: Cannot use FromStr due to conflicting lifetimes of impl and trait
     //       method's input str
     /// Parses a uri fragment in the form of `#one#two#three` with a starting
-- 
2.43.0


From b5e5a46919066f7c571183d0704164b23bd87074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 05/33] fix: cover every definition in the regions of a
 definition list

---
 .../src/lang/elements/blocks/definitions.rs         | 13 ++++++++-----
 .../src/lang/parsers/vimwiki/blocks/definitions.rs  | 13 ++++++++++++-
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/definitions.rs b/vimwiki-core/src/lang/elements/blocks/definitions.rs
index bcdc7f0..eeb45be 100644
--- a/vimwiki-core/src/lang/elements/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/elements/blocks/definitions.rs
@@ -377,12 +377,15 @@ impl<'a> FromIterator<(Located<Term<'a>>, Located<DefinitionBundle<'a>>)>
         let mut dl = Self::default();
 
         for (term, def_bundle) in iter.into_iter() {
-            // TODO: Should we perform more checks? Right now, we assume that these
-            //       two follow immediately together to calculate the region
-            let region = Region::new(
-                term.region().offset(),
-                term.region().len() + def_bundle.region().len(),
+            // The region reaches from the start of the term to the end of
+            // its definitions, including anything in between
+            let start = term.region().offset();
+            let end = std::cmp::max(
+                start + term.region().len(),
+                def_bundle.region().offset() + def_bundle.region().len(),
             );
+            let region =
+                Region::new_at_depth(start, end - start, term.region().depth());
 
             dl.items.push(Located::new(
                 TermAndDefinitions::new(term, def_bundle),
diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
index 62cfc39..40c353b 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/definitions.rs
@@ -1,7 +1,7 @@
 use crate::lang::{
     elements::{
         Definition, DefinitionBundle, DefinitionList, InlineElementContainer,
-        Located, Term,
+        Located, Region, Term,
     },
     parsers::{
         utils::{
@@ -45,8 +45,19 @@ fn term_and_definitions<'a>(
         DefinitionBundle::new,
     )))(input)?;
 
+    // A definition on the same line as the term comes first, and the bundle
+    // starts with it
     if let Some(def) = maybe_def {
+        let region = bundle.region();
+        let start = def.region().offset();
+        let end = region.offset() + region.len();
+
         bundle.as_mut_inner().as_mut().insert(0, def);
+        bundle = bundle.take_with_region(Region::new_at_depth(
+            start,
+            end - start,
+            region.depth(),
+        ));
     }
 
     Ok((input, (term, bundle)))
-- 
2.43.0


From 2f793a6c4e17617670fd880e99fb742366a091f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:38 +0000
Subject: [PATCH 06/33] fix: point at the last byte of a span that does not
 start at zero

Span::at_end advanced by end - 1 from the start of the span, which is the
last byte only for spans beginning at offset 0; otherwise it gave the end
offset (or was capped there), and end_line/end_column reported the position
after the span.
---
 vimwiki-core/src/lang/parsers/span.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/parsers/span.rs b/vimwiki-core/src/lang/parsers/span.rs
index 586b688..bda0166 100644
--- a/vimwiki-core/src/lang/parsers/span.rs
+++ b/vimwiki-core/src/lang/parsers/span.rs
@@ -83,7 +83,8 @@ impl<'a> Span<'a> {
     ///
     /// e.g. start = 2, end = 4, at_end() yields start = 3
     pub fn at_end(&self) -> Self {
-        self.advance_start_by(if self.end > 0 { self.end - 1 } else { 0 })
+        let len = self.remaining_len();
+        self.advance_start_by(if len > 0 { len - 1 } else { 0 })
     }
 
     /// Creates a copy of the span whose ending offset is adjusted to fit
-- 
2.43.0


From 51f28154add475362afd752937557fe6a1f119db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 07/33] fix: tell a span of one non-blank byte from whitespace

Span::is_only_whitespace accepted spans such as "x" and " a" (or any text
whose first byte alone is not blank), so single character blockquote lines
and placeholder values were rejected.
---
 vimwiki-core/src/lang/parsers/span.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/span.rs b/vimwiki-core/src/lang/parsers/span.rs
index bda0166..1994507 100644
--- a/vimwiki-core/src/lang/parsers/span.rs
+++ b/vimwiki-core/src/lang/parsers/span.rs
@@ -236,20 +236,20 @@ impl<'a> Span<'a> {
         // Iterate through all space and tabs until either we detect some
         // character that is not space (gap in index) or we find no more
         // whitespace even though we have more bytes remaining
-        let mut last_pos = 0;
+        let mut cnt = 0;
         for pos in memchr2_iter(b' ', b'\t', self.as_remaining()) {
-            // If we skipped at least one position beyond what would be next,
-            // there was something that didn't match and we can exit
-            if pos - last_pos > 1 {
+            // If we skipped at least one position, there was something that
+            // didn't match and we can exit
+            if pos != cnt {
                 return false;
             }
 
-            last_pos = pos;
+            cnt += 1;
         }
 
-        // If our last position doesn't correspond to the end of the remaining
-        // bytes, there is something that is not whitespace
-        last_pos == (len - 1)
+        // If we did not count every remaining byte, there is something at
+        // the end that is not whitespace
+        cnt == len
     }
 
     /// Calculates the line and column position of this span using newline (\n)
-- 
2.43.0


From abd057a8c82329c1aee431007dcfd508c0b57819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 08/33] fix: iterate a span backwards from its last byte

SpanIterator::next_back returned the byte after the end of the span, and
nothing at all when the span reached the end of the input.
---
 vimwiki-core/src/lang/parsers/span.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/span.rs b/vimwiki-core/src/lang/parsers/span.rs
index 1994507..28dafb0 100644
--- a/vimwiki-core/src/lang/parsers/span.rs
+++ b/vimwiki-core/src/lang/parsers/span.rs
@@ -392,10 +392,9 @@ impl<'a> Iterator for SpanIterator<'a> {
 impl<'a> DoubleEndedIterator for SpanIterator<'a> {
     fn next_back(&mut self) -> Option<Self::Item> {
         let span = &mut self.span;
-        if span.start < span.end && span.end < span.inner.len() {
-            let item = &span.inner[span.end];
+        if span.start < span.end && span.end <= span.inner.len() {
             span.end -= 1;
-            Some(item)
+            Some(&span.inner[span.end])
         } else {
             None
         }
-- 
2.43.0


From fbc41646a23a14012be1ee52c88b65cb05840708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:13 +0000
Subject: [PATCH 09/33] fix: do not overflow in regions reaching the end of the
 address range

Region::contains computed offset + len and the conversions from inclusive
ranges computed end + 1, which panic (or wrap) for values near usize::MAX.
---
 vimwiki-core/src/lang/elements/utils/region.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/utils/region.rs b/vimwiki-core/src/lang/elements/utils/region.rs
index 0c6bbaa..bf63a04 100644
--- a/vimwiki-core/src/lang/elements/utils/region.rs
+++ b/vimwiki-core/src/lang/elements/utils/region.rs
@@ -43,7 +43,7 @@ impl Region {
     /// Checks if a position is contained within this region
     #[inline]
     pub fn contains(&self, offset: usize) -> bool {
-        offset >= self.offset && offset < (self.offset + self.len)
+        offset >= self.offset && offset - self.offset < self.len
     }
 
     /// The offset of the region relative to some span of input
@@ -100,8 +100,8 @@ impl From<RangeInclusive<usize>> for Region {
     /// where `end + 1 < start` will result in a length of zero
     fn from(range: RangeInclusive<usize>) -> Self {
         let (start, end) = range.into_inner();
-        let len = if (end + 1) >= start {
-            (end + 1) - start
+        let len = if end >= start {
+            (end - start).saturating_add(1)
         } else {
             0
         };
@@ -119,7 +119,7 @@ impl From<RangeTo<usize>> for Region {
 impl From<RangeToInclusive<usize>> for Region {
     /// Converts from `..=end` to `Region { offset: 0, len: end + 1, depth: 0 }`
     fn from(range: RangeToInclusive<usize>) -> Self {
-        Self::new(0, range.end + 1)
+        Self::new(0, range.end.saturating_add(1))
     }
 }
 
-- 
2.43.0


From a631e1a934e28ec9b8fa92238f8696519c3be1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 10/33] fix: alphabetic list prefixes no longer repeat past
 2^32 positions

---
 vimwiki-core/src/lang/elements/blocks/lists/item.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/lists/item.rs b/vimwiki-core/src/lang/elements/blocks/lists/item.rs
index 0119bd1..e462ea4 100644
--- a/vimwiki-core/src/lang/elements/blocks/lists/item.rs
+++ b/vimwiki-core/src/lang/elements/blocks/lists/item.rs
@@ -456,14 +456,14 @@ impl Default for OrderedListItemType {
 /// where 0 == a, 25 == z, 26 == aa, and so on
 fn pos_to_alphabet(pos: usize, to_lower: bool) -> String {
     let mut s = String::new();
-    let mut i = pos as u32;
+    let mut i = pos;
     let base = if to_lower { 97 } else { 65 };
 
     // Work our way backwards, starting with the last character and moving left
     loop {
         // Get closest character offset
         let offset = i % 26;
-        if let Some(c) = std::char::from_u32(base + offset) {
+        if let Some(c) = std::char::from_u32(base + offset as u32) {
             s.push(c);
         }
 
-- 
2.43.0


From 853c5f2f2c4077b3e01ffccddfd8cf9938203d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 11/33] fix: roman numeral list prefixes past 32767 items no
 longer panic

---
 vimwiki-core/src/lang/elements/blocks/lists/item.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/lists/item.rs b/vimwiki-core/src/lang/elements/blocks/lists/item.rs
index e462ea4..70e7009 100644
--- a/vimwiki-core/src/lang/elements/blocks/lists/item.rs
+++ b/vimwiki-core/src/lang/elements/blocks/lists/item.rs
@@ -430,11 +430,15 @@ impl OrderedListItemType {
             Self::UppercaseAlphabet => pos_to_alphabet(pos, false),
             // NOTE: Roman numerals start at 1, not 0, so use base 1
             Self::LowercaseRoman => {
-                format!("{:x}", Roman::from((pos + 1) as i16))
+                // NOTE: Roman is limited to i16, so thousands are prefixed
+                let rest = Roman::from((pos % 1000 + 1) as i16);
+                format!("{}{:x}", "m".repeat(pos / 1000), rest)
             }
             // NOTE: Roman numerals start at 1, not 0, so use base 1
             Self::UppercaseRoman => {
-                format!("{:X}", Roman::from((pos + 1) as i16))
+                // NOTE: Roman is limited to i16, so thousands are prefixed
+                let rest = Roman::from((pos % 1000 + 1) as i16);
+                format!("{}{:X}", "M".repeat(pos / 1000), rest)
             }
         };
 
-- 
2.43.0


From 03274c4d7b84053a2530ea2960f2fff879f4b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:53 +0000
Subject: [PATCH 12/33] fix: iterate and measure tables whose rows have
 different lengths

---
 .../src/lang/elements/blocks/tables.rs        | 129 +++++++++++++-----
 1 file changed, 95 insertions(+), 34 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/tables.rs b/vimwiki-core/src/lang/elements/blocks/tables.rs
index 52c5775..73a0414 100644
--- a/vimwiki-core/src/lang/elements/blocks/tables.rs
+++ b/vimwiki-core/src/lang/elements/blocks/tables.rs
@@ -266,6 +266,47 @@ impl<'a> Table<'a> {
         IntoCells::new(self)
     }
 
+    /// Returns the position of the first cell at or after the specified row and
+    /// column, moving to the next row at the end of each row, or the position
+    /// past the last row and column if there is no such cell
+    fn next_cell_pos(&self, row: usize, col: usize) -> CellPos {
+        let mut pos = CellPos { row, col };
+        while pos.row < self.row_cnt {
+            if pos.col >= self.col_cnt {
+                pos.row += 1;
+                pos.col = 0;
+            } else if self.get_cell(pos.row, pos.col).is_some() {
+                return pos;
+            } else {
+                pos.col += 1;
+            }
+        }
+        CellPos {
+            row: self.row_cnt,
+            col: self.col_cnt,
+        }
+    }
+
+    /// Returns the first row at or after the specified row that has a cell in
+    /// the specified column, or the position past the last row
+    fn next_row_with_cell(&self, row: usize, col: usize) -> usize {
+        let mut row = row;
+        while row < self.row_cnt && self.get_cell(row, col).is_none() {
+            row += 1;
+        }
+        row
+    }
+
+    /// Returns the first column at or after the specified column that has a
+    /// cell in the specified row, or the position past the last column
+    fn next_col_with_cell(&self, row: usize, col: usize) -> usize {
+        let mut col = col;
+        while col < self.col_cnt && self.get_cell(row, col).is_none() {
+            col += 1;
+        }
+        col
+    }
+
     /// Returns reference to the cell found at the specified row and column
     pub fn get_cell(
         &self,
@@ -291,20 +332,24 @@ impl<'a> Table<'a> {
     ///
     /// Returns 0 for a non-content cell or a cell that doesn't exist
     pub fn get_cell_rowspan(&self, row: usize, col: usize) -> usize {
-        let mut it = self.column(col).skip(row);
-
         // Verify that the cell at the specified location is content,
         // otherwise we return 0
-        match it.next() {
+        match self.get_cell(row, col) {
             Some(cell) if cell.is_content() => {}
             _ => return 0,
         }
 
-        it.take_while(|cell| {
-            matches!(cell.get_span().copied(), Some(CellSpan::FromAbove))
-        })
-        .count()
-            + 1
+        // NOTE: Rows can have different lengths, so we need to look up cells
+        //       by position
+        let mut span = 1;
+        while self
+            .get_cell(row + span, col)
+            .and_then(|cell| cell.get_span().copied())
+            == Some(CellSpan::FromAbove)
+        {
+            span += 1;
+        }
+        span
     }
 
     /// Returns the cell's colspan, which is the number of columns (including
@@ -314,20 +359,24 @@ impl<'a> Table<'a> {
     ///
     /// Returns 0 for a non-content cell or a cell that doesn't exist
     pub fn get_cell_colspan(&self, row: usize, col: usize) -> usize {
-        let mut it = self.row(row).skip(col);
-
         // Verify that the cell at the specified location is content,
         // otherwise we return 0
-        match it.next() {
+        match self.get_cell(row, col) {
             Some(cell) if cell.is_content() => {}
             _ => return 0,
         }
 
-        it.take_while(|cell| {
-            matches!(cell.get_span().copied(), Some(CellSpan::FromLeft))
-        })
-        .count()
-            + 1
+        // NOTE: Rows can have different lengths, so we need to look up cells
+        //       by position
+        let mut span = 1;
+        while self
+            .get_cell(row, col + span)
+            .and_then(|cell| cell.get_span().copied())
+            == Some(CellSpan::FromLeft)
+        {
+            span += 1;
+        }
+        span
     }
 }
 
@@ -717,9 +766,10 @@ mod iter {
         type Item = &'a Located<Cell<'b>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell = self.table.get_cell(self.row, self.col);
+            let col = self.col();
+            let cell = self.table.get_cell(self.row, col);
             if cell.is_some() {
-                self.col += 1;
+                self.col = col + 1;
             }
             cell
         }
@@ -736,7 +786,7 @@ mod iter {
         }
 
         fn col(&self) -> usize {
-            self.col
+            self.table.next_col_with_cell(self.row, self.col)
         }
     }
 
@@ -777,10 +827,10 @@ mod iter {
         type Item = Located<Cell<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell =
-                self.table.cells.remove(&CellPos::new(self.row, self.col));
+            let col = self.col();
+            let cell = self.table.cells.remove(&CellPos::new(self.row, col));
             if cell.is_some() {
-                self.col += 1;
+                self.col = col + 1;
             }
             cell
         }
@@ -797,7 +847,7 @@ mod iter {
         }
 
         fn col(&self) -> usize {
-            self.col
+            self.table.next_col_with_cell(self.row, self.col)
         }
     }
 
@@ -879,9 +929,10 @@ mod iter {
         type Item = &'a Located<Cell<'b>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell = self.table.get_cell(self.row, self.col);
+            let row = self.row();
+            let cell = self.table.get_cell(row, self.col);
             if cell.is_some() {
-                self.row += 1;
+                self.row = row + 1;
             }
             cell
         }
@@ -894,7 +945,7 @@ mod iter {
 
     impl<'a, 'b> CellIter<&'a Located<Cell<'b>>> for Column<'a, 'b> {
         fn row(&self) -> usize {
-            self.row
+            self.table.next_row_with_cell(self.row, self.col)
         }
 
         fn col(&self) -> usize {
@@ -931,10 +982,10 @@ mod iter {
         type Item = Located<Cell<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            let cell =
-                self.table.cells.remove(&CellPos::new(self.row, self.col));
+            let row = self.row();
+            let cell = self.table.cells.remove(&CellPos::new(row, self.col));
             if cell.is_some() {
-                self.row += 1;
+                self.row = row + 1;
             }
             cell
         }
@@ -947,7 +998,7 @@ mod iter {
 
     impl<'a> CellIter<Located<Cell<'a>>> for IntoColumn<'a> {
         fn row(&self) -> usize {
-            self.row
+            self.table.next_row_with_cell(self.row, self.col)
         }
 
         fn col(&self) -> usize {
@@ -988,6 +1039,11 @@ mod iter {
         type Item = &'a Located<Cell<'b>>;
 
         fn next(&mut self) -> Option<Self::Item> {
+            let CellPos { row, col } =
+                self.table.next_cell_pos(self.row, self.col);
+            self.row = row;
+            self.col = col;
+
             let cell = self.table.get_cell(self.row, self.col);
             let col_cnt = self.table.col_cnt();
             let row_cnt = self.table.row_cnt();
@@ -1025,11 +1081,11 @@ mod iter {
 
     impl<'a, 'b> CellIter<&'a Located<Cell<'b>>> for Cells<'a, 'b> {
         fn row(&self) -> usize {
-            self.row
+            self.table.next_cell_pos(self.row, self.col).row
         }
 
         fn col(&self) -> usize {
-            self.col
+            self.table.next_cell_pos(self.row, self.col).col
         }
     }
 
@@ -1070,6 +1126,11 @@ mod iter {
         type Item = Located<Cell<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
+            let CellPos { row, col } =
+                self.table.next_cell_pos(self.row, self.col);
+            self.row = row;
+            self.col = col;
+
             let cell =
                 self.table.cells.remove(&CellPos::new(self.row, self.col));
             let col_cnt = self.table.col_cnt();
@@ -1108,11 +1169,11 @@ mod iter {
 
     impl<'a> CellIter<Located<Cell<'a>>> for IntoCells<'a> {
         fn row(&self) -> usize {
-            self.row
+            self.table.next_cell_pos(self.row, self.col).row
         }
 
         fn col(&self) -> usize {
-            self.col
+            self.table.next_cell_pos(self.row, self.col).col
         }
     }
 }
-- 
2.43.0


From fa7467b3bf4e70ee50148d4eee18502f598eb467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 13/33] fix: size alignment cells of table columns without
 other cells when formatting

---
 vimwiki-core/src/lang/output/vimwiki/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/vimwiki/mod.rs b/vimwiki-core/src/lang/output/vimwiki/mod.rs
index 804355b..a156a89 100644
--- a/vimwiki-core/src/lang/output/vimwiki/mod.rs
+++ b/vimwiki-core/src/lang/output/vimwiki/mod.rs
@@ -469,9 +469,10 @@ impl<'a> Output<VimwikiFormatter> for Table<'a> {
 
         // Make sure that the max size accounts for cases where content is
         // empty, missing, or smaller than our alignment
-        for (col, size) in max_column_sizes.iter_mut() {
+        for col in 0..self.col_cnt() {
+            let size = max_column_sizes.entry(col).or_default();
             let min_align_size = self
-                .column(*col)
+                .column(col)
                 .map(|x| match x.as_inner() {
                     Cell::Align(ColumnAlign::None) => 1,  /* - */
                     Cell::Align(ColumnAlign::Left) => 2,  /* :- */
-- 
2.43.0


From 65526d3726bf11886e0fc711a63bcd8b9330ef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 14/33] fix: link to a directory of another wiki resolves to
 its index page

---
 vimwiki-core/src/lang/output/html/utils.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 2e82f35..f5a878b 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -230,8 +230,7 @@ pub fn resolve_link(
             // Take the path of the target from the uri reference and make it
             // a relative path as it will always be added to the path of the
             // specified wiki
-            let target_out =
-                wiki.make_output_path(data.to_path_buf().as_path(), ext);
+            let target_out = wiki.make_output_path(path.as_path(), ext);
 
             let mut uri_ref = make_relative_link(src_out, target_out)
                 .map(URIReference::from)
@@ -263,8 +262,7 @@ pub fn resolve_link(
             // Take the path of the target from the uri reference and make it
             // a relative path as it will always be added to the path of the
             // specified wiki
-            let target_out =
-                wiki.make_output_path(data.to_path_buf().as_path(), ext);
+            let target_out = wiki.make_output_path(path.as_path(), ext);
 
             let mut uri_ref = make_relative_link(src_out, target_out)
                 .map(URIReference::from)
-- 
2.43.0


From 60a5c56b592c30dcf54254d5c1affa4905413355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 15/33] fix: links between wikis whose directories hold spaces
 or non-ASCII names resolve

---
 vimwiki-core/src/lang/output/html/utils.rs | 29 ++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index f5a878b..2c91971 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -2,6 +2,7 @@ use super::{HtmlConfig, HtmlWikiConfig};
 use crate::Link;
 use chrono::NaiveDate;
 use derive_more::{Display, Error};
+use percent_encoding::{utf8_percent_encode, AsciiSet, CONTROLS};
 use relative_path::RelativePathBuf;
 use serde::{de, Deserialize};
 use std::{
@@ -358,6 +359,24 @@ fn make_diary_absolute_output_path(
     config.make_output_path(input.as_path(), ext)
 }
 
+/// Characters that have to be encoded to appear in the path of a uri, leaving
+/// out % in order to keep what is already encoded
+const URI_PATH: &AsciiSet = &CONTROLS
+    .add(b' ')
+    .add(b'"')
+    .add(b'#')
+    .add(b'<')
+    .add(b'>')
+    .add(b'?')
+    .add(b'[')
+    .add(b'\\')
+    .add(b']')
+    .add(b'^')
+    .add(b'`')
+    .add(b'{')
+    .add(b'|')
+    .add(b'}');
+
 /// Given a src and target path, creates a relative reference
 #[inline]
 fn make_relative_link<P1: AsRef<Path>, P2: AsRef<Path>>(
@@ -373,13 +392,19 @@ fn make_relative_link<P1: AsRef<Path>, P2: AsRef<Path>>(
     //       of the web, we just want c as referencing from the same directory
     //       is fine; this means that we remove the first .. in the path
     let relative_path = src_rel.relative(target_rel);
-    let res = RelativeReference::try_from(
+
+    // NOTE: links are already encoded, but the directories of wikis can hold
+    //       characters that cannot appear in the path of a uri
+    let encoded_path = utf8_percent_encode(
         relative_path
             .strip_prefix("..")
             .unwrap_or(&relative_path)
             .as_str(),
+        URI_PATH,
     )
-    .map(RelativeReference::into_owned);
+    .to_string();
+    let res = RelativeReference::try_from(encoded_path.as_str())
+        .map(RelativeReference::into_owned);
     res
 }
 
-- 
2.43.0


From b94252f8dec9bfb10873de144afb890c75c8cd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 16/33] fix: escape code block language and metadata in HTML
 output

---
 vimwiki-core/src/lang/output/html/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index 1e04a3a..0282022 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -580,12 +580,21 @@ impl<'a> Output<HtmlFormatter> for CodeBlock<'a> {
 
                 // If provided with a language, fill it in as the class
                 if let Some(lang) = self.language.as_ref() {
-                    write!(f, r#" class="{}""#, lang)?;
+                    write!(
+                        f,
+                        r#" class="{}""#,
+                        escape::escape_html(lang)
+                    )?;
                 }
 
                 // For each metadata assignment, treat it as an HTML attribute
                 for (attr, value) in self.metadata.iter() {
-                    write!(f, r#" {}="{}""#, attr, value)?;
+                    write!(
+                        f,
+                        r#" {}="{}""#,
+                        escape::escape_html(attr),
+                        escape::escape_html(value)
+                    )?;
                 }
 
                 // NOTE: We do NOT include a newline here because it results
-- 
2.43.0


From 2f5941c474c66d206f745166693292114c0df1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 17/33] fix: escape link property names in HTML output

---
 vimwiki-core/src/lang/output/html/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index 0282022..fbffd7c 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -1089,7 +1089,12 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
 
                 if let Some(properties) = properties {
                     for (k, v) in properties.iter() {
-                        write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
+                        write!(
+                            f,
+                            " {}=\"{}\"",
+                            escape::escape_html(k),
+                            escape::escape_html(v)
+                        )?;
                     }
                 }
 
@@ -1099,7 +1104,12 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
 
                 if let Some(properties) = properties {
                     for (k, v) in properties.iter() {
-                        write!(f, " {}=\"{}\"", k, escape::escape_html(v))?;
+                        write!(
+                            f,
+                            " {}=\"{}\"",
+                            escape::escape_html(k),
+                            escape::escape_html(v)
+                        )?;
                     }
                 }
 
-- 
2.43.0


From 7e77834d8e60f12a7dca85187d5c2dee04871389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 18/33] fix: comment text cannot end an HTML comment

---
 vimwiki-core/src/lang/output/html/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index fbffd7c..8e88e74 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -1245,7 +1245,7 @@ impl<'a> Output<HtmlFormatter> for LineComment<'a> {
     /// ```
     fn fmt(&self, f: &mut HtmlFormatter) -> HtmlOutputResult {
         if f.config().comment.include {
-            write!(f, "<!-- {} -->", self.as_str())?;
+            write!(f, "<!-- {} -->", escape::escape_html(self.as_str()))?;
         }
         Ok(())
     }
@@ -1270,7 +1270,7 @@ impl<'a> Output<HtmlFormatter> for MultiLineComment<'a> {
         if f.config().comment.include {
             writeln!(f, "<!--")?;
             for line in self {
-                writeln!(f, "{}", line)?;
+                writeln!(f, "{}", escape::escape_html(line))?;
             }
             write!(f, "-->")?;
         }
-- 
2.43.0


From f0388d3e85304b81e45c5bf7644f0bb2055c48c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 19/33] fix: escape math block environment in HTML output

---
 vimwiki-core/src/lang/output/html/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index 8e88e74..642bcbb 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -419,6 +419,7 @@ impl<'a> Output<HtmlFormatter> for MathBlock<'a> {
     /// ```
     fn fmt(&self, f: &mut HtmlFormatter) -> HtmlOutputResult {
         if let Some(env) = self.environment.as_deref() {
+            let env = escape::escape_html(env);
             writeln!(f, r"\begin{{{}}}", env)?;
             for line in self {
                 writeln!(f, "{}", escape::escape_html(line))?;
-- 
2.43.0


From 808b0056e1783971949bb8077bc23af096c4f498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 20/33] fix: escape the reference shown as text of a link
 without description

---
 vimwiki-core/src/lang/output/html/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index 642bcbb..14e2a6c 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -1130,7 +1130,11 @@ impl<'a> Output<HtmlFormatter> for Link<'a> {
                         }
                         .fmt(f)?
                     }
-                    None => write!(f, "{}", href)?,
+                    None => write!(
+                        f,
+                        "{}",
+                        escape::escape_html(href.to_string().as_str())
+                    )?,
                 }
 
                 write!(f, "</a>")?;
-- 
2.43.0


From c5fe907b9c50112f5e0fe46c915189df684c1bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 21/33] fix: tags keep their spelling in HTML output

---
 vimwiki-core/src/lang/output/html/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/html/mod.rs b/vimwiki-core/src/lang/output/html/mod.rs
index 14e2a6c..0dc04df 100644
--- a/vimwiki-core/src/lang/output/html/mod.rs
+++ b/vimwiki-core/src/lang/output/html/mod.rs
@@ -1192,7 +1192,8 @@ impl<'a> Output<HtmlFormatter> for Tags<'a> {
             write!(
                 f,
                 "<span class=\"tag\" id=\"{}\">{}</span>",
-                unique_id, id
+                unique_id,
+                escape::escape_html(tag.as_str())
             )?;
         }
 
-- 
2.43.0


From 5a8205b571e0b5912fc52cc4df1a0801a9857850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 22/33] fix: a table cell of dashes is content unless its whole
 row aligns columns

---
 .../src/lang/parsers/vimwiki/blocks/tables.rs | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
index 533a5ff..af2fbbd 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/tables.rs
@@ -74,19 +74,25 @@ pub fn nested_table(input: Span) -> IResult<Located<Table>> {
     })(input)
 }
 
+/// A row is either a divider, where every cell is an alignment, or holds only
+/// other cells, where `-` is ordinary content
 #[inline]
 fn row(input: Span) -> IResult<Vec<Located<Cell>>> {
-    context(
-        "Row",
-        terminated(
-            delimited(
-                char('|'),
-                separated_list1(char('|'), deeper(cell)),
-                char('|'),
-            ),
-            end_of_line_or_input,
+    context("Row", alt((row_of(align_cell), row_of(cell))))(input)
+}
+
+#[inline]
+fn row_of<'a>(
+    cell: fn(Span<'a>) -> IResult<'a, Located<Cell<'a>>>,
+) -> impl FnMut(Span<'a>) -> IResult<'a, Vec<Located<Cell<'a>>>> {
+    terminated(
+        delimited(
+            char('|'),
+            separated_list1(char('|'), deeper(cell)),
+            char('|'),
         ),
-    )(input)
+        end_of_line_or_input,
+    )
 }
 
 #[inline]
@@ -111,7 +117,6 @@ fn cell(input: Span) -> IResult<Located<Cell>> {
         alt((
             map(cell_span_above, Cell::Span),
             map(cell_span_left, Cell::Span),
-            map(column_align, Cell::Align),
             map(
                 map_parser(take_line_until1("|"), inline_element_container),
                 |l: Located<InlineElementContainer>| {
@@ -124,6 +129,11 @@ fn cell(input: Span) -> IResult<Located<Cell>> {
     context("Cell", locate(capture(inner)))(input)
 }
 
+#[inline]
+fn align_cell(input: Span) -> IResult<Located<Cell>> {
+    context("Cell", locate(capture(map(column_align, Cell::Align))))(input)
+}
+
 #[inline]
 fn cell_span_left(input: Span) -> IResult<CellSpan> {
     value(CellSpan::FromLeft, delimited(space0, tag(">"), space0))(input)
-- 
2.43.0


From b63e42e8132a333757c79c8e3789f7f0acb011c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 23/33] fix: a blockquote line of a lone > is an empty line of
 the blockquote

---
 .../src/lang/parsers/vimwiki/blocks/blockquotes.rs   | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
index 4fcd1d5..f01422b 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/blockquotes.rs
@@ -11,9 +11,9 @@ use nom::{
     branch::alt,
     bytes::complete::tag,
     character::complete::{not_line_ending, space0},
-    combinator::{map, map_parser, value, verify},
+    combinator::{map, map_parser, peek, value, verify},
     multi::{many0, many1},
-    sequence::pair,
+    sequence::{pair, terminated},
 };
 use std::borrow::Cow;
 
@@ -73,11 +73,15 @@ pub fn arrow_blockquote(input: Span) -> IResult<Located<Blockquote>> {
     context("Arrow Blockquote", locate(capture(inner)))(input)
 }
 
-/// Parses a blockquote line that begins with >
+/// Parses a blockquote line that begins with >, which can be by itself to
+/// represent an empty line
 #[inline]
 fn arrow_blockquote_line<'a>(input: Span<'a>) -> IResult<Cow<'a, str>> {
     let (input, _) = space0(input)?;
-    let (input, _) = tag("> ")(input)?;
+    let (input, _) =
+        alt((tag("> "), terminated(tag(">"), peek(end_of_line_or_input))))(
+            input,
+        )?;
     let (input, text) = map_parser(not_line_ending, cow_str)(input)?;
     let (input, _) = end_of_line_or_input(input)?;
 
-- 
2.43.0


From 386b4653f35d50515d495a196d48daef9a9abef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 24/33] fix: list items whose letters start with roman numerals
 are alphabetic items

---
 .../src/lang/parsers/vimwiki/blocks/lists.rs  | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
index bd2a692..661a71c 100644
--- a/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
+++ b/vimwiki-core/src/lang/parsers/vimwiki/blocks/lists.rs
@@ -240,18 +240,14 @@ fn ordered_list_item_prefix(
     input: Span,
 ) -> IResult<(OrderedListItemType, ListItemSuffix)> {
     // NOTE: Roman numeral check comes before alphabetic as alphabetic would
-    //       also match roman numerals
+    //       also match roman numerals; each includes the suffix so letters
+    //       that only start with roman numerals are tried as alphabetic
     let (input, (item_type, item_suffix)) = alt((
-        pair(
-            alt((
-                ordered_list_item_type_number,
-                ordered_list_item_type_lower_roman,
-                ordered_list_item_type_upper_roman,
-                ordered_list_item_type_lower_alphabet,
-                ordered_list_item_type_upper_alphabet,
-            )),
-            alt((list_item_suffix_period, list_item_suffix_paren)),
-        ),
+        pair(ordered_list_item_type_number, ordered_list_item_suffix),
+        pair(ordered_list_item_type_lower_roman, ordered_list_item_suffix),
+        pair(ordered_list_item_type_upper_roman, ordered_list_item_suffix),
+        pair(ordered_list_item_type_lower_alphabet, ordered_list_item_suffix),
+        pair(ordered_list_item_type_upper_alphabet, ordered_list_item_suffix),
         pair(ordered_list_item_type_pound, list_item_suffix_none),
     ))(input)?;
 
@@ -324,10 +320,15 @@ fn ordered_list_item_type_upper_roman(
 ) -> IResult<OrderedListItemType> {
     value(
         OrderedListItemType::UppercaseRoman,
-        many1(one_of("IVXLEDM")),
+        many1(one_of("IVXLCDM")),
     )(input)
 }
 
+#[inline]
+fn ordered_list_item_suffix(input: Span) -> IResult<ListItemSuffix> {
+    alt((list_item_suffix_period, list_item_suffix_paren))(input)
+}
+
 #[inline]
 fn list_item_suffix_paren(input: Span) -> IResult<ListItemSuffix> {
     value(ListItemSuffix::Paren, tag(") "))(input)
-- 
2.43.0


From 01fe92b0f6f075c4e789fd759083b576803d5e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:44 +0000
Subject: [PATCH 25/33] fix: files of a wiki are kept when wikis before it are
 not included

The loaded wiki was looked up by its index in the configuration, but the
list of loaded wikis only holds the included ones.
---
 vimwiki-cli/src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vimwiki-cli/src/ast.rs b/vimwiki-cli/src/ast.rs
index b9ce9e1..4de4a93 100644
--- a/vimwiki-cli/src/ast.rs
+++ b/vimwiki-cli/src/ast.rs
@@ -159,7 +159,7 @@ fn load_ast(
             })
         {
             let file = load_wiki_file(entry.path(), cache, no_cache)?;
-            if let Some(wiki) = ast.wikis.get_mut(index) {
+            if let Some(wiki) = ast.wikis.last_mut() {
                 wiki.files.push(file);
             }
         }
-- 
2.43.0


From 28c7873a246a85116812ec482243ad76486e64f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:56 +0000
Subject: [PATCH 26/33] fix: wikis to include are chosen by their index in the
 configuration

Wikis were filtered when the configuration was loaded and again, by their
index among those left, when loading and converting them, so that including
any wiki by an index other than 0 selected nothing.
---
 vimwiki-cli/src/utils.rs | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/vimwiki-cli/src/utils.rs b/vimwiki-cli/src/utils.rs
index ae89e69..1c47449 100644
--- a/vimwiki-cli/src/utils.rs
+++ b/vimwiki-cli/src/utils.rs
@@ -84,17 +84,6 @@ pub fn load_html_config(
         }
     }
 
-    // Finally, filter out wikis based on include logic
-    config.wikis = config
-        .wikis
-        .into_iter()
-        .enumerate()
-        .filter(|(idx, wiki)| {
-            opt.filter_by_wiki_idx_and_name(*idx, wiki.name.as_deref())
-        })
-        .map(|(_, wiki)| wiki)
-        .collect();
-
     Ok(config)
 }
 
-- 
2.43.0


From 1e4df10e8ec8a09c9fb5ec016ee7e4ffba7c7be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:19 +0000
Subject: [PATCH 27/33] fix: pages with definition lists can be serialized

---
 .../src/lang/elements/blocks/definitions.rs     | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/vimwiki-core/src/lang/elements/blocks/definitions.rs b/vimwiki-core/src/lang/elements/blocks/definitions.rs
index eeb45be..a133dd5 100644
--- a/vimwiki-core/src/lang/elements/blocks/definitions.rs
+++ b/vimwiki-core/src/lang/elements/blocks/definitions.rs
@@ -151,7 +151,10 @@ pub type Definition<'a> = DefinitionListValue<'a>;
     Deserialize,
 )]
 #[into_iterator(owned, ref, ref_mut)]
-pub struct DefinitionBundle<'a>(Vec<Located<Definition<'a>>>);
+pub struct DefinitionBundle<'a> {
+    /// Represents the definitions contained within the bundle
+    definitions: Vec<Located<Definition<'a>>>,
+}
 
 impl ElementLike for DefinitionBundle<'_> {}
 
@@ -175,22 +178,22 @@ impl<'a> DefinitionBundle<'a> {
 
     /// Returns total elements contained within container
     pub fn len(&self) -> usize {
-        self.0.len()
+        self.definitions.len()
     }
 
     /// Returns true if container has no elements
     pub fn is_empty(&self) -> bool {
-        self.0.is_empty()
+        self.definitions.is_empty()
     }
 
     /// Returns reference to element at specified index, if it exists
     pub fn get(&self, idx: usize) -> Option<&Located<Definition<'a>>> {
-        self.0.get(idx)
+        self.definitions.get(idx)
     }
 
     /// Returns the definitions contained within the bundle
     pub fn into_definitions(self) -> Vec<Located<Definition<'a>>> {
-        self.0
+        self.definitions
     }
 }
 
@@ -218,7 +221,7 @@ impl<'a> IntoChildren for DefinitionBundle<'a> {
     type Child = Located<Definition<'a>>;
 
     fn into_children(self) -> Vec<Self::Child> {
-        self.0
+        self.definitions
     }
 }
 
@@ -226,7 +229,7 @@ impl<'a> StrictEq for DefinitionBundle<'a> {
     /// Performs strict_eq on all definitions
     #[inline]
     fn strict_eq(&self, other: &Self) -> bool {
-        self.0.strict_eq(&other.0)
+        self.definitions.strict_eq(&other.definitions)
     }
 }
 
-- 
2.43.0


From 625581279381994c5c7aea996d5a663faa069eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:18 +0000
Subject: [PATCH 28/33] fix: --no-cache does not write to the cache directory

---
 vimwiki-cli/src/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vimwiki-cli/src/ast.rs b/vimwiki-cli/src/ast.rs
index 4de4a93..772c83d 100644
--- a/vimwiki-cli/src/ast.rs
+++ b/vimwiki-cli/src/ast.rs
@@ -285,7 +285,7 @@ fn load_wiki_file(
     };
 
     // Update our cache with the new file; old files get cleaned later
-    if !has_cached_page {
+    if !no_cache && !has_cached_page {
         let cache_file_path = cache.join(checksum.as_str());
         match fs::File::create(cache_file_path.as_path()) {
             Ok(file) => {
-- 
2.43.0


From d5313ec6c62438fc4fe49ad01b8a569cfc09de42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 29/33] fix: the style sheet is written for wikis without pages

---
 vimwiki-cli/src/subcommand/convert.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vimwiki-cli/src/subcommand/convert.rs b/vimwiki-cli/src/subcommand/convert.rs
index d8ae9ba..09d7da5 100644
--- a/vimwiki-cli/src/subcommand/convert.rs
+++ b/vimwiki-cli/src/subcommand/convert.rs
@@ -34,6 +34,7 @@ pub fn convert(
                 let css_path =
                     wiki.path_html.join(HtmlWikiConfig::default_css_name());
                 debug!("Writing css to {:?}", css_path);
+                std::fs::create_dir_all(wiki.path_html.as_path())?;
                 std::fs::write(css_path, css::DEFAULT_STYLE_FILE)?;
             }
         }
@@ -66,6 +67,7 @@ pub fn convert(
             let wiki = config.runtime.to_tmp_wiki();
             let css_path = wiki.path_html.join("style.css");
             debug!("Writing css to {:?}", css_path);
+            std::fs::create_dir_all(wiki.path_html.as_path())?;
             std::fs::write(css_path, css::DEFAULT_STYLE_FILE)?;
         }
     }
-- 
2.43.0


From a86c1440bacd6741a798563ae1c539393a3448a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:11 +0000
Subject: [PATCH 30/33] fix: fill template variables in one pass

Variables were replaced one after the other, so a title that contains %content%
or %date% had those replaced as well.
---
 vimwiki-core/src/lang/output/html/convert.rs | 99 ++++++++++++--------
 1 file changed, 61 insertions(+), 38 deletions(-)

diff --git a/vimwiki-core/src/lang/output/html/convert.rs b/vimwiki-core/src/lang/output/html/convert.rs
index c88d180..8d04dea 100644
--- a/vimwiki-core/src/lang/output/html/convert.rs
+++ b/vimwiki-core/src/lang/output/html/convert.rs
@@ -65,47 +65,70 @@ impl<T: Output<HtmlFormatter>> ToHtmlPage for T {
             .unwrap_or_else(|| formatter.config().template.text.to_string());
 
         // Fill in template variables
-        // NOTE: Content is filled in last so we don't replace parts of content
-        //       with template variable contents as template variables only
-        //       apply to the template and not the content itself
-        let template = template
-            .replace("%title%", &title)
-            .replace("%date%", &date.to_string())
-            .replace(
-                "%root_path%",
-                {
-                    let path_str = utils::path_to_uri_string(
-                        formatter
-                            .config()
-                            .to_active_page_path_to_wiki_root()
-                            .as_path(),
-                    );
-
-                    if path_str.is_empty() {
-                        String::new()
-                    } else {
-                        format!("{}/", path_str)
-                    }
-                }
-                .as_str(),
-            )
-            .replace(
-                "%wiki_path%",
-                &utils::path_to_uri_string(
-                    formatter.config().as_active_page_path_within_wiki(),
-                ),
-            )
-            .replace(
-                "%css%",
-                formatter.config().to_current_wiki().css_name.as_str(),
-            )
-            .replace("%encoding%", "utf-8")
-            .replace("%content%", formatter.get_content());
-
-        Ok(template)
+        let date = date.to_string();
+        let root_path = {
+            let path_str = utils::path_to_uri_string(
+                formatter
+                    .config()
+                    .to_active_page_path_to_wiki_root()
+                    .as_path(),
+            );
+
+            if path_str.is_empty() {
+                String::new()
+            } else {
+                format!("{}/", path_str)
+            }
+        };
+        let wiki_path = utils::path_to_uri_string(
+            formatter.config().as_active_page_path_within_wiki(),
+        );
+        let wiki = formatter.config().to_current_wiki();
+
+        Ok(fill_template(&template, |name| match name {
+            "title" => Some(title.as_str()),
+            "date" => Some(date.as_str()),
+            "root_path" => Some(root_path.as_str()),
+            "wiki_path" => Some(wiki_path.as_str()),
+            "css" => Some(wiki.css_name.as_str()),
+            "encoding" => Some("utf-8"),
+            "content" => Some(formatter.get_content()),
+            _ => None,
+        }))
     }
 }
 
+/// Replaces each `%name%` of a template that has a value by that value
+///
+/// This is one pass over the template as template variables only apply to the
+/// template itself, never to what another variable (such as the title or the
+/// content) was replaced with
+fn fill_template<'a>(
+    template: &str,
+    value: impl Fn(&str) -> Option<&'a str>,
+) -> String {
+    let mut filled = String::new();
+    let mut rest = template;
+
+    while let Some((before, after)) = rest.split_once('%') {
+        // A percent sign that starts no known variable stands for itself
+        let (text, tail) = match after.split_once('%') {
+            Some((name, tail)) => match value(name) {
+                Some(text) => (text, tail),
+                None => ("%", after),
+            },
+            None => ("%", after),
+        };
+
+        filled.push_str(before);
+        filled.push_str(text);
+        rest = tail;
+    }
+
+    filled.push_str(rest);
+    filled
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From b78516b0af97498fa79178c296992d217d4f4364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:11 +0000
Subject: [PATCH 31/33] fix: escape the title of an html page

The title of a page is text of the document (or the name of its file), which must
not become markup.
---
 vimwiki-core/src/lang/output/html/convert.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vimwiki-core/src/lang/output/html/convert.rs b/vimwiki-core/src/lang/output/html/convert.rs
index 8d04dea..a2fb0d6 100644
--- a/vimwiki-core/src/lang/output/html/convert.rs
+++ b/vimwiki-core/src/lang/output/html/convert.rs
@@ -1,5 +1,6 @@
 use super::{utils, HtmlConfig, HtmlFormatter, HtmlOutputError, Output};
 use chrono::Local;
+use voca_rs::escape;
 
 pub trait ToHtmlString {
     /// Converts to individual HTML dom string
@@ -65,6 +66,7 @@ impl<T: Output<HtmlFormatter>> ToHtmlPage for T {
             .unwrap_or_else(|| formatter.config().template.text.to_string());
 
         // Fill in template variables
+        let title = escape::escape_html(&title);
         let date = date.to_string();
         let root_path = {
             let path_str = utils::path_to_uri_string(
-- 
2.43.0


From 987e57ddd5dde8b3f66ed0fb9738432836e88ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 32/33] fix: forget headers of an earlier section when a header
 of a shallower level is written to HTML

---
 vimwiki-core/src/lang/output/html/formatter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vimwiki-core/src/lang/output/html/formatter.rs b/vimwiki-core/src/lang/output/html/formatter.rs
index 460864c..a89cb5a 100644
--- a/vimwiki-core/src/lang/output/html/formatter.rs
+++ b/vimwiki-core/src/lang/output/html/formatter.rs
@@ -63,12 +63,14 @@ impl HtmlFormatter {
     }
 
     /// Inserts text for the header at the given level to be remembered when
-    /// keeping track of the last header seen at a given level
+    /// keeping track of the last header seen at a given level; headers at
+    /// deeper levels belong to an earlier section and are forgotten
     pub fn insert_header_text<Text: Into<String>>(
         &mut self,
         level: usize,
         text: Text,
     ) {
+        self.last_seen_headers.retain(|l, _| *l < level);
         self.last_seen_headers.insert(level, text.into());
     }
 
-- 
2.43.0


From ca0aa0e55f496a9b8b0c8ca7d520932dee019a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:03 +0000
Subject: [PATCH 33/33] fix: encode colons in the path of a resolved link,
 where a first segment holding one is no relative reference

---
 vimwiki-core/src/lang/output/html/utils.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vimwiki-core/src/lang/output/html/utils.rs b/vimwiki-core/src/lang/output/html/utils.rs
index 2c91971..b0492f3 100644
--- a/vimwiki-core/src/lang/output/html/utils.rs
+++ b/vimwiki-core/src/lang/output/html/utils.rs
@@ -365,6 +365,7 @@ const URI_PATH: &AsciiSet = &CONTROLS
     .add(b' ')
     .add(b'"')
     .add(b'#')
+    .add(b':')
     .add(b'<')
     .add(b'>')
     .add(b'?')
-- 
2.43.0

