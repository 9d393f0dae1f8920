From 0150798aea330686a9840e72927a5d13d4ab4c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:04 +0000
Subject: [PATCH 01/17] Add verification hooks for identifier construction (cfg
 hun_law_verif)

---
 src/identifier/numeric.rs             |  8 ++++++++
 src/identifier/prefixed_alphabetic.rs | 11 +++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/identifier/numeric.rs b/src/identifier/numeric.rs
index 57fb40b..c7ecb8d 100644
--- a/src/identifier/numeric.rs
+++ b/src/identifier/numeric.rs
@@ -183,6 +183,14 @@ impl Display for NumericIdentifierWithSlash {
     }
 }
 
+/// Verification hook: construction from parts.
+#[cfg(hun_law_verif)]
+impl NumericIdentifier {
+    pub fn verif_new(num: u16, suffix: Option<HungarianIdentifierChar>) -> Self {
+        Self { num, suffix }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use pretty_assertions::assert_eq;
diff --git a/src/identifier/prefixed_alphabetic.rs b/src/identifier/prefixed_alphabetic.rs
index 69dcf49..b640f85 100644
--- a/src/identifier/prefixed_alphabetic.rs
+++ b/src/identifier/prefixed_alphabetic.rs
@@ -117,6 +117,17 @@ impl CompactString for PrefixedAlphabeticIdentifier {
     }
 }
 
+/// Verification hook: construction from parts.
+#[cfg(hun_law_verif)]
+impl PrefixedAlphabeticIdentifier {
+    pub fn verif_new(
+        prefix: Option<HungarianIdentifierChar>,
+        chr: HungarianIdentifierChar,
+    ) -> Self {
+        Self { prefix, chr }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From dc483a898277c37db691ba87146ac4c042c7ae16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:04 +0000
Subject: [PATCH 02/17] fix: identifier 0 does not follow the largest number or
 book

wrapping_sub made '0' the successor of '65535' and book 0 the successor of book 255.
---
 src/identifier/article.rs | 2 +-
 src/identifier/numeric.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/identifier/article.rs b/src/identifier/article.rs
index 171416f..69ef51c 100644
--- a/src/identifier/article.rs
+++ b/src/identifier/article.rs
@@ -44,7 +44,7 @@ impl IdentifierCommon for ArticleIdentifier {
         match (self.book, other.book) {
             (None, None) => self.identifier.is_next_from(other.identifier),
             (Some(bs), Some(bo)) if bs == bo => self.identifier.is_next_from(other.identifier),
-            (Some(bs), Some(bo)) if bs.wrapping_sub(bo) == 1 => self.identifier.is_first(),
+            (Some(bs), Some(bo)) if bs.checked_sub(bo) == Some(1) => self.identifier.is_first(),
             _ => false,
         }
     }
diff --git a/src/identifier/numeric.rs b/src/identifier/numeric.rs
index c7ecb8d..a866baa 100644
--- a/src/identifier/numeric.rs
+++ b/src/identifier/numeric.rs
@@ -92,7 +92,7 @@ impl NumericIdentifier {
 impl IdentifierCommon for NumericIdentifier {
     fn is_next_from(&self, other: Self) -> bool {
         match (self.suffix, other.suffix) {
-            (None, _) => self.num.wrapping_sub(other.num) == 1,
+            (None, _) => self.num.checked_sub(other.num) == Some(1),
             (Some(ss), None) => self.num == other.num && ss.is_first(),
             (Some(ss), Some(so)) => self.num == other.num && ss.is_next_from(so),
         }
-- 
2.43.0


From 0bdfb5a4f8f87145fa0acea82a718459dcdd5666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:53 +0000
Subject: [PATCH 03/17] fix: displaying an act identifier does not panic
 outside the roman range

---
 src/identifier/act.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/identifier/act.rs b/src/identifier/act.rs
index f71eb21..bd5d82e 100644
--- a/src/identifier/act.rs
+++ b/src/identifier/act.rs
@@ -33,12 +33,11 @@ pub struct ActIdentifier {
 
 impl Display for ActIdentifier {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(
-            f,
-            "{:?}. évi {}. törvény",
-            self.year,
-            roman::to(self.number).unwrap()
-        )
+        match roman::to(self.number) {
+            Some(number) => write!(f, "{:?}. évi {}. törvény", self.year, number),
+            // Roman numerals only exist for 1..=3999
+            None => self.fmt_compact_string(f),
+        }
     }
 }
 
-- 
2.43.0


From b5128b09ff94f01dd4bede96a78d6677c823b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:28 +0000
Subject: [PATCH 04/17] fix: a reference with lower parts is not the parent of
 one with other upper parts
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

is_parent_of looked only at the first part that differs: '1. § a) pontja' was reported as the
parent of '1. § (2) bekezdés b) pontja', and contains() with it.
---
 src/reference/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/reference/mod.rs b/src/reference/mod.rs
index 312c0f7..9e31112 100644
--- a/src/reference/mod.rs
+++ b/src/reference/mod.rs
@@ -248,16 +248,20 @@ impl Reference {
     }
 
     pub fn is_parent_of(&self, other: &Reference) -> bool {
+        // The parent has nothing below the point where it stops being the same as the child
+        let subpoint_none = self.subpoint.is_none();
+        let point_none = self.point.is_none() && subpoint_none;
+        let paragraph_none = self.paragraph.is_none() && point_none;
         if self.act != other.act {
             false
         } else if self.article != other.article {
-            self.article.is_none()
+            self.article.is_none() && paragraph_none
         } else if self.paragraph != other.paragraph {
-            self.paragraph.is_none()
+            paragraph_none
         } else if self.point != other.point {
-            self.point.is_none()
+            point_none
         } else if self.subpoint != other.subpoint {
-            self.subpoint.is_none()
+            subpoint_none
         } else {
             false
         }
-- 
2.43.0


From 2808381bdba5edd7d36a18ec7051b5fb4f0347f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:10 +0000
Subject: [PATCH 05/17] fix: slicing a line from its end gives an empty line
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

slice_bytes() panicked when 'from' was the length of the line, which parse_header() asks for
whenever nothing follows the header ('1. § ').
---
 src/util/indentedline.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/util/indentedline.rs b/src/util/indentedline.rs
index 6263f72..6cb81e7 100644
--- a/src/util/indentedline.rs
+++ b/src/util/indentedline.rs
@@ -125,21 +125,18 @@ impl IndentedLine {
     }
 
     pub fn slice_bytes(&self, from: usize, to: Option<usize>) -> IndentedLine {
-        let chars_from = self
-            .content()
-            .char_indices()
-            .position(|(cp, _)| cp == from)
-            .unwrap() as i64;
-        let chars_to = to.map(|to_inner| {
-            if to_inner >= self.content().as_bytes().len() {
+        let to_char_index = |byte_index: usize| {
+            if byte_index >= self.content().as_bytes().len() {
                 self.content().chars().count() as i64
             } else {
                 self.content()
                     .char_indices()
-                    .position(|(cp, _)| cp == to_inner)
+                    .position(|(cp, _)| cp == byte_index)
                     .unwrap() as i64
             }
-        });
+        };
+        let chars_from = to_char_index(from);
+        let chars_to = to.map(to_char_index);
         self.slice(chars_from, chars_to)
     }
 
-- 
2.43.0


From af48db0d27e11e3e7cab339eb8e79b4b8cddafdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:53 +0000
Subject: [PATCH 06/17] fix: an article with nothing after its header or title
 does not panic
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'1. § ' and '1. § [Title]' at the end of an act (or before the next header) indexed an empty
list of lines. Such an article now has one empty paragraph.
---
 src/parser/structure/article.rs |  2 +-
 src/parser/structure/sae.rs     | 12 ++++++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/parser/structure/article.rs b/src/parser/structure/article.rs
index facfa47..decb5a0 100644
--- a/src/parser/structure/article.rs
+++ b/src/parser/structure/article.rs
@@ -102,7 +102,7 @@ impl ArticleParser {
         // amendment in 2013. évi CCLII. törvény 185. § (18)
         // There can only be at most 1 consecutive EMPTY_LINE because of previous
         // preprocessing in the PDF extractor.
-        if self.lines[0].is_empty() {
+        if self.lines.first().map_or(false, |l| l.is_empty()) {
             self.lines.remove(0);
         }
         let extracted = ParagraphParser.extract_multiple(
diff --git a/src/parser/structure/sae.rs b/src/parser/structure/sae.rs
index a17d1ec..42affcc 100644
--- a/src/parser/structure/sae.rs
+++ b/src/parser/structure/sae.rs
@@ -172,9 +172,13 @@ pub trait SAEParser: Debug {
     where
         T: From<Vec<SubArticleElement<Self::IdentifierType, Self::ChildrenType>>>,
     {
-        let (mut identifier, first_line_rest) = self
-            .parse_header(&lines[0])
-            .ok_or_else(|| anyhow!("Invalid header for {self:?}: '{}'", lines[0].content()))?;
+        let first_line = lines
+            .first()
+            .ok_or_else(|| anyhow!("No lines to parse for {self:?}"))?;
+        let (mut identifier, first_line_rest) =
+            self.parse_header(first_line).ok_or_else(|| {
+                anyhow!("Invalid header for {self:?}: '{}'", first_line.content())
+            })?;
         if let Some(ei) = expected_identifier {
             ensure!(
                 identifier == ei,
@@ -187,7 +191,7 @@ pub trait SAEParser: Debug {
         quote_checker.update(&first_line_rest)?;
         let mut elements: Vec<_> = Vec::new();
         let mut body: Vec<IndentedLine> = vec![first_line_rest];
-        let header_indent = lines[0].indent();
+        let header_indent = first_line.indent();
 
         for line in &lines[1..] {
             quote_checker.update(line)?;
-- 
2.43.0


From 93cd5d15215204160276f3c17511035f07c43301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:47 +0000
Subject: [PATCH 07/17] fix: replacing the only character of a line keeps its
 characters in order

---
 src/fixups.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fixups.rs b/src/fixups.rs
index ace4bfe..c0611f7 100644
--- a/src/fixups.rs
+++ b/src/fixups.rs
@@ -186,7 +186,7 @@ impl Fixup {
             REPLACEMENT_FAKE_WIDTH
         } else {
             // Complete replacement
-            line.indent_at(10000)
+            line.indent_at(10000) + REPLACEMENT_FAKE_WIDTH
         };
 
         let replacement_str_len =
-- 
2.43.0


From a53c4bb95e8e7765927f22392dadfb41665a812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:15 +0000
Subject: [PATCH 08/17] fix: an act header after several empty lines starts an
 act

---
 src/parser/mk_act_section.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/mk_act_section.rs b/src/parser/mk_act_section.rs
index 3a3c9ce..2d3f2b0 100644
--- a/src/parser/mk_act_section.rs
+++ b/src/parser/mk_act_section.rs
@@ -91,6 +91,10 @@ impl ActExtractor {
     }
 
     fn wait_for_header(&mut self, line: &IndentedLine) -> ActExtractionState {
+        if line.is_empty() {
+            // Page boundaries may produce multiple empty lines
+            return WaitingForHeader;
+        }
         if let Some((_, year_str, num_str)) = regex_captures!(
             "^([12][09][0-9][0-9]). évi ([IVXLC]+). törvény",
             line.content()
-- 
2.43.0


From 1eb62fb4e70f6fd2779f0a56c79d5d08df2f25a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:27 +0000
Subject: [PATCH 09/17] fix: text output narrower than its indentation does not
 panic

---
 src/output/text.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/output/text.rs b/src/output/text.rs
index a31c9fd..8e9b79a 100644
--- a/src/output/text.rs
+++ b/src/output/text.rs
@@ -303,7 +303,8 @@ impl TextOutputParams {
     }
 
     fn write_wrapped_line(&mut self, writer: &mut impl Write, text: &str) -> Result<()> {
-        for line in textwrap::wrap(text, self.width - self.indentation_level * 5) {
+        let width = self.width.saturating_sub(self.indentation_level * 5);
+        for line in textwrap::wrap(text, width) {
             self.write_indent_if_needed(writer)?;
             writer.write_all(line.as_bytes())?;
             self.write_newline(writer)?;
-- 
2.43.0


From ce3c40072df4fd715875e60c964764d3d897175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:26 +0000
Subject: [PATCH 10/17] fix: a block amendment that cannot be converted keeps
 its intro

---
 src/parser/structure/block_amendment.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/parser/structure/block_amendment.rs b/src/parser/structure/block_amendment.rs
index 38d2aa7..154ec6b 100644
--- a/src/parser/structure/block_amendment.rs
+++ b/src/parser/structure/block_amendment.rs
@@ -77,25 +77,25 @@ impl Paragraph {
             if let Some(special_phrase) = &self.semantic_info.special_phrase {
                 match special_phrase {
                     SpecialPhrase::BlockAmendment(ba) => {
+                        // The quoted block has to stay intact if the conversion fails.
+                        let amendment_children =
+                            convert_simple_block_amendment(&ba.position, &quoted_block.lines)
+                                .with_context(|| "Could not parse simple block amendment")?;
                         *children = BlockAmendment {
                             intro: std::mem::take(&mut quoted_block.intro),
-                            children: convert_simple_block_amendment(
-                                &ba.position,
-                                &quoted_block.lines,
-                            )
-                            .with_context(|| "Could not parse simple block amendment")?,
+                            children: amendment_children,
                             wrap_up: std::mem::take(&mut quoted_block.wrap_up),
                         }
                         .into()
                     }
                     SpecialPhrase::StructuralBlockAmendment(sba) => {
+                        // The quoted block has to stay intact if the conversion fails.
+                        let amendment_children =
+                            convert_structural_block_amendment(&sba.position, &quoted_block.lines)
+                                .with_context(|| "Could not parse structural block amendment")?;
                         *children = StructuralBlockAmendment {
                             intro: std::mem::take(&mut quoted_block.intro),
-                            children: convert_structural_block_amendment(
-                                &sba.position,
-                                &quoted_block.lines,
-                            )
-                            .with_context(|| "Could not parse structural block amendment")?,
+                            children: amendment_children,
                             wrap_up: std::mem::take(&mut quoted_block.wrap_up),
                         }
                         .into()
-- 
2.43.0


From 6f7467c329ec47c5e4dbca4c60d9d8b4e1a0fb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:40 +0000
Subject: [PATCH 11/17] fix: quoted article headers in a block amendment do not
 start an article

---
 src/parser/structure/block_amendment.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser/structure/block_amendment.rs b/src/parser/structure/block_amendment.rs
index 154ec6b..f613d22 100644
--- a/src/parser/structure/block_amendment.rs
+++ b/src/parser/structure/block_amendment.rs
@@ -38,7 +38,7 @@ use crate::{
         Act, ActChild, Article, BlockAmendment, BlockAmendmentChildren, Paragraph,
         ParagraphChildren, SAEBody, StructuralBlockAmendment, StructuralElementType,
     },
-    util::{debug::WithElemContext, indentedline::IndentedLine},
+    util::{debug::WithElemContext, indentedline::IndentedLine, QuoteCheck},
 };
 
 impl Act {
@@ -183,19 +183,29 @@ fn convert_simple_block_amendment(
 fn convert_articles(first_id: ArticleIdentifier, lines: &[IndentedLine]) -> Result<Vec<ActChild>> {
     let mut factory = ArticleParserFactory::new(ParsingContext::BlockAmendment);
     let mut result = Vec::new();
+    let mut quote_checker = QuoteCheck::default();
+    quote_checker.update(&lines[0])?;
     let mut parser = factory
         .try_create_from_header(&lines[0], Some(first_id))
         .with_context(|| {
             anyhow!("First line of amendment could not be parsed into an article header",)
         })?;
     for line in &lines[1..] {
-        if let Ok(new_parser) = factory.try_create_from_header(line, None) {
+        quote_checker.update(line)?;
+        // Headers inside quotes belong to the text of the current article
+        let new_parser = if quote_checker.beginning_is_quoted {
+            None
+        } else {
+            factory.try_create_from_header(line, None).ok()
+        };
+        if let Some(new_parser) = new_parser {
             result.push(parser.finish()?.into());
             parser = new_parser;
         } else {
             parser.feed_line(line);
         }
     }
+    quote_checker.check_end()?;
     result.push(parser.finish()?.into());
     Ok(result)
 }
-- 
2.43.0


From 8754cbde4a0c2f77c2c11cc6c3c126273b720174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:40 +0000
Subject: [PATCH 12/17] fix: a structural block amendment without lines does
 not panic

---
 src/parser/structure/block_amendment.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/structure/block_amendment.rs b/src/parser/structure/block_amendment.rs
index f613d22..4268837 100644
--- a/src/parser/structure/block_amendment.rs
+++ b/src/parser/structure/block_amendment.rs
@@ -112,6 +112,8 @@ fn convert_structural_block_amendment(
     position: &StructuralReference,
     lines: &[IndentedLine],
 ) -> Result<Vec<ActChild>> {
+    ensure!(!lines.is_empty());
+
     if let StructuralReferenceElement::Article(article_id) = position.structural_element {
         convert_articles(article_id.first_in_range(), lines)
     } else if position.title_only {
-- 
2.43.0


From 5ca807f14317432dad3ccdd7a34a36684c299683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:08 +0000
Subject: [PATCH 13/17] fix: restoring the graphics state restores the boldness
 and space width of the font

---
 src/parser/pdf/page.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index 71b0b6e..4b932f0 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -138,6 +138,15 @@ where
         Ok(())
     }
 
+    fn restore_state(&mut self, state: TextState) -> Result<()> {
+        // The collector also depends on the current font
+        if let Some(font) = &state.font {
+            self.collector.font_changed(font)?;
+        }
+        self.state = state;
+        Ok(())
+    }
+
     fn handle_xobject(&mut self, name: Name) -> Result<()> {
         let resources = self.resources()?;
         let xobject_ref = resources
@@ -165,10 +174,11 @@ where
         }
 
         // Load back the stuff
-        self.state = self
+        let saved_state = self
             .state_stack
             .pop()
             .ok_or_else(|| anyhow!("State stack empty after Form rendering"))?;
+        self.restore_state(saved_state)?;
         self.resources = saved_resources;
         Ok(())
     }
@@ -201,10 +211,11 @@ where
             // --- State stack ---
             Op::Save => self.state_stack.push(self.state.clone()),
             Op::Restore => {
-                self.state = self
+                let saved_state = self
                     .state_stack
                     .pop()
-                    .ok_or_else(|| anyhow!("State stack empty"))?
+                    .ok_or_else(|| anyhow!("State stack empty"))?;
+                self.restore_state(saved_state)?;
             }
 
             // --- Font stuff ---
-- 
2.43.0


From 70270c8bb3fdf019c2dad13a9e0dd5edf935566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:28 +0000
Subject: [PATCH 14/17] fix: fonts of different pages are not mixed up by the
 font cache

---
 src/parser/pdf/font.rs | 13 +++++++------
 src/parser/pdf/page.rs |  8 ++++----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index 1d0fc34..f00ba0d 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -23,7 +23,7 @@ use anyhow::{anyhow, bail, Result};
 use pdf::{
     encoding::{BaseEncoding, Encoding as PdfEncoding},
     font::{Font, FontData, ToUnicodeMap, Widths},
-    object::Resolve,
+    object::{Resolve, Shared},
 };
 use pdf_encoding::glyphname_to_unicode;
 
@@ -155,17 +155,18 @@ impl FastFont {
 
 #[derive(Debug, Default)]
 pub struct FontCache {
-    cache: HashMap<usize, Rc<FastFont>>,
+    // The original font is kept alive, so that its address cannot be reused by another font
+    cache: HashMap<usize, (Shared<Font>, Rc<FastFont>)>,
 }
 
 impl FontCache {
-    pub fn get(&mut self, font: &Font, resolve: &impl Resolve) -> Result<Rc<FastFont>> {
-        let entry = self.cache.entry(font as *const Font as usize);
+    pub fn get(&mut self, font: &Shared<Font>, resolve: &impl Resolve) -> Result<Rc<FastFont>> {
+        let entry = self.cache.entry(Shared::as_ptr(font) as usize);
         Ok(match entry {
-            hash_map::Entry::Occupied(e) => e.get().clone(),
+            hash_map::Entry::Occupied(e) => e.get().1.clone(),
             hash_map::Entry::Vacant(e) => {
                 let fast_font = Rc::new(FastFont::convert(font, resolve)?);
-                e.insert(fast_font).clone()
+                e.insert((font.clone(), fast_font)).1.clone()
             }
         })
     }
diff --git a/src/parser/pdf/page.rs b/src/parser/pdf/page.rs
index 4b932f0..ce43ddf 100644
--- a/src/parser/pdf/page.rs
+++ b/src/parser/pdf/page.rs
@@ -21,7 +21,7 @@ use euclid::Transform2D;
 use pdf::{
     content::{Op, TextDrawAdjusted},
     font::Font,
-    object::{MaybeRef, PageRc, Resolve, Resources, XObject},
+    object::{MaybeRef, PageRc, Resolve, Resources, Shared, XObject},
     primitive::{Name, PdfString},
 };
 
@@ -130,7 +130,7 @@ where
         Ok(())
     }
 
-    fn set_font(&mut self, font: &Font, size: f32) -> Result<()> {
+    fn set_font(&mut self, font: &Shared<Font>, size: f32) -> Result<()> {
         let fast_font = self.font_cache.get(font, self.pdf_file)?;
         self.collector.font_changed(&fast_font)?;
         self.state.font = Some(fast_font);
@@ -227,7 +227,7 @@ where
                     .ok_or_else(|| anyhow!("Did not find graphics state resource"))?
                     .font
                 {
-                    self.set_font(&*self.pdf_file.get(font_ref)?, size)?;
+                    self.set_font(self.pdf_file.get(font_ref)?.data(), size)?;
                 }
             }
             Op::TextFont { name, size } => {
@@ -236,7 +236,7 @@ where
                     .fonts
                     .get(&name)
                     .ok_or_else(|| anyhow!("Did not find font resource"))?;
-                self.set_font(font, size)?;
+                self.set_font(font.data(), size)?;
             }
 
             // --- Positioning ---
-- 
2.43.0


From a56f32af4d6dc8038e5a82d0ca08346d794c2d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:42 +0000
Subject: [PATCH 15/17] fix: the last code of a simple font encoding is not
 dropped

---
 src/parser/pdf/font.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/pdf/font.rs b/src/parser/pdf/font.rs
index f00ba0d..e1f34e5 100644
--- a/src/parser/pdf/font.rs
+++ b/src/parser/pdf/font.rs
@@ -80,7 +80,7 @@ impl FastFont {
             BaseEncoding::MacRomanEncoding => self.process_base_encoding(&pdf_encoding::MACROMAN),
             BaseEncoding::WinAnsiEncoding => {
                 let mut tmp = [0u8; 4];
-                for cid in 0..255 {
+                for cid in 0..=255 {
                     if let Some(c) = pdf_encoding::WINANSI.get(cid) {
                         self.add_mapping(cid as u32, c.encode_utf8(&mut tmp));
                     } else if cid > 30 {
@@ -110,7 +110,7 @@ impl FastFont {
 
     fn process_base_encoding(&mut self, map: &pdf_encoding::ForwardMap) {
         let mut tmp = [0u8; 4];
-        for cid in 0..255 {
+        for cid in 0..=255 {
             if let Some(c) = map.get(cid) {
                 self.add_mapping(cid as u32, c.encode_utf8(&mut tmp));
             }
-- 
2.43.0


From 53120d856055a4bf3cce934d5b4f399e25c4427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 16/17] fix: require the dots in Hungarian dates
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The unescaped dots of the date pattern matched any character, so a date
with its last dot missing was read with a digit dropped: "2013. május 50"
as May 5.
---
 src/util/hun_str.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/hun_str.rs b/src/util/hun_str.rs
index 73047ee..5b32a5c 100644
--- a/src/util/hun_str.rs
+++ b/src/util/hun_str.rs
@@ -29,7 +29,7 @@ pub trait ToHungarianString {
 impl FromHungarianString for NaiveDate {
     fn from_hungarian(s: &str) -> Result<Self> {
         // This is not a performance critical part, so I won't bother with 'optimizing' this regex
-        let (_, year, month, day) = regex_captures!(r"^(\d{4}). ([^ ]+) (\d{1,2}).", s)
+        let (_, year, month, day) = regex_captures!(r"^(\d{4})\. ([^ ]+) (\d{1,2})\.", s)
             .ok_or_else(|| anyhow!("Could not parse date string {s}"))?;
 
         NaiveDate::from_ymd_opt(
-- 
2.43.0


From 067bf5443bfc3dfe6ea6f4d38a1c3577cbd39afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 17/17] fix: require the dots in the headers of acts
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The unescaped dots matched any character, so a header with the dot missing
after the number lost the last digit of it: "2012. évi XIV törvény" was
read as act XI.
---
 src/parser/mk_act_section.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/mk_act_section.rs b/src/parser/mk_act_section.rs
index 2d3f2b0..ffcc6db 100644
--- a/src/parser/mk_act_section.rs
+++ b/src/parser/mk_act_section.rs
@@ -96,7 +96,7 @@ impl ActExtractor {
             return WaitingForHeader;
         }
         if let Some((_, year_str, num_str)) = regex_captures!(
-            "^([12][09][0-9][0-9]). évi ([IVXLC]+). törvény",
+            r"^([12][09][0-9][0-9])\. évi ([IVXLC]+)\. törvény",
             line.content()
         ) {
             if let Ok(year) = year_str.parse::<i16>() {
@@ -233,7 +233,7 @@ pub fn parse_mk_pages_into_acts(pages: &[PageOfLines]) -> Result<Vec<ActRawText>
             // Thanks MK 2021/97 for your no act section error.
             if !seen_a_proper_header
                 && line.is_bold()
-                && regex_is_match!("[0-9]+. évi [CLXVI]+. törvény", line.content())
+                && regex_is_match!(r"[0-9]+\. évi [CLXVI]+\. törvény", line.content())
             {
                 extracting = true;
             };
-- 
2.43.0

