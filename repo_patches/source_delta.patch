From c398e216192e39a03e43bc0358759646292ce7ce Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 01/26] fix: block parsing never terminated for an anchor or
 literal style without a block, or a line of unusual white space

---
 parser/src/blocks/block.rs       | 51 ++++++++++++++++----------------
 parser/src/blocks/metadata.rs    |  4 +--
 parser/src/blocks/parse_utils.rs |  5 ++++
 3 files changed, 33 insertions(+), 27 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 6d43cb1..b0470a5 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -284,32 +284,33 @@ impl<'src> Block<'src> {
                     warnings,
                 };
             }
+        }
 
-            // First, let's look for a fun edge case. Perhaps the text contains block
-            // metadata but no block immediately following. If we're not careful, we could
-            // spin in a loop (for example, `parse_blocks_until`) thinking there will be
-            // another block, but there isn't.
-
-            // The following check disables that spin loop.
-            let simple_block_mi = SimpleBlock::parse(&metadata, parser);
-
-            if simple_block_mi.is_none() && !metadata.is_empty() {
-                // We have a metadata with no block. Treat it as a simple block but issue a
-                // warning.
-
-                warnings.push(Warning {
-                    source: metadata.source,
-                    warning: WarningType::MissingBlockAfterTitleOrAttributeList,
-                });
-
-                // Remove the metadata content so that SimpleBlock will read the title/attrlist
-                // line(s) as regular content.
-                metadata.title_source = None;
-                metadata.title = None;
-                metadata.anchor = None;
-                metadata.attrlist = None;
-                metadata.block_start = metadata.source;
-            }
+        // First, let's look for a fun edge case. Perhaps the text contains block
+        // metadata but no block immediately following. If we're not careful, we could
+        // spin in a loop (for example, `parse_blocks_until`) thinking there will be
+        // another block, but there isn't.
+
+        // The following check disables that spin loop.
+        let simple_block_mi = SimpleBlock::parse(&metadata, parser);
+
+        if simple_block_mi.is_none() && !metadata.is_empty() {
+            // We have a metadata with no block. Treat it as a simple block but issue a
+            // warning.
+
+            warnings.push(Warning {
+                source: metadata.source,
+                warning: WarningType::MissingBlockAfterTitleOrAttributeList,
+            });
+
+            // Remove the metadata content so that SimpleBlock will read the title/attrlist
+            // line(s) as regular content.
+            metadata.title_source = None;
+            metadata.title = None;
+            metadata.anchor = None;
+            metadata.anchor_reftext = None;
+            metadata.attrlist = None;
+            metadata.block_start = metadata.source;
         }
 
         // If no other block kind matches, we can always use SimpleBlock.
diff --git a/parser/src/blocks/metadata.rs b/parser/src/blocks/metadata.rs
index dc0df46..9590dbc 100644
--- a/parser/src/blocks/metadata.rs
+++ b/parser/src/blocks/metadata.rs
@@ -171,9 +171,9 @@ impl<'src> BlockMetadata<'src> {
         }
     }
 
-    /// Return `true` if both `title` and `attrlist` are empty.
+    /// Return `true` if none of `title`, `anchor`, and `attrlist` are present.
     pub(crate) fn is_empty(&self) -> bool {
-        self.title.is_none() && self.attrlist.is_none()
+        self.title.is_none() && self.anchor.is_none() && self.attrlist.is_none()
     }
 
     /// Return `true` if this block metadata has either the `discrete` or
diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index 269fec4..40766d8 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -34,6 +34,11 @@ where
         if let Some(mi) = maw.item {
             source = mi.after;
             blocks.push(mi.item);
+        } else {
+            // No block could be parsed here (for example, because the line consists
+            // solely of white space other than spaces and tabs). Skip the line so that
+            // we always make progress.
+            source = source.take_line().after.discard_empty_lines();
         }
     }
 
-- 
2.43.0


From 473b40004797fdc00adc994eb06be269aa62c580 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:16:44 +0000
Subject: [PATCH 02/26] fix: arithmetic underflow for a line that starts with
 white space where a section title may end a section

---
 parser/src/blocks/section.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index bba3540..c59ec11 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -292,6 +292,10 @@ fn parse_title_line<'src>(
         }
     }
 
+    if count == 0 {
+        return None;
+    }
+
     if count == 1 {
         warnings.push(Warning {
             source: source.take_normalized_line().item,
-- 
2.43.0


From cd7e9306227ae0c81e3b8c2a3a2798add65e0eca Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:16:45 +0000
Subject: [PATCH 03/26] fix: panics for inline image, link, and URL macros
 whose target is empty, single-character, or followed by an escaped >

---
 parser/src/content/macros.rs | 38 ++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 0217002..c523cf0 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -111,9 +111,11 @@ static INLINE_IMAGE_MACRO: LazyLock<Regex> = LazyLock::new(|| {
 
             (                           # Group 1: the target
                 [^:\s\[\n]                  # First char: not colon, whitespace, [, or newline
-                [^\[\n]*?                   # Middle chars: any except [ or newline, lazily
-                [^\s\[\n]                   # Last char: not whitespace, [, or newline
-            )?                          # Entire target group is optional
+                (?:
+                    [^\[\n]*?               # Middle chars: any except [ or newline, lazily
+                    [^\s\[\n]               # Last char: not whitespace, [, or newline
+                )?                          # (target may be a single char)
+            )
 
             \[                          # Opening square bracket
 
@@ -294,7 +296,12 @@ impl Replacer for InlineLinkReplacer<'_> {
 
         let mut target = format!(
             "{scheme}{link_text}",
-            link_text = caps.get(4).map(|m| m.as_str()).unwrap_or_else(|| &caps[7])
+            link_text = caps
+                .get(4)
+                .or_else(|| caps.get(6))
+                .or_else(|| caps.get(7))
+                .map(|m| m.as_str())
+                .unwrap_or_default()
         );
 
         let mut suffix = "".to_owned();
@@ -322,8 +329,12 @@ impl Replacer for InlineLinkReplacer<'_> {
                 return;
             }
 
-            let tail = &caps[8];
-            if tail == ";" || tail == ":" {
+            let tail = caps.get(8).map(|m| m.as_str()).unwrap_or_default();
+            if caps.get(6).is_some() {
+                // The URL is followed by an escaped `>`, but wasn't preceded by an
+                // escaped `<`. The `>` isn't part of the URL.
+                suffix = "&gt;".to_owned();
+            } else if tail == ";" || tail == ":" {
                 // Move trailing semicolon or colon and adjacent ) if it exists
                 // out of the URL.
                 target.truncate(target.len() - 1);
@@ -417,16 +428,13 @@ static INLINE_LINK_MACRO: LazyLock<Regex> = LazyLock::new(|| {
 
         :                       # Colon after macro name
 
-        (?:                     # Non-capturing outer group
-            ().                 #   capture group 2: empty target
-          | ([^:\s\[] [^\s\[]*) #   capture group 3: valid target (no colon/space/'[')
-        )
+        ([^:\s\[] [^\s\[]*)     # capture group 2: valid target (no colon/space/'[')
 
         \[                      # Opening square bracket
 
         (?:                     # Non-capturing outer group
-            ()                  #   capture group 4: empty label
-          | (.*?[^\\])          #   capture group 5: minimally match anything, not ending in '\'
+            ()                  #   capture group 3: empty label
+          | (.*?[^\\])          #   capture group 4: minimally match anything, not ending in '\'
         )
 
         \]                      # Closing square bracket
@@ -447,21 +455,21 @@ impl Replacer for InlineLinkMacroReplacer<'_> {
         }
 
         let (mailto, mailto_text, mut target) = if caps.get(1).is_some() {
-            let mailto_text = &caps[3];
+            let mailto_text = &caps[2];
             (
                 caps.get(1).map(|c| c.as_str()),
                 Some(mailto_text),
                 format!("mailto:{mailto_text}"),
             )
         } else {
-            (None, None, caps[3].to_string())
+            (None, None, caps[2].to_string())
         };
 
         let mut attrlist: Option<Attrlist<'_>> = None;
         let link_type = LinkRenderType::Link;
 
         let mut link_text = caps
-            .get(5)
+            .get(4)
             .map(|c| c.as_str().to_string())
             .unwrap_or_default();
 
-- 
2.43.0


From 1163f3b6769028779704eb21d87c2f108b510e26 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:16:45 +0000
Subject: [PATCH 04/26] fix: panics and misplaced text when a look-ahead
 rejects a monospace candidate

---
 parser/src/content/substitution_step.rs | 6 +++++-
 parser/src/internal/regex.rs            | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index 7215f7e..bce6581 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -316,7 +316,11 @@ impl LookaheadReplacer for QuoteReplacer<'_> {
             && self.scope == QuoteScope::Constrained
             && after.starts_with(['"', '\'', '`'])
         {
-            let skip_ahead = if caps[0].starts_with('\\') { 2 } else { 1 };
+            let skip_ahead = if caps[0].starts_with('\\') {
+                2
+            } else {
+                caps[0].chars().next().map_or(1, |c| c.len_utf8())
+            };
             dest.push_str(&caps[0][0..skip_ahead]);
             return LookaheadResult::SkipAheadAndRetry(skip_ahead);
         }
diff --git a/parser/src/internal/regex.rs b/parser/src/internal/regex.rs
index a5b0db7..d37ec25 100644
--- a/parser/src/internal/regex.rs
+++ b/parser/src/internal/regex.rs
@@ -37,6 +37,7 @@ pub fn replace_with_lookahead<'h, LR: LookaheadReplacer>(
                 LookaheadResult::SkipAheadAndRetry(n) => {
                     assert!(n > 0);
                     haystack = &haystack[m.start() + n..];
+                    last_match = 0;
                     continue 'retry;
                 }
             }
-- 
2.43.0


From 51179baad21c0220f4ccf97243de515457075c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 05/26] fix: a cyclic include exhausted the stack; limit
 include nesting to 64 as documented for max-include-depth

---
 parser/src/parser/preprocessor.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index c3fe096..06c5d5a 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -11,6 +11,10 @@ use crate::{
     warnings::Warning,
 };
 
+/// Maximum number of nested include files. An `include::` directive that would
+/// exceed this depth is not resolved. (This curtails infinite include loops.)
+const MAX_INCLUDE_DEPTH: usize = 64;
+
 /// Given a root file (initial input to `Parser::parse`), convert this into a
 /// `String` suitable for regular parsing and a `SourceMap` that maps line
 /// numbers in the parse-ready text back to original input file and line
@@ -130,10 +134,12 @@ impl<'p> PreprocessorState<'p> {
                     })
                     .unwrap_or_default();
 
-                if let Some(include_text) =
-                    self.parser.include_file_handler.as_ref().and_then(|ifh| {
-                        ifh.resolve_target(file_name, &target, &attrlist, self.parser)
-                    })
+                if let Some(include_text) = self
+                    .parser
+                    .include_file_handler
+                    .as_ref()
+                    .filter(|_| self.include_depth <= MAX_INCLUDE_DEPTH)
+                    .and_then(|ifh| ifh.resolve_target(file_name, &target, &attrlist, self.parser))
                 {
                     // TODO: Use process_adoc_include or (TBD) depending on
                     // whether it's an Asciidoc file type.
-- 
2.43.0


From a97f5d273407df8ebe5db90ab13ad52d915b4c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 06/26] fix: source map attributed an unresolved include
 directive to the wrong file or line

---
 parser/src/parser/preprocessor.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 06c5d5a..c1804b0 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -148,6 +148,14 @@ impl<'p> PreprocessorState<'p> {
                     // Re-report the including file if there's more content.
                     has_reported_file = false;
                 } else {
+                    if !has_reported_file {
+                        has_reported_file = true;
+                        self.source_map.append(
+                            self.output_line_number,
+                            SourceLine(to_owned(file_name), source_line_number),
+                        );
+                    }
+
                     self.output_line_number += 1;
                     self.output.push_str(&format!(
                         "Unresolved directive in {file_name} - {line}\n",
-- 
2.43.0


From d319fcaf055b4efe8a60b77647cc1b11b5ba4db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:05 +0000
Subject: [PATCH 07/26] fix: preprocessing dropped the blank line that ends a
 continued attribute entry

---
 parser/src/parser/preprocessor.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index c1804b0..1e766e5 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -3,7 +3,7 @@ use std::{borrow::Cow, sync::LazyLock};
 use regex::{Regex, Replacer};
 
 use crate::{
-    HasSpan, Parser, Span,
+    Parser, Span,
     attributes::{Attrlist, AttrlistContext},
     document::{Attribute, InterpretedValue},
     parser::{SourceLine, SourceMap},
@@ -105,12 +105,16 @@ impl<'p> PreprocessorState<'p> {
                 self.parser
                     .set_attribute_from_body(&attr.item, &mut warnings);
 
-                self.output.push_str(attr.item.span().data());
+                // The entry may span several lines. Carry all of them over, including a
+                // blank line that ends an explicit continuation.
+                let entry_source = original_source
+                    .trim_remainder(attr.after)
+                    .trim_trailing_line_end();
+
+                self.output.push_str(entry_source.data());
                 self.output.push('\n');
 
-                self.output_line_number += attr
-                    .item
-                    .span()
+                self.output_line_number += entry_source
                     .data()
                     .as_bytes()
                     .iter()
-- 
2.43.0


From d2325efabd13cccf73e4f9d673d1c3c745085c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:09 +0000
Subject: [PATCH 08/26] fix: appendix numbering, catalog, and section type of
 one document leaked into the next one parsed

---
 parser/src/parser/parser.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 12be260..654d472 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -117,12 +117,18 @@ impl Parser {
 
         // NOTE: `Document::parse` will transfer the catalog to itself at the end of the
         // parsing operation.
-        if self.catalog.is_none() {
-            self.catalog = Some(Catalog::new());
-        }
+        //
+        // Always start with an empty catalog. (A parser that was cloned or abandoned in
+        // mid-parse still holds the catalog of that other document.)
+        self.catalog = Some(Catalog::new());
 
         // Reset section numbering for each new document.
         self.last_section_number = SectionNumber::default();
+        self.last_appendix_section_number = SectionNumber {
+            section_type: SectionType::Appendix,
+            components: vec![],
+        };
+        self.topmost_section_type = SectionType::Normal;
 
         Document::parse(&preprocessed_source, source_map, self)
     }
-- 
2.43.0


From e73f91422aee039a0edb08436f57e2ec8cfaa343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:20 +0000
Subject: [PATCH 09/26] fix: assigning an API-restricted attribute where
 allowed lifted the restriction for later assignments

---
 parser/src/parser/parser.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 654d472..ee06b62 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -402,7 +402,10 @@ impl Parser {
 
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context: existing_attr
+                .map_or(ModificationContext::Anywhere, |existing_attr| {
+                    existing_attr.modification_context.clone()
+                }),
             value,
         };
 
@@ -440,8 +443,10 @@ impl Parser {
     ) {
         let attr_name = remap_attr_name(attr.name().data());
 
+        let existing_attr = self.attribute_values.get(&attr_name);
+
         // Verify that we have permission to overwrite any existing attribute value.
-        if let Some(existing_attr) = self.attribute_values.get(&attr_name)
+        if let Some(existing_attr) = existing_attr
             && (existing_attr.modification_context != ModificationContext::Anywhere
                 && existing_attr.modification_context != ModificationContext::ApiOrDocumentBody)
         {
@@ -454,7 +459,10 @@ impl Parser {
 
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context: existing_attr
+                .map_or(ModificationContext::Anywhere, |existing_attr| {
+                    existing_attr.modification_context.clone()
+                }),
             value: attr.value().clone(),
         };
 
-- 
2.43.0


From e022fd8027b40d58d488125d593b707e56a5b202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:38 +0000
Subject: [PATCH 10/26] fix: document title, author, and revision lines
 overwrote attributes locked through the API

---
 parser/src/parser/parser.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index ee06b62..fd3a3bd 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -422,10 +422,23 @@ impl Parser {
         value: V,
     ) {
         let attr_name = remap_attr_name(name);
+        let existing_attr = self.attribute_values.get(&attr_name);
+
+        // Values derived from the header (document title, author and revision lines)
+        // are subject to the same restrictions as attribute entries in the header.
+        if let Some(existing_attr) = existing_attr
+            && (existing_attr.modification_context == ModificationContext::ApiOnly
+                || existing_attr.modification_context == ModificationContext::ApiOrDocumentBody)
+        {
+            return;
+        }
 
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context: existing_attr
+                .map_or(ModificationContext::Anywhere, |existing_attr| {
+                    existing_attr.modification_context.clone()
+                }),
             value: InterpretedValue::Value(value.as_ref().to_owned()),
         };
 
-- 
2.43.0


From fbca1f35cb2fb79080e2a263e7a52eed232dda4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:54 +0000
Subject: [PATCH 11/26] fix: include targets ignored header assignments of
 attributes restricted to API or header

---
 parser/src/parser/preprocessor.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 1e766e5..39affbe 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -102,8 +102,13 @@ impl<'p> PreprocessorState<'p> {
                 }
 
                 let mut warnings: Vec<Warning> = vec![];
-                self.parser
-                    .set_attribute_from_body(&attr.item, &mut warnings);
+                if self.in_document_header {
+                    self.parser
+                        .set_attribute_from_header(&attr.item, &mut warnings);
+                } else {
+                    self.parser
+                        .set_attribute_from_body(&attr.item, &mut warnings);
+                }
 
                 // The entry may span several lines. Carry all of them over, including a
                 // blank line that ends an explicit continuation.
-- 
2.43.0


From 1c1bfb78e61d3e1b3faa28f8af54cad6650e5045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:06 +0000
Subject: [PATCH 12/26] fix: coverage report depended on the order in which the
 file system lists directories

---
 sdd/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdd/src/main.rs b/sdd/src/main.rs
index af5d48b..89f3e86 100644
--- a/sdd/src/main.rs
+++ b/sdd/src/main.rs
@@ -13,6 +13,7 @@ fn main() {
     let mut spec_coverage: HashMap<String, Vec<(String, bool)>> = HashMap::new();
 
     let rs_files: Vec<DirEntry> = WalkDir::new("../parser/src/tests")
+        .sort_by_file_name()
         .into_iter()
         .filter_entry(|e| {
             if let Some(file_name) = e.file_name().to_str() {
@@ -48,6 +49,7 @@ fn main() {
     println!("{{\n    \"coverage\": {{");
 
     let adoc_files: Vec<DirEntry> = WalkDir::new("../docs/modules")
+        .sort_by_file_name()
         .into_iter()
         .filter_entry(|e| {
             if let Some(file_name) = e.file_name().to_str() {
-- 
2.43.0


From a54738f7e826dfd277815201be6b86adbbae358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:52 +0000
Subject: [PATCH 13/26] fix: include directive with a single-character
 attribute list was not recognized

---
 parser/src/parser/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 39affbe..6b4101a 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -260,7 +260,7 @@ static INCLUDE_DIRECTIVE: LazyLock<Regex> = LazyLock::new(|| {
 
         \[                          # Literal '[' starting the attributes block
 
-        ([^\]].+)?                  # (2) Optional contents inside brackets (lazy by default)
+        ([^\]].*)?                  # (2) Optional contents inside brackets (lazy by default)
 
         \]                          # Literal closing bracket
 
-- 
2.43.0


From b605198522195d404bc439b3b384c65ba0fd4c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:58 +0000
Subject: [PATCH 14/26] fix: attribute entry after another entry and a blank
 line in the body was taken for a paragraph

---
 parser/src/blocks/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index b0470a5..57c13ab 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -143,7 +143,7 @@ impl<'src> Block<'src> {
             return MatchAndWarnings {
                 item: Some(MatchedItem {
                     item: Self::DocumentAttribute(attr.item),
-                    after: attr.after,
+                    after: attr.after.discard_empty_lines(),
                 }),
                 warnings,
             };
-- 
2.43.0


From 4547471c80065febd2ebbadd6dbc7646caebe07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:45 +0000
Subject: [PATCH 15/26] fix: section title was rendered with attribute values
 assigned later, in the section's own content

---
 parser/src/blocks/section.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index c59ec11..a35941a 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -81,6 +81,13 @@ impl<'src> SectionBlock<'src> {
                 None
             };
 
+        // Likewise, render the title before reading child blocks because those might
+        // alter attributes that the title refers to.
+        let mut section_title = Content::from(level_and_title.item.1);
+        SubstitutionGroup::Title.apply(&mut section_title, parser, metadata.attrlist.as_ref());
+
+        let proposed_base_id = generate_section_id(section_title.rendered(), parser);
+
         let mut most_recent_level = level;
 
         let mut maw_blocks = parse_blocks_until(
@@ -92,11 +99,6 @@ impl<'src> SectionBlock<'src> {
         let blocks = maw_blocks.item;
         let source = metadata.source.trim_remainder(blocks.after);
 
-        let mut section_title = Content::from(level_and_title.item.1);
-        SubstitutionGroup::Title.apply(&mut section_title, parser, metadata.attrlist.as_ref());
-
-        let proposed_base_id = generate_section_id(section_title.rendered(), parser);
-
         let manual_id = metadata
             .attrlist
             .as_ref()
-- 
2.43.0


From 26f5c519ec0af77a5cc4c59e0c448241c7dcadf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:38 +0000
Subject: [PATCH 16/26] fix: attribute entry after a delimited block and a
 blank line was taken for a paragraph

---
 parser/src/blocks/parse_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index 40766d8..cd3fb45 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -32,7 +32,7 @@ where
         }
 
         if let Some(mi) = maw.item {
-            source = mi.after;
+            source = mi.after.discard_empty_lines();
             blocks.push(mi.item);
         } else {
             // No block could be parsed here (for example, because the line consists
-- 
2.43.0


From a49f0f0468086957d565825143937d20d9574798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:02 +0000
Subject: [PATCH 17/26] fix: coverage report was not valid JSON when a file
 name contains combining or control characters

---
 sdd/src/main.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/sdd/src/main.rs b/sdd/src/main.rs
index 89f3e86..154c08a 100644
--- a/sdd/src/main.rs
+++ b/sdd/src/main.rs
@@ -84,7 +84,7 @@ fn main() {
         // if !path.contains("/revision-line.adoc") {
         //     continue;
         // }
-        println!("        {path:?}: {{");
+        println!("        {}: {{", json_string(path));
 
         emit_adoc_coverage(path, spec_coverage.get(path));
 
@@ -98,6 +98,24 @@ fn main() {
     println!("    }}\n}}");
 }
 
+/// Formats `s` as a JSON string. (The `Debug` format of a Rust string differs:
+/// it writes combining and other special characters as `\u{...}`.)
+fn json_string(s: &str) -> String {
+    let mut out = String::from("\"");
+
+    for c in s.chars() {
+        match c {
+            '"' => out.push_str("\\\""),
+            '\\' => out.push_str("\\\\"),
+            c if c < ' ' => out.push_str(&format!("\\u{:04x}", c as u32)),
+            c => out.push(c),
+        }
+    }
+
+    out.push('"');
+    out
+}
+
 fn parse_rs_file(path: &Path) -> Option<(String, Vec<(String, bool)>)> {
     // if !path.ends_with("revision_line.rs") {
     //     return None;
-- 
2.43.0


From cff57cb3de9ce64ac5d243f56b3a78189947ed20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:59 +0000
Subject: [PATCH 18/26] fix: do not panic on an SVG image macro with option
 inline or interactive

---
 .../parser/inline_substitution_renderer.rs    | 61 ++++++-------------
 1 file changed, 18 insertions(+), 43 deletions(-)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index dd0ab13..477e724 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -508,50 +508,25 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
             ));
         }
 
-        let format = params
-            .attrlist
-            .named_attribute("format")
-            .map(|format| format.value());
-
         // TO DO (https://github.com/scouten/asciidoc-parser/issues/277):
-        // Enforce non-safe mode. Add this contraint to following `if` clause:
-        // `&& node.document.safe < SafeMode::SECURE`
-
-        let img = if format == Some("svg") || params.target.contains(".svg") {
-            // NOTE: In the SVG case we may have to ignore the attrs list.
-            if params.attrlist.has_option("inline") {
-                todo!(
-                    "Port this: {}",
-                    r#"img = (read_svg_contents node, target) || %(<span class="alt">#{node.alt}</span>)
-                    NOTE: The attrs list calculated above may not be usable.
-                    "#
-                );
-            } else if params.attrlist.has_option("interactive") {
-                todo!(
-                    "Port this: {}",
-                    r##"
-                        fallback = (node.attr? 'fallback') ? %(<img src="#{node.image_uri node.attr 'fallback'}" alt="#{encode_attribute_value node.alt}"#{attrs}#{@void_element_slash}>) : %(<span class="alt">#{node.alt}</span>)
-                        img = %(<object type="image/svg+xml" data="#{src = node.image_uri target}"#{attrs}>#{fallback}</object>)
-                        NOTE: The attrs list calculated above may not be usable.
-                    "##
-                );
-            } else {
-                format!(
-                    r#"<img {attrs}{void_element_slash}>"#,
-                    attrs = attrs.join(" "),
-                    void_element_slash = "",
-                )
-            }
-        } else {
-            format!(
-                r#"<img {attrs}{void_element_slash}>"#,
-                attrs = attrs.join(" "),
-                void_element_slash = "",
-                // img = %(<img src="#{src = node.image_uri target}"
-                // alt="#{encode_attribute_value node.alt}"#{attrs}#{@
-                // void_element_slash}>)
-            )
-        };
+        // When safe modes are implemented, an SVG image (`format=svg` or a target
+        // that contains `.svg`) needs special treatment if the safe mode is less
+        // than `SECURE`:
+        //
+        // * `opts=inline`: `img = (read_svg_contents node, target) || %(<span
+        //   class="alt">#{node.alt}</span>)`
+        // * `opts=interactive`: `img = %(<object type="image/svg+xml" ...`
+        //
+        // In `SECURE` mode (i.e. what we have now), Asciidoctor ignores those
+        // options.
+        let img = format!(
+            r#"<img {attrs}{void_element_slash}>"#,
+            attrs = attrs.join(" "),
+            void_element_slash = "",
+            // img = %(<img src="#{src = node.image_uri target}"
+            // alt="#{encode_attribute_value node.alt}"#{attrs}#{@
+            // void_element_slash}>)
+        );
 
         render_icon_or_image(params.attrlist, &img, &src, "image", dest);
     }
-- 
2.43.0


From ad7d9ce27170e029f6d4eabfcf0aa377b2c7abad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:59 +0000
Subject: [PATCH 19/26] fix: API settings of an attribute use its primary name
 like document entries

---
 parser/src/parser/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index fd3a3bd..0599186 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -224,7 +224,7 @@ impl Parser {
         };
 
         self.attribute_values
-            .insert(name.as_ref().to_lowercase(), attribute_value);
+            .insert(remap_attr_name(name), attribute_value);
 
         self
     }
@@ -319,7 +319,7 @@ impl Parser {
         };
 
         self.attribute_values
-            .insert(name.as_ref().to_lowercase(), attribute_value);
+            .insert(remap_attr_name(name), attribute_value);
 
         self
     }
-- 
2.43.0


From 1837b5c2aca0432dec3576092d903515fb5f79ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:40 +0000
Subject: [PATCH 20/26] fix: limit attribute values that grow exponentially by
 references (max-attribute-value-size)

---
 parser/src/document/attribute.rs    | 20 +++++++++++++++++++-
 parser/src/parser/built_in_attrs.rs |  9 +++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/parser/src/document/attribute.rs b/parser/src/document/attribute.rs
index a069ce4..8c1c82f 100644
--- a/parser/src/document/attribute.rs
+++ b/parser/src/document/attribute.rs
@@ -209,7 +209,25 @@ impl InterpretedValue {
 
         SubstitutionGroup::Header.apply(&mut content, parser, None);
 
-        InterpretedValue::Value(content.rendered.into_string())
+        let mut value = content.rendered.into_string();
+
+        // Since attributes can reference attributes, values could otherwise grow
+        // exponentially.
+        if let Some(max_size) = parser
+            .attribute_value("max-attribute-value-size")
+            .as_maybe_str()
+            .and_then(|max_size| max_size.parse::<usize>().ok())
+            && value.len() > max_size
+        {
+            let size = (0..=max_size)
+                .rev()
+                .find(|size| value.is_char_boundary(*size))
+                .unwrap_or_default();
+
+            value.truncate(size);
+        }
+
+        InterpretedValue::Value(value)
     }
 
     pub(crate) fn as_maybe_str(&self) -> Option<&str> {
diff --git a/parser/src/parser/built_in_attrs.rs b/parser/src/parser/built_in_attrs.rs
index 24e52b0..448a40f 100644
--- a/parser/src/parser/built_in_attrs.rs
+++ b/parser/src/parser/built_in_attrs.rs
@@ -44,6 +44,15 @@ pub(super) fn built_in_attrs() -> HashMap<String, AttributeValue> {
         },
     );
 
+    attrs.insert(
+        "max-attribute-value-size".to_owned(),
+        AttributeValue {
+            allowable_value: AllowableValue::Any,
+            modification_context: ModificationContext::ApiOnly,
+            value: InterpretedValue::Value("4096".into()),
+        },
+    );
+
     attrs.insert(
         "toc".to_owned(),
         AttributeValue {
-- 
2.43.0


From e61952bf9d263eb11ef555711aa30dcd1ddba031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:12 +0000
Subject: [PATCH 21/26] fix: limit how deeply blocks are nested (deeply nested
 blocks exhausted the stack)

---
 parser/src/blocks/block.rs              | 36 ++++++++++++-------------
 parser/src/blocks/compound_delimited.rs | 13 ++++++++-
 parser/src/blocks/parse_utils.rs        | 10 +++++++
 parser/src/blocks/section.rs            | 12 ++++++++-
 parser/src/parser/parser.rs             |  5 ++++
 parser/src/warnings.rs                  |  5 ++++
 6 files changed, 61 insertions(+), 20 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 57c13ab..6cda1aa 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -186,30 +186,30 @@ impl<'src> Block<'src> {
                 };
             }
 
-            if let Some(mut cdb_maw) = CompoundDelimitedBlock::parse(&metadata, parser)
-                && let Some(cdb) = cdb_maw.item
-            {
+            if let Some(mut cdb_maw) = CompoundDelimitedBlock::parse(&metadata, parser) {
                 if !cdb_maw.warnings.is_empty() {
                     warnings.append(&mut cdb_maw.warnings);
                 }
 
-                let block = Self::CompoundDelimited(cdb.item);
+                if let Some(cdb) = cdb_maw.item {
+                    let block = Self::CompoundDelimited(cdb.item);
 
-                Self::register_block_id(
-                    block.id(),
-                    block.title(),
-                    block.span(),
-                    parser,
-                    &mut warnings,
-                );
+                    Self::register_block_id(
+                        block.id(),
+                        block.title(),
+                        block.span(),
+                        parser,
+                        &mut warnings,
+                    );
 
-                return MatchAndWarnings {
-                    item: Some(MatchedItem {
-                        item: block,
-                        after: cdb.after,
-                    }),
-                    warnings,
-                };
+                    return MatchAndWarnings {
+                        item: Some(MatchedItem {
+                            item: block,
+                            after: cdb.after,
+                        }),
+                        warnings,
+                    };
+                }
             }
 
             // Try to discern the block type by scanning the first line.
diff --git a/parser/src/blocks/compound_delimited.rs b/parser/src/blocks/compound_delimited.rs
index ccd2da0..b24b5d4 100644
--- a/parser/src/blocks/compound_delimited.rs
+++ b/parser/src/blocks/compound_delimited.rs
@@ -4,7 +4,8 @@ use crate::{
     HasSpan, Parser, Span,
     attributes::Attrlist,
     blocks::{
-        Block, ContentModel, IsBlock, metadata::BlockMetadata, parse_utils::parse_blocks_until,
+        Block, ContentModel, IsBlock, metadata::BlockMetadata,
+        parse_utils::{MAX_BLOCK_DEPTH, parse_blocks_until},
     },
     internal::debug::DebugSliceReference,
     span::MatchedItem,
@@ -86,6 +87,16 @@ impl<'src> CompoundDelimitedBlock<'src> {
             return None;
         }
 
+        if parser.block_depth > MAX_BLOCK_DEPTH {
+            return Some(MatchAndWarnings {
+                item: None,
+                warnings: vec![Warning {
+                    source: delimiter.item,
+                    warning: WarningType::BlockNestingTooDeep,
+                }],
+            });
+        }
+
         let mut next = delimiter.after;
         let (closing_delimiter, after) = loop {
             if next.is_empty() {
diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index cd3fb45..b8c2d7c 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -5,6 +5,12 @@ use crate::{
     warnings::{MatchAndWarnings, Warning},
 };
 
+/// Maximum number of levels to which blocks can be nested.
+///
+/// Blocks are parsed recursively. Without a limit, a document with very deeply
+/// nested blocks would exhaust the stack.
+pub(crate) const MAX_BLOCK_DEPTH: usize = 32;
+
 /// Parse blocks until end of input or a pre-determined stop condition is
 /// reached.
 pub(crate) fn parse_blocks_until<'src, F>(
@@ -18,6 +24,8 @@ where
     let mut blocks: Vec<Block<'src>> = vec![];
     let mut warnings: Vec<Warning<'src>> = vec![];
 
+    parser.block_depth += 1;
+
     source = source.discard_empty_lines();
 
     while !source.data().is_empty() {
@@ -42,6 +50,8 @@ where
         }
     }
 
+    parser.block_depth -= 1;
+
     MatchAndWarnings {
         item: MatchedItem {
             item: blocks,
diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index a35941a..a019de0 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -6,7 +6,9 @@ use crate::{
     HasSpan, Parser, Span,
     attributes::Attrlist,
     blocks::{
-        Block, ContentModel, IsBlock, metadata::BlockMetadata, parse_utils::parse_blocks_until,
+        Block, ContentModel, IsBlock,
+        metadata::BlockMetadata,
+        parse_utils::{MAX_BLOCK_DEPTH, parse_blocks_until},
     },
     content::{Content, SubstitutionGroup},
     document::RefType,
@@ -47,6 +49,14 @@ impl<'src> SectionBlock<'src> {
         let source = metadata.block_start.discard_empty_lines();
         let level_and_title = parse_title_line(source, warnings)?;
 
+        if parser.block_depth > MAX_BLOCK_DEPTH {
+            warnings.push(Warning {
+                source: source.take_normalized_line().item,
+                warning: WarningType::BlockNestingTooDeep,
+            });
+            return None;
+        }
+
         // Take a snapshot of `sectids` value before reading child blocks because
         // the value might be altered while parsing.
         let sectids = parser.is_attribute_set("sectids");
diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 0599186..e72c2b4 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -57,6 +57,9 @@ pub struct Parser {
     /// Section type of outermost section. (Used to determine whether to number
     /// child sections as a normal section or appendix.)
     pub(crate) topmost_section_type: SectionType,
+
+    /// Number of blocks (or documents) that enclose the block being parsed.
+    pub(crate) block_depth: usize,
 }
 
 impl Default for Parser {
@@ -76,6 +79,7 @@ impl Default for Parser {
             },
             sectnumlevels: 3,
             topmost_section_type: SectionType::Normal,
+            block_depth: 0,
         }
     }
 }
@@ -129,6 +133,7 @@ impl Parser {
             components: vec![],
         };
         self.topmost_section_type = SectionType::Normal;
+        self.block_depth = 0;
 
         Document::parse(&preprocessed_source, source_map, self)
     }
diff --git a/parser/src/warnings.rs b/parser/src/warnings.rs
index ac6c74b..3bfea19 100644
--- a/parser/src/warnings.rs
+++ b/parser/src/warnings.rs
@@ -76,6 +76,9 @@ pub enum WarningType {
 
     #[error("Section heading level exceeds maximum (maximum 5, found {0})")]
     SectionHeadingLevelExceedsMaximum(usize),
+
+    #[error("Blocks are nested too deeply")]
+    BlockNestingTooDeep,
 }
 
 impl std::fmt::Debug for WarningType {
@@ -143,6 +146,8 @@ impl std::fmt::Debug for WarningType {
                 .debug_tuple("WarningType::SectionHeadingLevelExceedsMaximum")
                 .field(found)
                 .finish(),
+
+            WarningType::BlockNestingTooDeep => write!(f, "WarningType::BlockNestingTooDeep"),
         }
     }
 }
-- 
2.43.0


From 13e2cbb453d91904fac0903a500abf127f5b2119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:12 +0000
Subject: [PATCH 22/26] fix: skip lines of unusual white space at once (time
 grew with the square of their number)

---
 parser/src/blocks/parse_utils.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index b8c2d7c..97d28d5 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -43,10 +43,18 @@ where
             source = mi.after.discard_empty_lines();
             blocks.push(mi.item);
         } else {
-            // No block could be parsed here (for example, because the line consists
-            // solely of white space other than spaces and tabs). Skip the line so that
+            // No block could be parsed here (for example, because the next lines consist
+            // solely of white space other than spaces and tabs). Skip those lines so that
             // we always make progress.
-            source = source.take_line().after.discard_empty_lines();
+            source = source.take_line().after;
+
+            while let Some(line) = source.take_non_empty_line()
+                && line.item.data().trim().is_empty()
+            {
+                source = line.after;
+            }
+
+            source = source.discard_empty_lines();
         }
     }
 
-- 
2.43.0


From 23284b5f5b03ee95319d76107c4aa0df3d9f995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:14 +0000
Subject: [PATCH 23/26] fix: follow attribute entries for include targets where
 the document header really ends

Lines of spaces only end a paragraph or the header; a document without a title, or with too many
header lines, has its header end elsewhere than at the first empty line; entries in the header need
no space after the colon; an unresolved directive is text.
---
 parser/src/parser/preprocessor.rs | 62 +++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 11 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 6b4101a..5767cb8 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -50,6 +50,8 @@ pub(crate) fn preprocess(source: &str, parser: &Parser) -> (String, SourceMap) {
 struct PreprocessorState<'p> {
     parser: &'p mut Parser,
     in_document_header: bool,
+    has_document_title: bool,
+    author_and_revision_lines: usize,
     can_have_attribute: bool,
     include_depth: usize,
     output_line_number: usize,
@@ -62,6 +64,8 @@ impl<'p> PreprocessorState<'p> {
         Self {
             parser,
             in_document_header: true,
+            has_document_title: false,
+            author_and_revision_lines: 0,
             can_have_attribute: true,
             include_depth: 0,
             output_line_number: 1,
@@ -86,7 +90,7 @@ impl<'p> PreprocessorState<'p> {
 
             if self.can_have_attribute
                 && line.starts_with(':')
-                && (line.ends_with(':') || line.contains(": "))
+                && (self.in_document_header || line.ends_with(':') || line.contains(": "))
                 && let Some(attr) = Attribute::parse(original_source, self.parser)
             {
                 // Process attribute entries so they're available for include directives. NOTE:
@@ -165,12 +169,17 @@ impl<'p> PreprocessorState<'p> {
                         );
                     }
 
-                    self.output_line_number += 1;
-                    self.output.push_str(&format!(
-                        "Unresolved directive in {file_name} - {line}\n",
+                    let line = format!(
+                        "Unresolved directive in {file_name} - {line}",
                         file_name = file_name.unwrap_or("(root file)",),
                         line = line.data(),
-                    ));
+                    );
+
+                    self.track_position(&line);
+
+                    self.output_line_number += 1;
+                    self.output.push_str(&line);
+                    self.output.push('\n');
                 }
             } else {
                 // If none of the above apply, add the line to output.
@@ -182,12 +191,7 @@ impl<'p> PreprocessorState<'p> {
                     );
                 }
 
-                if line.is_empty() {
-                    self.in_document_header = false;
-                    self.can_have_attribute = true;
-                } else if !self.in_document_header {
-                    self.can_have_attribute = false;
-                }
+                self.track_position(line.data());
 
                 self.output_line_number += 1;
                 self.output.push_str(line.data());
@@ -198,6 +202,42 @@ impl<'p> PreprocessorState<'p> {
         self.include_depth -= 1;
     }
 
+    /// Track where in the document we are after a line that is neither an
+    /// attribute entry nor a resolved include directive. (The rules for the end
+    /// of the document header follow `Header::parse`.)
+    fn track_position(&mut self, line: &str) {
+        let line = line.trim_end_matches(' ');
+
+        if self.in_document_header {
+            if line.is_empty() {
+                self.in_document_header = !self.has_document_title;
+                return;
+            }
+
+            if line.starts_with("//") && !line.starts_with("///") {
+                return;
+            }
+
+            if !self.has_document_title && line.starts_with("= ") {
+                self.has_document_title = true;
+                return;
+            }
+
+            if self.has_document_title && self.author_and_revision_lines < 2 {
+                self.author_and_revision_lines += 1;
+                return;
+            }
+
+            self.in_document_header = false;
+        }
+
+        if line.is_empty() {
+            self.can_have_attribute = true;
+        } else if line.contains(|c| c != ' ' && c != '\t') {
+            self.can_have_attribute = false;
+        }
+    }
+
     /// Apply attribute substitution to a string, replacing {attribute-name}
     /// patterns with their corresponding values from the parser.
     fn substitute_attributes(&self, input: &str) -> String {
-- 
2.43.0


From ea95cc56a5f82bb43d4c6d6af28e4234993d1f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:57 +0000
Subject: [PATCH 24/26] fix: text that looks like a passthrough placeholder is
 not one (it could refer to itself and exhaust the stack)

---
 parser/src/content/passthroughs.rs | 59 +++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 5 deletions(-)

diff --git a/parser/src/content/passthroughs.rs b/parser/src/content/passthroughs.rs
index d8ca641..eea46f1 100644
--- a/parser/src/content/passthroughs.rs
+++ b/parser/src/content/passthroughs.rs
@@ -1,4 +1,4 @@
-use std::{borrow::Cow, sync::LazyLock};
+use std::{borrow::Cow, collections::HashSet, sync::LazyLock};
 
 use regex::{Captures, Regex, Replacer};
 
@@ -33,6 +33,19 @@ impl Passthroughs {
         // * passthroughs => self.saved_spans
         // * old_behavior => appears to affect the entire span
 
+        {
+            // If the source text itself contains what looks like one of our placeholders,
+            // save the character that makes it look like one.
+            let text = content.rendered.as_ref();
+            if text.contains('\u{96}') {
+                let replacer = PlaceholderReplacer(&mut passthroughs);
+
+                if let Cow::Owned(new_result) = PASS_WITH_INDEX.replace_all(text, replacer) {
+                    content.rendered = new_result.into();
+                }
+            }
+        }
+
         {
             let text = content.rendered.as_ref();
             if text.contains("++") || text.contains("$$") || text.contains("ss:") {
@@ -67,7 +80,7 @@ impl Passthroughs {
             return;
         }
 
-        let replacer = PassthroughRestoreReplacer(self, parser);
+        let replacer = PassthroughRestoreReplacer(self, parser, None);
 
         if let Cow::Owned(new_result) =
             PASS_WITH_INDEX.replace_all(content.rendered().as_ref(), replacer)
@@ -431,10 +444,41 @@ impl Replacer for InlinePassReplacer<'_> {
 }
 
 #[derive(Debug)]
-struct PassthroughRestoreReplacer<'p>(&'p Passthroughs, &'p Parser);
+struct PlaceholderReplacer<'p>(&'p mut Passthroughs);
+
+impl Replacer for PlaceholderReplacer<'_> {
+    fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
+        self.0.push(
+            Passthrough {
+                text: "\u{96}".to_string(),
+                subs: SubstitutionGroup::None,
+                type_: None,
+                attrlist: None,
+            },
+            dest,
+        );
+
+        dest.push_str(&caps[1]);
+        dest.push('\u{97}');
+    }
+}
+
+/// Restores passthroughs. (For the content of a passthrough, that is only those
+/// whose placeholders were in its text from the start. Any others have been
+/// brought in by attribute values and might refer back to the passthrough
+/// itself.)
+#[derive(Debug)]
+struct PassthroughRestoreReplacer<'p>(&'p Passthroughs, &'p Parser, Option<HashSet<String>>);
 
 impl Replacer for PassthroughRestoreReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
+        if let Some(nested) = self.2.as_ref()
+            && !nested.contains(&caps[1])
+        {
+            dest.push_str(&caps[0]);
+            return;
+        }
+
         let index = caps[1].parse::<usize>().unwrap_or_default();
 
         let Some(pass) = self.0.0.get(index) else {
@@ -473,9 +517,14 @@ impl Replacer for PassthroughRestoreReplacer<'_> {
             subbed_text.rendered = new_text.into();
         }
 
-        if subbed_text.rendered().contains('\u{96}') {
+        if pass.text.contains('\u{96}') {
             // Recursively apply passthrough replacement and write the result.
-            let replacer = PassthroughRestoreReplacer(self.0, self.1);
+            let nested = PASS_WITH_INDEX
+                .captures_iter(&pass.text)
+                .map(|caps| caps[1].to_string())
+                .collect();
+
+            let replacer = PassthroughRestoreReplacer(self.0, self.1, Some(nested));
 
             let new_result = PASS_WITH_INDEX.replace_all(subbed_text.rendered().as_ref(), replacer);
 
-- 
2.43.0


From 727d4769119dcae114fe9f3be985060ca82bc87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:57 +0000
Subject: [PATCH 25/26] fix: limit how often inline passthroughs are retried
 after a prohibited prefix (long lines exhausted the stack)

---
 parser/src/content/passthroughs.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parser/src/content/passthroughs.rs b/parser/src/content/passthroughs.rs
index eea46f1..1cfb6d3 100644
--- a/parser/src/content/passthroughs.rs
+++ b/parser/src/content/passthroughs.rs
@@ -60,7 +60,7 @@ impl Passthroughs {
         {
             let text = content.rendered.as_ref();
             if text.contains('+') || text.contains("-]") {
-                let replacer = InlinePassReplacer(&mut passthroughs);
+                let replacer = InlinePassReplacer(&mut passthroughs, 0);
 
                 if let Cow::Owned(new_result) = INLINE_PASS.replace_all(text, replacer) {
                     content.rendered = new_result.into();
@@ -348,8 +348,12 @@ static INLINE_PASS: LazyLock<Regex> = LazyLock::new(|| {
     .unwrap()
 });
 
+/// Maximum number of times that inline pass replacement is retried inside of a
+/// match that has a prohibited prefix.
+const MAX_RETRY_DEPTH: usize = 64;
+
 #[derive(Debug)]
-struct InlinePassReplacer<'p>(&'p mut Passthroughs);
+struct InlinePassReplacer<'p>(&'p mut Passthroughs, usize);
 
 impl Replacer for InlinePassReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
@@ -364,7 +368,12 @@ impl Replacer for InlinePassReplacer<'_> {
             // the inline pass replacement here. Possible it might miss a few very obscure
             // cases, but this should cover most cases where the attrlist is off-limits, but
             // the quoted text is still subject to inline pass replacement.
-            let replacer = InlinePassReplacer(self.0);
+            if self.1 >= MAX_RETRY_DEPTH {
+                dest.push_str(&caps[0]);
+                return;
+            }
+
+            let replacer = InlinePassReplacer(self.0, self.1 + 1);
 
             let (first, rem) = &caps[0].split_at(1);
             dest.push_str(first);
-- 
2.43.0


From 480808e8ddc912192770432a4e27580d7ac520e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:41 +0000
Subject: [PATCH 26/26] fix: look for a free id suffix where the last one was
 found (many sections of the same title took time that grew with the square of
 their number)

---
 parser/src/document/catalog.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/parser/src/document/catalog.rs b/parser/src/document/catalog.rs
index d3e7cb8..5e84604 100644
--- a/parser/src/document/catalog.rs
+++ b/parser/src/document/catalog.rs
@@ -8,13 +8,25 @@ use crate::internal::debug::DebugHashMapFrom;
 /// via cross-references, including anchors, sections, and bibliography entries.
 /// It provides functionality for registering new references, resolving
 /// reference text to IDs, and detecting duplicate IDs.
-#[derive(Clone, Eq, PartialEq)]
+#[derive(Clone)]
 pub struct Catalog {
     /// Primary registry mapping IDs to reference entries.
     pub(crate) refs: HashMap<String, RefEntry>,
 
     /// Reverse lookup cache: reftext -> ID.
     pub(crate) reftext_to_id: HashMap<String, String>,
+
+    /// For base IDs that were in use when an ID was generated: all smaller
+    /// suffixes are known to be in use as well. (IDs are never removed.)
+    next_suffix: HashMap<String, usize>,
+}
+
+impl Eq for Catalog {}
+
+impl PartialEq for Catalog {
+    fn eq(&self, other: &Self) -> bool {
+        self.refs == other.refs && self.reftext_to_id == other.reftext_to_id
+    }
 }
 
 impl Catalog {
@@ -22,6 +34,7 @@ impl Catalog {
         Self {
             refs: HashMap::new(),
             reftext_to_id: HashMap::new(),
+            next_suffix: HashMap::new(),
         }
     }
 
@@ -84,14 +97,17 @@ impl Catalog {
         let unique_id = if !self.contains_id(base_id) {
             base_id.to_string()
         } else {
-            let mut counter = 2;
-            loop {
+            let mut counter = self.next_suffix.get(base_id).copied().unwrap_or(2);
+            let unique_id = loop {
                 let candidate = format!("{}-{}", base_id, counter);
                 if !self.contains_id(&candidate) {
                     break candidate;
                 }
                 counter += 1;
-            }
+            };
+
+            self.next_suffix.insert(base_id.to_string(), counter + 1);
+            unique_id
         };
 
         // Register the generated unique ID.
-- 
2.43.0

