From 1e0d0fe0c6aa77c542d0705789e3c8c7ae608739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 01/54] fix: keep trailing hashes that are part of an ATX
 heading's text

---
 src/header.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/header.rs b/src/header.rs
index ba247a0..f0f4ff9 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -159,6 +159,12 @@ impl<'i> Header<'i> {
             return;
         }
 
+        if !snippet.trim().is_empty() {
+            // The parser already removed the closing sequence, so these `#` are part of the text.
+            self.escape_trailing_hashtag();
+            return;
+        }
+
         while self
             .buffer
             .ends_with(|c: char| c.is_whitespace() || c == '#')
-- 
2.43.0


From 36e4c4f6e1b753facbc79b4d3e40f39b39cf0e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 02/54] fix: keep whitespace at the end of the last line of a
 fenced code block

---
 src/formatter.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 07f0858..d2887db 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -416,7 +416,15 @@ where
         buffer: &str,
         start_with_indentation: bool,
     ) -> std::fmt::Result {
-        let mut lines = buffer.trim_end().lines().peekable();
+        self.join_lines_with_indentation(buffer.trim_end(), start_with_indentation)
+    }
+
+    fn join_lines_with_indentation(
+        &mut self,
+        buffer: &str,
+        start_with_indentation: bool,
+    ) -> std::fmt::Result {
+        let mut lines = buffer.lines().peekable();
         while let Some(line) = lines.next() {
             let is_last = lines.peek().is_none();
             let is_next_empty = lines
@@ -588,14 +596,20 @@ where
             return Ok(());
         }
 
-        self.join_with_indentation(&code, info_string.is_some())?;
-
-        if info_string.is_some() {
-            // In preparation for the closing code fence write a newline.
-            writeln!(self)?
+        if info_string.is_none() {
+            return self.join_with_indentation(&code, false);
         }
 
-        Ok(())
+        // Trailing blank lines get removed, but whitespace at the end of the last line of a
+        // fenced code block is part of the code.
+        let last_non_whitespace = code.trim_end().len();
+        let code_end = code[last_non_whitespace..]
+            .find(['\r', '\n'])
+            .map_or(code.len(), |offset| last_non_whitespace + offset);
+        self.join_lines_with_indentation(&code[..code_end], true)?;
+
+        // In preparation for the closing code fence write a newline.
+        writeln!(self)
     }
 
     /// The main entry point for markdown formatting.
-- 
2.43.0


From 6745bf942e297c062177da1e946268979d2b5130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 03/54] fix: no trailing space after an empty list item that
 follows a tab in a block quote

---
 src/formatter.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index d2887db..5b1d744 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1109,7 +1109,12 @@ where
                 let (empty_list_item, link_defs) = match self.events.peek() {
                     Some((Event::End(TagEnd::Item), _)) => {
                         let snippet = &self.input[range.clone()];
-                        let just_list_marker = snippet.trim().len() == list_marker.len();
+                        // The parser might start the list at the same position as the blockquote
+                        let just_list_marker = snippet
+                            .trim_start_matches(|c: char| c.is_whitespace() || c == '>')
+                            .trim_end()
+                            .len()
+                            == list_marker.len();
                         let link_defs = parse_link_reference_definitions(snippet, range.start);
                         let end = link_defs
                             .first()
-- 
2.43.0


From 67b39d0b297411020100cf29734b1231eebc8b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 04/54] fix: only wrap paragraphs at spaces, never after a
 hyphen

---
 src/paragraph.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index bd93a11..a328211 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -188,6 +188,8 @@ impl Paragraph {
         let wrap_options = TextWrapOptions::new(max_width)
             .break_words(false)
             .word_separator(textwrap::WordSeparator::AsciiSpace)
+            // Only break at spaces. Breaking at a hyphen would add a space to the text
+            .word_splitter(textwrap::WordSplitter::NoHyphenation)
             .wrap_algorithm(textwrap::WrapAlgorithm::FirstFit);
 
         let mut split_on_hard_breaks = rewrite_buffer.split(MARKDOWN_HARD_BREAK).peekable();
-- 
2.43.0


From 779e2eaa5e8cb6a65252aef8383b2c3b3b5a2ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 05/54] fix: recognise an escaped backslash before a link
 label's closing bracket

---
 src/links.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/links.rs b/src/links.rs
index 5d82036..551320c 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -179,7 +179,7 @@ fn find_text_within_last_set_of_balance_bracket(
                 }
             }
         }
-        was_last_escape = byte == b'\\'
+        was_last_escape = is_char_esacped(byte.into(), was_last_escape);
     }
     (start, end + 1)
 }
-- 
2.43.0


From c724b1ceecb5eda907af882c14f38908d4866752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 06/54] fix: don't write backslash escapes into code spans that
 span multiple lines

---
 src/escape.rs    | 33 +++++++++++++++++++++++++++++++++
 src/formatter.rs | 39 ++++++++++++++++++++++++++++++++++-----
 2 files changed, 67 insertions(+), 5 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index bb91906..137fed2 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -1,4 +1,5 @@
 use super::formatter::FormatState;
+use crate::html::starts_with_html_block_identifier;
 use crate::list::UnorderedListMarker;
 use pulldown_cmark::Event;
 
@@ -143,6 +144,38 @@ pub(crate) fn needs_escape(input: &str) -> Option<EscapeKind> {
     }
 }
 
+/// Check if a line that continues a paragraph would be interpreted as the start of some other
+/// Markdown construct.
+pub(crate) fn starts_markdown_construct(line: &str) -> bool {
+    let unindented = line.trim_start_matches([' ', '\t']);
+    let indentation = &line[..line.len() - unindented.len()];
+    if indentation.len() >= 4 || indentation.contains('\t') {
+        // Indented that far it can't start anything.
+        return false;
+    }
+    let line = unindented;
+
+    let is_ordered_list_item = || {
+        let after_number = line.trim_start_matches(|c: char| c.is_ascii_digit());
+        after_number.len() < line.len() && after_number.starts_with(['.', ')'])
+    };
+    let is_html_block = || {
+        line.strip_prefix('<').is_some_and(|l| {
+            let name = l.trim_start_matches('/');
+            let end = name
+                .find(|c: char| c.is_whitespace() || matches!(c, '/' | '>'))
+                .unwrap_or(name.len());
+            starts_with_html_block_identifier(&name[..end])
+        })
+    };
+    let is_footnote_definition = || line.starts_with("[^") && line.contains("]:");
+
+    needs_escape(line).is_some()
+        || is_ordered_list_item()
+        || is_html_block()
+        || is_footnote_definition()
+}
+
 /// Represents text that looks like another Markdown construct that the formatter should escape
 /// in order to preserve the meaning of the input after formatting.
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
diff --git a/src/formatter.rs b/src/formatter.rs
index 5b1d744..8c9b422 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -12,6 +12,7 @@ use pulldown_cmark::{LinkType, Parser, Tag};
 use crate::adapters::{ListEndAtLastItemExt, LooseListExt};
 use crate::builder::{CodeBlockContext, CodeBlockFormatter};
 use crate::config::Config;
+use crate::escape::starts_markdown_construct;
 use crate::footnote::FootnoteDefinition;
 use crate::header::{Header, HeaderKind};
 use crate::html::starts_with_html_block_identifier;
@@ -469,6 +470,38 @@ where
         output
     }
 
+    /// Rewrite a code span that spans over multiple lines
+    fn rewrite_multiline_code_span(
+        &mut self,
+        event: &Event<'i>,
+        snippet: &'i str,
+    ) -> std::fmt::Result {
+        let lines = split_lines(snippet)
+            .enumerate()
+            .map(|(i, line)| match i {
+                0 => line,
+                _ => self.trim_leading_indentation(line),
+            })
+            .collect_vec();
+
+        // Backslash escapes don't work in code spans. If a line could be interpreted as another
+        // construct write the code span on a single line. Line endings are converted to spaces.
+        if lines.iter().skip(1).any(|l| starts_markdown_construct(l)) {
+            let code = lines.iter().map(|l| l.trim_matches([' ', '\t'])).join(" ");
+            return self.write_str(&code);
+        }
+
+        for (i, line) in lines.iter().enumerate() {
+            if i == 0 {
+                self.write_str(line)?;
+            } else {
+                writeln_context!(self, event)?;
+                write_context!(self, event, "{line}")?;
+            }
+        }
+        Ok(())
+    }
+
     /// Rewrite a single [`Event`] that spans over multiple lines
     fn rewrite_multiline_event(&mut self, event: &Event<'i>, snippet: &'i str) -> std::fmt::Result {
         // check if the input snippet ends with a newline so we can preserve it.
@@ -753,11 +786,7 @@ where
                 Event::Code(_) => {
                     let snippet = &self.input[range.clone()];
                     if count_newlines(snippet) > 0 {
-                        let snippet = snippet.trim_matches('`');
-                        // write the opening and closing markers separately so they aren't escaped.
-                        rewrite_marker(self.input, &range, &mut self)?;
-                        self.rewrite_multiline_event(&event, snippet)?;
-                        rewrite_marker(self.input, &range, &mut self)?;
+                        self.rewrite_multiline_code_span(&event, snippet)?;
                     } else {
                         write!(self, "{snippet}")?;
                     }
-- 
2.43.0


From d60baee03cbe8613e1b14aff52a8e699a10f9769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 07/54] fix: wrapping and reflowing keep hard breaks and never
 start another construct

---
 src/escape.rs    |   6 ++-
 src/paragraph.rs | 101 ++++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 91 insertions(+), 16 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index 137fed2..c9b9180 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -168,7 +168,11 @@ pub(crate) fn starts_markdown_construct(line: &str) -> bool {
             starts_with_html_block_identifier(&name[..end])
         })
     };
-    let is_footnote_definition = || line.starts_with("[^") && line.contains("]:");
+    let is_footnote_definition = || {
+        line.strip_prefix("[^")
+            .and_then(|l| l.split_once(']'))
+            .is_some_and(|(_, rest)| rest.starts_with(':'))
+    };
 
     needs_escape(line).is_some()
         || is_ordered_list_item()
diff --git a/src/paragraph.rs b/src/paragraph.rs
index a328211..5c06af4 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -1,10 +1,11 @@
-use crate::escape::needs_escape;
+use crate::escape::{needs_escape, starts_markdown_construct};
 use crate::links::is_balanced;
 use crate::utils::sequence_ends_on_escape;
 use crate::writer::{MarkdownContext, WriteContext};
 
 use pulldown_cmark::{Event, LinkType, Tag};
 use regex::Regex;
+use std::borrow::Cow;
 use std::fmt::Write;
 use std::sync::OnceLock;
 use textwrap::Options as TextWrapOptions;
@@ -79,6 +80,10 @@ impl WriteContext<'_> for Paragraph {
 
                 return self.write_str(s);
             }
+            MarkdownContext::Event(Event::HardBreak) => {
+                self.buffer.push_str(s);
+                return Ok(());
+            }
             _ => {
                 return self.write_str(s);
             }
@@ -187,24 +192,31 @@ impl Paragraph {
 
         let wrap_options = TextWrapOptions::new(max_width)
             .break_words(false)
-            .word_separator(textwrap::WordSeparator::AsciiSpace)
+            .word_separator(textwrap::WordSeparator::Custom(find_words))
             // Only break at spaces. Breaking at a hyphen would add a space to the text
             .word_splitter(textwrap::WordSplitter::NoHyphenation)
             .wrap_algorithm(textwrap::WrapAlgorithm::FirstFit);
 
-        let mut split_on_hard_breaks = rewrite_buffer.split(MARKDOWN_HARD_BREAK).peekable();
-
-        while let Some(text) = split_on_hard_breaks.next() {
-            let has_next = split_on_hard_breaks.peek().is_some();
-            let wrapped_text = if self.should_reflow_text {
-                let (text, _) = textwrap::unfill(text);
-                textwrap::fill(&text, wrap_options.clone())
-            } else {
-                textwrap::fill(text, wrap_options.clone())
-            };
-            output_buffer.push_str(&wrapped_text);
-            if has_next {
-                output_buffer.push_str(MARKDOWN_HARD_BREAK);
+        let rewrite_buffer = escape_link_definition(rewrite_buffer);
+        let mut lines = rewrite_buffer.lines().peekable();
+
+        while let Some(line) = lines.next() {
+            let mut text = Cow::from(line);
+            let mut hard_break = hard_break_spaces(line);
+
+            if self.should_reflow_text {
+                // Join all lines up to the next hard break
+                while let (None, Some(next_line)) = (hard_break, lines.peek()) {
+                    hard_break = hard_break_spaces(next_line);
+                    text = format!("{} {}", text.trim_end(), next_line.trim_start()).into();
+                    lines.next();
+                }
+            }
+
+            output_buffer.push_str(&textwrap::fill(text.trim_end(), wrap_options.clone()));
+            if lines.peek().is_some() {
+                output_buffer.push_str(hard_break.unwrap_or_default());
+                output_buffer.push('\n');
             }
         }
 
@@ -212,6 +224,65 @@ impl Paragraph {
     }
 }
 
+/// Find the trailing spaces of a line that ends with a hard break. A backslash isn't included
+/// because it counts towards the width of the line.
+fn hard_break_spaces(line: &str) -> Option<&str> {
+    let spaces = &line[line.trim_end_matches(' ').len()..];
+    if spaces.len() >= 2 {
+        Some(spaces)
+    } else {
+        sequence_ends_on_escape(line).then_some("")
+    }
+}
+
+/// Find the words of a line for wrapping. A word that would be interpreted as the start of some
+/// other Markdown construct at the beginning of a line stays with the word that precedes it.
+fn find_words(line: &str) -> Box<dyn Iterator<Item = textwrap::core::Word<'_>> + '_> {
+    let mut words = textwrap::WordSeparator::AsciiSpace
+        .find_words(line)
+        .peekable();
+    let mut start = 0;
+
+    Box::new(std::iter::from_fn(move || {
+        let word = words.next()?;
+        let mut end = start + word.word.len() + word.whitespace.len();
+        while let Some(next_word) =
+            words.next_if(|w| is_unsafe_at_line_start(w.word, &line[end..]))
+        {
+            end += next_word.word.len() + next_word.whitespace.len();
+        }
+        let word = textwrap::core::Word::from(&line[start..end]);
+        start = end;
+        Some(word)
+    }))
+}
+
+/// Text like `[foo]: /url "title" more text` is only a link reference definition if the line ends
+/// after the title. Escape the `:` because we're about to move line endings.
+fn escape_link_definition(mut text: String) -> String {
+    let label_end = text.strip_prefix('[').and_then(|t| {
+        t.match_indices([']', '`', '<'])
+            .map(|(offset, _)| offset + 1)
+            .find(|offset| !sequence_ends_on_escape(&text[..*offset]))
+    });
+    if let Some(end) = label_end {
+        if text[end..].starts_with("]:") {
+            text.insert(end + 1, '\\');
+        }
+    }
+    text
+}
+
+/// Check if breaking a line before `word` could change the meaning of the text
+fn is_unsafe_at_line_start(word: &str, rest_of_line: &str) -> bool {
+    let is_marker_only = |markers: &[char]| word.chars().all(|c| markers.contains(&c));
+
+    is_marker_only(&['-', '_', '*'])
+        || is_marker_only(&['|', ':', '-'])
+        || starts_markdown_construct(word)
+        || starts_markdown_construct(rest_of_line)
+}
+
 /// Determine if this is the delimiter row of a markdown table.
 ///
 /// For example, the second row of the table is the delimiter row.
-- 
2.43.0


From e5cc5f910105f296d8430307a808a457ad1894b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:26 +0000
Subject: [PATCH 08/54] fix: count a footnote's indentation towards the width
 of its content

---
 src/footnote.rs  | 6 ++++++
 src/formatter.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/footnote.rs b/src/footnote.rs
index 95eb986..a879d16 100644
--- a/src/footnote.rs
+++ b/src/footnote.rs
@@ -25,6 +25,12 @@ impl FootnoteDefinition {
         }
     }
 
+    /// Get the length of the indentation that's added when the definition gets written
+    pub(super) fn indentation_len(&self) -> usize {
+        let indentation: usize = self.indentation.iter().map(|i| i.len()).sum();
+        indentation + FOOTNOTE_INDENTATION.len()
+    }
+
     /// Check if the internal buffer is empty
     pub(super) fn is_empty(&self) -> bool {
         self.buffer.is_empty()
diff --git a/src/formatter.rs b/src/formatter.rs
index 8c9b422..d69ed96 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -257,7 +257,12 @@ where
 
     /// Get the length of the indentation
     fn indentation_len(&self) -> usize {
-        self.indentation.iter().map(|i| i.len()).sum()
+        let footnote_indentation = self.writers.iter().map(|w| match w {
+            MarkdownWriter::FootnoteDefinition(f) => f.indentation_len(),
+            _ => 0,
+        });
+        let indentation = self.indentation.iter().map(|i| i.len());
+        indentation.chain(footnote_indentation).sum()
     }
 
     /// Get an exclusive reference to the current buffer we're writing to. That could be the main
-- 
2.43.0


From c7f1e110689df4984214fbb11f61978f2c5ceb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:19 +0000
Subject: [PATCH 09/54] fix: don't wrap inside of link destinations that
 contain spaces

---
 src/paragraph.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 5c06af4..f51da01 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -237,6 +237,7 @@ fn hard_break_spaces(line: &str) -> Option<&str> {
 
 /// Find the words of a line for wrapping. A word that would be interpreted as the start of some
 /// other Markdown construct at the beginning of a line stays with the word that precedes it.
+/// Link destinations like `<my url>` can't contain line endings and don't get split either.
 fn find_words(line: &str) -> Box<dyn Iterator<Item = textwrap::core::Word<'_>> + '_> {
     let mut words = textwrap::WordSeparator::AsciiSpace
         .find_words(line)
@@ -246,9 +247,10 @@ fn find_words(line: &str) -> Box<dyn Iterator<Item = textwrap::core::Word<'_>> +
     Box::new(std::iter::from_fn(move || {
         let word = words.next()?;
         let mut end = start + word.word.len() + word.whitespace.len();
-        while let Some(next_word) =
-            words.next_if(|w| is_unsafe_at_line_start(w.word, &line[end..]))
-        {
+        while let Some(next_word) = words.next_if(|w| {
+            ends_in_link_destination(&line[start..end])
+                || is_unsafe_at_line_start(w.word, &line[end..])
+        }) {
             end += next_word.word.len() + next_word.whitespace.len();
         }
         let word = textwrap::core::Word::from(&line[start..end]);
@@ -257,6 +259,12 @@ fn find_words(line: &str) -> Box<dyn Iterator<Item = textwrap::core::Word<'_>> +
     }))
 }
 
+/// Check if the text ends within a link destination that's enclosed in `<` and `>`
+fn ends_in_link_destination(text: &str) -> bool {
+    text.rfind("](<")
+        .is_some_and(|start| !text[start..].contains('>'))
+}
+
 /// Text like `[foo]: /url "title" more text` is only a link reference definition if the line ends
 /// after the title. Escape the `:` because we're about to move line endings.
 fn escape_link_definition(mut text: String) -> String {
-- 
2.43.0


From b20c5fec5564d47eb9bce3f4737417a78f7bca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:15 +0000
Subject: [PATCH 10/54] fix: keep a heading's text if it only consists of
 hashes

---
 src/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index f0f4ff9..493c33b 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -159,7 +159,7 @@ impl<'i> Header<'i> {
             return;
         }
 
-        if !snippet.trim().is_empty() {
+        if !snippet.trim().is_empty() || !self.buffer.ends_with('\u{c}') {
             // The parser already removed the closing sequence, so these `#` are part of the text.
             self.escape_trailing_hashtag();
             return;
-- 
2.43.0


From 91812df2cc39fdb967a62059ac9accbfba8a8a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 11/54] fix: write nested lists that are indented with a tab
 like any other nested list

---
 src/formatter.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index d69ed96..1432278 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1085,7 +1085,7 @@ where
                     let needs_extra_newline = |mut newlines: usize, range: Range<usize>| -> usize {
                         let last_was_paragraph =
                             matches!(self.last_event, Some((Event::End(TagEnd::Paragraph), _)));
-                        let starts_with_dash = self.input[range].starts_with('-');
+                        let starts_with_dash = self.input[range].starts_with("-\t");
                         if newlines < 2 && last_was_paragraph && starts_with_dash {
                             newlines += 1;
                         }
@@ -1114,6 +1114,14 @@ where
                 self.nested_context.push(tag);
             }
             Tag::Item => {
+                // The parser sometimes gets the ranges for a nested list wrong if it's preceded by
+                // a tab (\t) character. See Tag::List above, which also adds a newline for `-\t`.
+                let marker_start = skip_leading_whitespace(self.input, range.start);
+                let range = if self.input[marker_start..].starts_with("-\t") {
+                    range
+                } else {
+                    marker_start..range.end
+                };
                 let newlines = self.count_newlines(&range);
                 if self.needs_indent && newlines > 0 {
                     self.write_newlines(newlines)?;
@@ -1158,12 +1166,13 @@ where
                         (just_list_marker || is_empty_list(snippet), link_defs)
                     }
                     Some((_, next_range)) => {
-                        let snippet = &self.input[range.start..next_range.start];
+                        let next_start = skip_leading_whitespace(self.input, next_range.start);
+                        let snippet = &self.input[range.start..next_start];
                         let link_defs = parse_link_reference_definitions(snippet, range.start);
                         let end = link_defs
                             .first()
                             .map(|l| l.range().start)
-                            .unwrap_or(next_range.start);
+                            .unwrap_or(next_start);
                         let snippet = &self.input[range.start..end];
                         (is_empty_list(snippet), link_defs)
                     }
@@ -1647,6 +1656,12 @@ where
     }
 }
 
+/// Get the position of the first non-whitespace character after `start`
+fn skip_leading_whitespace(input: &str, start: usize) -> usize {
+    let snippet = &input[start..];
+    start + (snippet.len() - snippet.trim_start().len())
+}
+
 /// Find some marker that denotes the start of a markdown construct.
 /// for example, `**` for bold or `_` for italics.
 fn find_marker<'i, P>(input: &'i str, range: &Range<usize>, predicate: P) -> &'i str
-- 
2.43.0


From 8aee053f3951de80f301b9b27751c3ea55909ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:57 +0000
Subject: [PATCH 12/54] fix: don't start an empty setext heading with a blank
 line

---
 src/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index 493c33b..ceedf37 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -315,7 +315,7 @@ impl<'i> Header<'i> {
         let id = self.id.take();
 
         if self.attrs_on_own_line {
-            if !self.buffer.ends_with('\n') {
+            if !self.buffer.is_empty() && !self.buffer.ends_with('\n') {
                 writeln!(self.buffer)?;
             }
         } else if !self.buffer.is_empty() && !sequence_ends_on_escape(&self.buffer) {
-- 
2.43.0


From a6ecc3924d0b5000d7618e3fa5a72503a08059c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 13/54] fix: separate a heading's custom attributes from its id
 or class

---
 src/header.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/header.rs b/src/header.rs
index ceedf37..bc5df04 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -334,7 +334,7 @@ impl<'i> Header<'i> {
         }
 
         if !attrs.is_empty() {
-            rewrite_custom_attrs(&mut self.buffer, attrs, id.is_none() || empty_classes)?;
+            rewrite_custom_attrs(&mut self.buffer, attrs, id.is_none() && empty_classes)?;
         }
 
         write!(self.buffer, "}}")
-- 
2.43.0


From 6cef459f26542631e9131a2dd4f945ed1a285df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 14/54] fix: keep angle brackets around link destinations with
 control characters

---
 src/links.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/links.rs b/src/links.rs
index 551320c..6f667bb 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -104,7 +104,7 @@ where
 pub(crate) fn format_link_url(url: &str, wrap_empty_urls: bool) -> Cow<'_, str> {
     if wrap_empty_urls && url.is_empty() {
         Cow::from("<>")
-    } else if !url.starts_with('<') && !url.ends_with('>') && url.contains(' ')
+    } else if !url.starts_with('<') && !url.ends_with('>') && url.contains(|c: char| c == ' ' || c.is_ascii_control())
         || !balanced_parens(url)
     {
         // https://spec.commonmark.org/0.30/#link-destination
-- 
2.43.0


From 857fe67205795a4c3bc72552d28cbc66712e971e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:33 +0000
Subject: [PATCH 15/54] fix: only treat lines that start with `-` or `|` as
 table delimiter rows

---
 src/paragraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index f51da01..4d226cc 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -307,7 +307,7 @@ fn could_be_table(text: &str) -> bool {
     static TABLE_ALIGNMENT_ROW_REGEX: OnceLock<Regex> = OnceLock::new();
     TABLE_ALIGNMENT_ROW_REGEX
         .get_or_init(|| {
-            Regex::new(r"^((\|(\s?-+\s?)+)+\|?)+|((\s?-+\s?)+\|)+((\s?-+\s?))?$")
+            Regex::new(r"^((\|(\s?-+\s?)+)+\|?)+|^((\s?-+\s?)+\|)+((\s?-+\s?))?$")
                 .expect("valid regex")
         })
         .is_match_at(text, 0)
-- 
2.43.0


From a1b4e2f2aa98d553d002ca0054f3c89114fb3a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 16/54] fix: keep both lines of the list separator comment in
 their block quote

---
 src/formatter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 1432278..ed8c529 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1469,7 +1469,8 @@ where
                 //     final list item, you can insert a blank HTML comment
                 if let Some(Event::Start(Tag::CodeBlock(CodeBlockKind::Indented))) = self.peek() {
                     self.write_newlines(1)?;
-                    writeln!(self, "<!-- Don't absorb code block into list -->")?;
+                    write!(self, "<!-- Don't absorb code block into list -->")?;
+                    self.write_newlines(1)?;
                     write!(self, "<!-- Consider a fenced code block instead -->")?;
                 };
             }
-- 
2.43.0


From 2aa1b23ab004f519a844b99e881acb62c4d1208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:23 +0000
Subject: [PATCH 17/54] fix: lengthen code fences that are too short for the
 code they enclose

---
 src/formatter.rs | 104 +++++++++++++++++++++++++++--------------------
 1 file changed, 59 insertions(+), 45 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index ed8c529..8d03c6f 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -621,23 +621,36 @@ where
         rewrite
     }
 
-    fn write_code_block_buffer(
-        &mut self,
-        info_string: Option<&str>,
-        unformatted_code: String,
-    ) -> std::fmt::Result {
-        let code = self.format_code_buffer(info_string, unformatted_code);
+    /// Write the info string that follows the opening code fence
+    fn write_info_string(&mut self, range: &Range<usize>, info_string: &str) -> std::fmt::Result {
+        let snippet = &self.input[range.clone()];
+        let marker_char = snippet.chars().next().expect("should have found a ` or ~");
 
-        if code.trim().is_empty() && info_string.is_some() {
+        let starts_with_space = snippet
+            .trim_start_matches(marker_char)
+            .starts_with(char::is_whitespace);
+
+        let info_string = snippet
+            .split(['\r', '\n'])
+            .next()
+            .unwrap_or(info_string)
+            .trim_start_matches(marker_char)
+            .trim();
+
+        if starts_with_space {
+            writeln!(self, " {info_string}")
+        } else {
+            writeln!(self, "{info_string}")
+        }
+    }
+
+    fn write_fenced_code(&mut self, code: &str) -> std::fmt::Result {
+        if code.trim().is_empty() {
             // The code fence is empty, and a newline should already ahve been added
             // when pushing the opening code fence, so just return.
             return Ok(());
         }
 
-        if info_string.is_none() {
-            return self.join_with_indentation(&code, false);
-        }
-
         // Trailing blank lines get removed, but whitespace at the end of the last line of a
         // fenced code block is part of the code.
         let last_non_whitespace = code.trim_end().len();
@@ -1023,37 +1036,9 @@ where
                 let capacity = (range.end - range.start) * 2;
                 let code_block_buffer = String::with_capacity(capacity);
                 match &kind {
-                    CodeBlockKind::Fenced(info_string) => {
-                        rewrite_marker(self.input, &range, self)?;
-
-                        if info_string.is_empty() {
-                            writeln!(self)?;
-                            let writer = MarkdownWriter::CodeBlock((code_block_buffer, kind));
-                            self.writers.push(writer);
-                            return Ok(());
-                        }
-
-                        let marker_char = self.input[range.start..]
-                            .chars()
-                            .next()
-                            .expect("should have found a ` or ~");
-
-                        let starts_with_space = self.input[range.clone()]
-                            .trim_start_matches(marker_char)
-                            .starts_with(char::is_whitespace);
-
-                        let info_string = self.input[range]
-                            .lines()
-                            .next()
-                            .unwrap_or_else(|| info_string.as_ref())
-                            .trim_start_matches(marker_char)
-                            .trim();
-
-                        if starts_with_space {
-                            writeln!(self, " {info_string}")?;
-                        } else {
-                            writeln!(self, "{info_string}")?;
-                        }
+                    CodeBlockKind::Fenced(_) => {
+                        // The fences are written in `TagEnd::CodeBlock`, because the code
+                        // determines how long they need to be.
                     }
                     CodeBlockKind::Indented => {
                         // TODO(ytmimi) support tab as an indent
@@ -1438,14 +1423,23 @@ where
 
                 match kind {
                     CodeBlockKind::Fenced(info_string) => {
-                        self.write_code_block_buffer(Some(info_string.as_ref()), code_block)?;
+                        let code = self.format_code_buffer(Some(info_string.as_ref()), code_block);
+                        let fence = code_fence(self.input, &range, &code);
+                        self.write_str(&fence)?;
+                        if info_string.is_empty() {
+                            writeln!(self)?;
+                        } else {
+                            self.write_info_string(&range, &info_string)?;
+                        }
+                        self.write_fenced_code(&code)?;
                         // write closing code fence
                         self.write_indentation(false)?;
-                        rewrite_marker(self.input, &range, self)?;
+                        self.write_str(&fence)?;
                     }
                     CodeBlockKind::Indented => {
                         // Maybe we'll consider formatting indented code blocks??
-                        self.write_code_block_buffer(None, code_block)?;
+                        let code = self.format_code_buffer(None, code_block);
+                        self.join_with_indentation(&code, false)?;
 
                         let popped_indentation = self
                             .indentation
@@ -1701,3 +1695,23 @@ fn rewrite_marker<W: std::fmt::Write>(
 ) -> std::fmt::Result {
     rewrite_marker_with_limit(input, range, writer, None)
 }
+
+/// Get the fence for a fenced code block. That's the fence from the input, unless it's not long
+/// enough to enclose the code once the code's indentation has been normalized.
+fn code_fence(input: &str, range: &Range<usize>, code: &str) -> String {
+    let marker_char = input[range.start..].chars().next().unwrap();
+    let marker = find_marker(input, range, |c| c != marker_char);
+    let min_len = code
+        .split(['\r', '\n'])
+        .filter_map(|line| {
+            let fence = line.trim_start_matches(' ');
+            let rest = fence.trim_start_matches(marker_char);
+            let is_closing_fence = line.len() - fence.len() <= 3
+                && rest.len() < fence.len()
+                && rest.bytes().all(|b| matches!(b, b' ' | b'\t'));
+            is_closing_fence.then(|| fence.len() - rest.len() + 1)
+        })
+        .max()
+        .unwrap_or_default();
+    marker_char.to_string().repeat(marker.len().max(min_len))
+}
-- 
2.43.0


From f39de42740296901a36cf967234a12b56d6263eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 18/54] fix: end the paragraph of a tight list item before a
 thematic break

---
 src/adapters/loose_list.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/adapters/loose_list.rs b/src/adapters/loose_list.rs
index 26f1ef8..3b4e605 100644
--- a/src/adapters/loose_list.rs
+++ b/src/adapters/loose_list.rs
@@ -245,7 +245,8 @@ where
                     | TagEnd::Table
                     | TagEnd::HtmlBlock
                     | TagEnd::FootnoteDefinition,
-                ) => {
+                )
+                | Event::Rule => {
                     self.stashed_events
                         .push_back((current_event, current_range));
                     maybe_push_start_paragraph!(self, Self);
@@ -282,7 +283,8 @@ where
                                 | Tag::Table(_)
                                 | Tag::HtmlBlock
                                 | Tag::FootnoteDefinition(_),
-                            ),
+                            )
+                            | Event::Rule,
                             _,
                         )) => {
                             if let Some(Some(index)) =
-- 
2.43.0


From 29cb9d4ddc51f5ae72c3cd413b4546d7b10c7d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:22 +0000
Subject: [PATCH 19/54] fix: find the destination of a link after its text, not
 at the last bracket

---
 src/formatter.rs |  6 +++++-
 src/links.rs     | 15 ++++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 8d03c6f..d3da2f5 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1563,8 +1563,12 @@ where
 
                 match link_type {
                     LinkType::Inline => {
+                        let text_end = match &self.last_event {
+                            Some((Event::Start(_), _)) | None => text.find('[').unwrap_or(0) + 1,
+                            Some((_, last_range)) => last_range.end.saturating_sub(range.start),
+                        };
                         if let Some((source_url, title_and_quote)) =
-                            crate::links::find_inline_url_and_title(text)
+                            crate::links::find_inline_url_and_title(text, text_end)
                         {
                             self.write_inline_link(&source_url, title_and_quote)?;
                         } else {
diff --git a/src/links.rs b/src/links.rs
index 6f667bb..e92a3bc 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -197,9 +197,18 @@ pub(super) fn find_reference_link_label(input: &str) -> &str {
 /// Inline links are expected to be well formed:
 /// [link](/uri) -> '/uri'
 /// [link](</my uri>) -> '/my uri'
-pub(super) fn find_inline_url_and_title(input: &str) -> Option<(String, Option<(String, char)>)> {
-    let (_, end) =
-        find_text_within_last_set_of_balance_bracket(input, b'[', b']', Some(|b| b == b'('));
+///
+/// `text_end` is the offset where the content of the link's text is known to end
+pub(super) fn find_inline_url_and_title(
+    input: &str,
+    text_end: usize,
+) -> Option<(String, Option<(String, char)>)> {
+    let after_text = input.get(text_end..).unwrap_or_default().trim_start();
+    let end = if after_text.starts_with("](") {
+        input.len() - after_text.len() + 1
+    } else {
+        find_text_within_last_set_of_balance_bracket(input, b'[', b']', Some(|b| b == b'(')).1
+    };
     // +1 to move past '('
     // -1 to move before ')'
     let inline_url = input[end + 1..input.len() - 1].trim();
-- 
2.43.0


From e5cf762d2456a5e8de0f912f7fa69eaec139f79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 20/54] fix: escape paragraph lines that look like footnote
 definitions without their indentation

---
 src/paragraph.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 4d226cc..d9c0086 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -30,6 +30,11 @@ impl WriteContext<'_> for Paragraph {
                 if s.is_empty() {
                     return self.write_str(s);
                 }
+
+                if s.starts_with(':') && self.ends_with_leading_footnote_label() {
+                    // Without its indentation this line could turn into a footnote definition
+                    self.buffer.push('\\');
+                }
             }
             MarkdownContext::Event(Event::Code(_)) => {
                 if s.starts_with(char::is_whitespace) || s.is_empty() {
@@ -168,6 +173,15 @@ impl Paragraph {
     }
 
     /// Check if the internal buffer is empty
+    /// Check if all that has been written to the last line is a footnote label. e.g. `[^label]`
+    fn ends_with_leading_footnote_label(&self) -> bool {
+        self.buffer
+            .rsplit_once('\n')
+            .and_then(|(_, last_line)| last_line.strip_prefix("[^"))
+            .and_then(|label| label.strip_suffix(']'))
+            .is_some_and(|label| is_balanced(label, '[', ']') && is_balanced(label, ']', '['))
+    }
+
     pub(super) fn is_empty(&self) -> bool {
         self.buffer.is_empty()
     }
-- 
2.43.0


From e1a4ae82e48bd8f7ec040a5b7fd3972a4bb8b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 21/54] fix: keep white space and trailing backslashes of link
 destinations, escape aligned table delimiter rows

---
 src/links.rs     |  4 +++-
 src/paragraph.rs | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index e92a3bc..dd38b69 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -95,6 +95,8 @@ where
         match title {
             Some((title, ')')) => write!(self, r#"]({url} ({}))"#, title.as_ref())?,
             Some((title, quote)) => write!(self, r#"]({url} {quote}{}{quote})"#, title.as_ref())?,
+            // A trailing backslash must not escape the closing paren
+            None if sequence_ends_on_escape(&url) => write!(self, r#"]({url}\)"#)?,
             None => write!(self, "]({url})")?,
         }
         Ok(())
@@ -240,7 +242,7 @@ fn link_title_start(link: &[u8]) -> usize {
 
 fn trim_angle_brackes(url: &str) -> &str {
     if url.starts_with('<') && url.ends_with('>') {
-        url[1..url.len() - 1].trim()
+        &url[1..url.len() - 1]
     } else {
         url.trim()
     }
diff --git a/src/paragraph.rs b/src/paragraph.rs
index d9c0086..8dcd7ae 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -321,8 +321,14 @@ fn could_be_table(text: &str) -> bool {
     static TABLE_ALIGNMENT_ROW_REGEX: OnceLock<Regex> = OnceLock::new();
     TABLE_ALIGNMENT_ROW_REGEX
         .get_or_init(|| {
-            Regex::new(r"^((\|(\s?-+\s?)+)+\|?)+|^((\s?-+\s?)+\|)+((\s?-+\s?))?$")
-                .expect("valid regex")
+            Regex::new(concat!(
+                r"^((\|(\s?-+\s?)+)+\|?)+",
+                r"|^((\s?-+\s?)+\|)+((\s?-+\s?))?$",
+                // With alignments
+                r"|^(\|[ \t]*)?:?-+:?[ \t]*\|[ \t|:-]*$",
+                r"|^\|[ \t]*:?-+:?[ \t]*$",
+            ))
+            .expect("valid regex")
         })
         .is_match_at(text, 0)
 }
-- 
2.43.0


From d39335c26e887316c21d88cd4f7d231d414c0d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:25 +0000
Subject: [PATCH 22/54] fix: don't slice into the last character of a link
 reference definition

---
 src/links.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index dd38b69..2b96d0b 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -705,7 +705,7 @@ fn parse_link_reference_definition<'i>(
                 // It's possible that the link is a single character
                 let is_last = iter.peek().is_none();
                 if is_last {
-                    let url = Cow::from(&input[idx..=idx]);
+                    let url = Cow::from(&input[idx..idx + c.len_utf8()]);
                     builder.set_url(LinkDestination::Regular(url), idx..idx, offset);
                     parsed_until = idx;
                     break;
@@ -739,7 +739,7 @@ fn parse_link_reference_definition<'i>(
                         if !c.is_whitespace() {
                             let is_last = iter.peek().is_none();
                             if is_last {
-                                let url = Cow::from(&input[start..=idx]);
+                                let url = Cow::from(&input[start..idx + c.len_utf8()]);
                                 builder.set_url(LinkDestination::Regular(url), start..idx, offset);
                                 parsed_until = idx;
                                 break;
-- 
2.43.0


From b2316734f77ae645a799c0b95c219efe477a5e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:37 +0000
Subject: [PATCH 23/54] fix: don't lose parts of link reference definitions
 with unicode white space or escaped newlines

---
 src/links.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index 2b96d0b..a6d86d0 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -280,6 +280,12 @@ fn split_inline_url_from_title(
     ))
 }
 
+/// White space that separates the parts of a link reference definition. Other unicode white space
+/// is part of the destination.
+fn is_link_whitespace(c: char) -> bool {
+    c.is_ascii_whitespace()
+}
+
 struct LinkReferenceDefinitionBuilder<'a> {
     label: Option<LinkLines<'a>>,
     destination: Option<(LinkDestination<'a>, std::ops::Range<usize>)>,
@@ -674,6 +680,7 @@ fn parse_link_reference_definition<'i>(
                     continue;
                 }
                 start = idx;
+                is_escaped = is_char_esacped(c, false);
                 match next_phase {
                     MultiLinePhase::Label => {
                         tracing::trace!("Transition to LinkParserPhase::Label");
@@ -698,7 +705,7 @@ fn parse_link_reference_definition<'i>(
                 // TODO(ytmimi) handle `>` on newlines in url start. If we're in a nested context
                 // like a block quote, then we need to potentially ignore leading `>` chars, but if
                 // we're still on the same line then we can assume that the `>` is part of the URL.
-                if c.is_whitespace() || (newline_count > 0 && c == '>') {
+                if is_link_whitespace(c) || (newline_count > 0 && c == '>') {
                     continue;
                 }
 
@@ -736,7 +743,7 @@ fn parse_link_reference_definition<'i>(
                         parsed_until = idx;
                     }
                     _ => {
-                        if !c.is_whitespace() {
+                        if !is_link_whitespace(c) {
                             let is_last = iter.peek().is_none();
                             if is_last {
                                 let url = Cow::from(&input[start..idx + c.len_utf8()]);
@@ -770,7 +777,7 @@ fn parse_link_reference_definition<'i>(
                     }
                 }
 
-                if c.is_whitespace() || c == '>' {
+                if is_link_whitespace(c) || c == '>' {
                     continue;
                 }
 
@@ -827,7 +834,7 @@ fn parse_link_reference_definition<'i>(
                 break;
             }
 
-            if !c.is_whitespace() {
+            if !is_link_whitespace(c) {
                 builder.remove_false_title();
                 parsed_until = idx;
                 break;
-- 
2.43.0


From 6099ff3c626748346ae1398e902ab3c3b7b82e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 24/54] fix: don't add lines to nested HTML blocks with CRLF
 line endings

---
 src/formatter.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index d3da2f5..c22a1ff 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -832,6 +832,14 @@ where
 
                     self.write_event_str(&event, hard_break)?;
                 }
+                // With CRLF line endings the `\n` of a nested HTML block's line is its own event
+                Event::Html(ref html)
+                    if html.as_ref() == "\n"
+                        && matches!(
+                            &self.last_event,
+                            Some((Event::Html(_), last_range))
+                                if &self.input[last_range.end..range.start] == "\r"
+                        ) => {}
                 Event::Html(_) => {
                     let newlines = self.count_newlines(&range);
                     if self.needs_indent {
-- 
2.43.0


From 29bfe828bdd4c5ca69c699118970d26fe20ca4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 25/54] fix: don't duplicate the blank lines of nested HTML
 blocks

---
 src/formatter.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index c22a1ff..d593520 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -832,14 +832,11 @@ where
 
                     self.write_event_str(&event, hard_break)?;
                 }
-                // With CRLF line endings the `\n` of a nested HTML block's line is its own event
-                Event::Html(ref html)
-                    if html.as_ref() == "\n"
-                        && matches!(
-                            &self.last_event,
-                            Some((Event::Html(_), last_range))
-                                if &self.input[last_range.end..range.start] == "\r"
-                        ) => {}
+                Event::Html(ref html) if html.trim().is_empty() => {
+                    // Blank lines get written before the next line, and with CRLF line endings
+                    // this could also be nothing but the end of a nested HTML block's line.
+                    continue;
+                }
                 Event::Html(_) => {
                     let newlines = self.count_newlines(&range);
                     if self.needs_indent {
-- 
2.43.0


From f9b513c89ef2c3b55f128c6e093847831287067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 26/54] fix: keep escaped brackets of reference labels

---
 src/formatter.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index d593520..ab13232 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1566,12 +1566,13 @@ where
                 self.write_str(&link_writer.into_buffer())?;
                 let text = &self.input[range.clone()];
 
+                let text_end = match &self.last_event {
+                    Some((Event::Start(_), _)) | None => text.find('[').unwrap_or(0) + 1,
+                    Some((_, last_range)) => last_range.end.saturating_sub(range.start),
+                };
+
                 match link_type {
                     LinkType::Inline => {
-                        let text_end = match &self.last_event {
-                            Some((Event::Start(_), _)) | None => text.find('[').unwrap_or(0) + 1,
-                            Some((_, last_range)) => last_range.end.saturating_sub(range.start),
-                        };
                         if let Some((source_url, title_and_quote)) =
                             crate::links::find_inline_url_and_title(text, text_end)
                         {
@@ -1586,9 +1587,16 @@ where
                         }
                     }
                     LinkType::Reference | LinkType::ReferenceUnknown => {
-                        let label = crate::links::find_reference_link_label(text);
+                        // The parser also accepts labels with an escaped opening bracket
+                        let escaped_label = text
+                            .get(text_end..)
+                            .and_then(|after_text| after_text.trim_start().strip_prefix("]\\["))
+                            .and_then(|label| label.strip_suffix(']'));
+                        let label = escaped_label
+                            .unwrap_or_else(|| crate::links::find_reference_link_label(text));
+                        let opener = if escaped_label.is_some() { "]\\[" } else { "][" };
                         if count_newlines(label) > 0 {
-                            write!(self, "][")?;
+                            write!(self, "{opener}")?;
                             let label = split_lines(label)
                                 .map(|l| self.trim_leading_indentation(l))
                                 .join("\n");
@@ -1600,9 +1608,9 @@ where
                             self.write_str(&label)?;
                             write!(self, "]")?;
                         } else if label.starts_with('^') {
-                            write!(self, "][\\{label}]")?;
+                            write!(self, "{opener}\\{label}]")?;
                         } else {
-                            write!(self, "][{label}]")?;
+                            write!(self, "{opener}{label}]")?;
                         }
                     }
                     LinkType::Collapsed | LinkType::CollapsedUnknown => write!(self, "][]")?,
-- 
2.43.0


From e6ca6dc60558c57697feaed8c73e6877ceab32fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 27/54] fix: keep caret and backslash escapes of multi-line
 link definitions

---
 src/links.rs | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index a6d86d0..65b2678 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -304,10 +304,11 @@ impl<'a> LinkReferenceDefinitionBuilder<'a> {
     fn set_label(&mut self, label: Cow<'a, str>, range: std::ops::Range<usize>, offset: usize) {
         let mut label_parts = self.label.take().unwrap_or(LinkLines::new());
         let offset_range = (offset + range.start)..(offset + range.end);
-        if label_parts.is_empty() && label.starts_with('^') {
+        let is_label_start = label_parts.iter().all(|part| part.trim().is_empty());
+        if is_label_start && label.trim_start().starts_with('^') {
             let mut new_label = String::with_capacity(label.len() + 1);
             new_label.push('\\');
-            new_label.push_str(&label);
+            new_label.push_str(label.trim_start());
             label_parts.push((new_label.into(), offset_range));
         } else {
             label_parts.push((label, offset_range));
@@ -527,24 +528,17 @@ impl<'a> LinkLines<'a> {
         let mut buffer = String::new();
         // FIXME(ytmimi) probably should provide an option to allow multi-line lines.
         // right now everything gets formatted on a single line.
-        let mut iter = self.iter().peekable();
-        while let Some(text) = iter.next().map(|t| t.trim()) {
-            if text.is_empty() {
-                continue;
-            }
-
-            let is_last = iter.peek().is_none();
-            if !is_last {
-                write!(buffer, "{text} ")?;
-            } else if sequence_ends_on_escape(text) {
-                // Escape this so that the next formatting run doesn't
-                // interpret the closing `]` as `\]`.
-                write!(buffer, "{text}\\")?;
-            } else {
-                write!(buffer, "{text}")?;
-            }
+        for text in self.iter().map(|t| t.trim()).filter(|t| !t.is_empty()) {
+            write!(buffer, "{text} ")?;
+        }
+        let text = buffer.trim();
+        write!(writer, "{text}")?;
+        if sequence_ends_on_escape(text) {
+            // Escape this so that the next formatting run doesn't
+            // interpret the closing `]` as `\]`.
+            write!(writer, "\\")?;
         }
-        write!(writer, "{}", buffer.trim())
+        Ok(())
     }
 }
 
@@ -635,6 +629,7 @@ fn parse_link_reference_definition<'i>(
             }
             LinkParserPhase::Label => {
                 if c == '\n' {
+                    is_escaped = false;
                     let label = Cow::from(&input[start..idx]);
                     builder.set_label(label, start..idx, offset);
                     // Handle the newline if the next char doesn't immediatly terminate the label
@@ -797,6 +792,7 @@ fn parse_link_reference_definition<'i>(
             }
             LinkParserPhase::Title(marker) => {
                 if c == '\n' {
+                    is_escaped = false;
                     let label = Cow::from(&input[start..idx]);
                     builder.set_title(marker, label, start..idx, offset);
                     // Handle the newline if the next char doesn't immediatly terminate the title
-- 
2.43.0


From 32d8a160cae8d0b2ccbd1c3cd72bc0de33cdeb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:36 +0000
Subject: [PATCH 28/54] fix: keep leading whitespace of nested HTML block lines
 indented with tabs

---
 src/adapters/loose_list.rs | 11 +++++++++--
 src/formatter.rs           |  4 ++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/adapters/loose_list.rs b/src/adapters/loose_list.rs
index 3b4e605..900012c 100644
--- a/src/adapters/loose_list.rs
+++ b/src/adapters/loose_list.rs
@@ -251,10 +251,17 @@ where
                         .push_back((current_event, current_range));
                     maybe_push_start_paragraph!(self, Self);
                 }
-                Event::Html(ref text) if !is_single_html_tag(text) => {
+                Event::Start(Tag::HtmlBlock) => {
                     self.stashed_events
                         .push_back((current_event, current_range));
-                    maybe_push_start_paragraph!(self, Self);
+
+                    // The lines of an HTML block and their leading whitespace aren't a paragraph
+                    while let Some(event) = self
+                        .inner
+                        .next_if(|(e, _)| matches!(e, Event::Html(_) | Event::Text(_)))
+                    {
+                        self.stashed_events.push_back(event);
+                    }
                 }
                 _ => {
                     self.stashed_events
diff --git a/src/formatter.rs b/src/formatter.rs
index ab13232..8582090 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -200,7 +200,11 @@ where
 
     /// Check if we should write newlines and indentation before the next Start Event
     fn check_needs_indent(&mut self, event: &Event<'i>) {
+        let in_html_block = self.in_html_block();
         self.needs_indent = match self.peek() {
+            // Leading whitespace of the html block's next line
+            Some(Event::Text(_)) if in_html_block => matches!(event, Event::Html(_)),
+            Some(Event::Html(_)) if in_html_block => !matches!(event, Event::Text(_)),
             Some(Event::Start(_) | Event::Rule | Event::Html(_) | Event::End(TagEnd::Item)) => true,
             Some(Event::End(TagEnd::BlockQuote(..))) => matches!(event, Event::End(_)),
             Some(Event::Text(_)) => matches!(event, Event::End(_) | Event::Start(Tag::Item)),
-- 
2.43.0


From f0734dab701777266821d6f0ac858077571ae75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:07 +0000
Subject: [PATCH 29/54] fix: keep multi-line code spans of footnotes and
 backslashes before trailing whitespace

---
 src/footnote.rs  |  8 ++++++++
 src/formatter.rs | 40 +++++++++++++++++++---------------------
 2 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/footnote.rs b/src/footnote.rs
index a879d16..25a57fb 100644
--- a/src/footnote.rs
+++ b/src/footnote.rs
@@ -31,6 +31,14 @@ impl FootnoteDefinition {
         indentation + FOOTNOTE_INDENTATION.len()
     }
 
+    /// The indentation of every line of the definition, except for the first one
+    pub(super) fn full_indentation(&self) -> impl Iterator<Item = &str> {
+        self.indentation
+            .iter()
+            .map(|i| i.as_ref())
+            .chain(std::iter::once(FOOTNOTE_INDENTATION))
+    }
+
     /// Check if the internal buffer is empty
     pub(super) fn is_empty(&self) -> bool {
         self.buffer.is_empty()
diff --git a/src/formatter.rs b/src/formatter.rs
index 8582090..5882838 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -463,7 +463,16 @@ where
 
     fn trim_leading_indentation<'a>(&self, s: &'a str) -> &'a str {
         let mut output = s;
-        for indent in self.indentation.iter() {
+        // Footnote definitions take the indentation, and add their own once they're written
+        let taken = self
+            .writers
+            .iter()
+            .filter_map(|writer| match writer {
+                MarkdownWriter::FootnoteDefinition(f) => Some(f.full_indentation()),
+                _ => None,
+            })
+            .flatten();
+        for indent in taken.chain(self.indentation.iter().map(|i| i.as_ref())) {
             if indent.starts_with('>') {
                 output = output.trim_start();
                 output = output
@@ -756,25 +765,12 @@ where
                         };
 
                     // Prevent the next pass from interpreting this as a hard break
-                    let should_escape_an_escape =
-                        |t: &str, state: &mut FormatState<'i, 'm, I>, r: Range<usize>| -> bool {
-                            let not_empty_paragraph =
-                                !state.in_paragraph() && !state.is_current_buffer_empty();
-                            if not_empty_paragraph || !t.chars().all(|c| c == '\\') {
-                                return false;
-                            }
-
-                            // If the next is a soft break then we want to escape this `\\`
-                            let Some(Event::SoftBreak) = state.peek() else {
-                                return false;
-                            };
-
-                            let Some(last_line) = &self.input[..r.end].lines().last() else {
-                                return false;
-                            };
-
-                            sequence_ends_on_escape(last_line)
-                        };
+                    let should_escape_an_escape = text.ends_with('\\')
+                        && matches!(self.peek(), Some(Event::SoftBreak))
+                        && self.input[..range.end]
+                            .lines()
+                            .last()
+                            .is_some_and(sequence_ends_on_escape);
 
                     match needs_escape {
                         Some(escape_kind)
@@ -793,7 +789,6 @@ where
                             if starts_with_escape
                                 || needs_escape.is_some()
                                 || could_be_interpreted_as_html(text, &mut self)
-                                || should_escape_an_escape(text, &mut self, range)
                                 || (self.in_table() && text.starts_with('|'))
                             {
                                 // recover escape characters
@@ -803,6 +798,9 @@ where
                             }
                         }
                     }
+                    if should_escape_an_escape {
+                        write_context!(self, Escape, "\\")?;
+                    }
                     self.check_needs_indent(&event);
                 }
                 Event::Code(_) => {
-- 
2.43.0


From 3da1ace4f4570cd873645bbc2d32c9b7ebb3bf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 30/54] fix: don't turn thematic breaks, text, or headings into
 metadata blocks and attributes

---
 src/formatter.rs | 25 ++++++++++++++++++++++++-
 src/header.rs    | 31 +++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 5882838..fad8713 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -764,6 +764,12 @@ where
                             last_was_lt && t.starts_with('!')
                         };
 
+                    // Prevent the next pass from interpreting the paragraph as a metadata block
+                    let could_be_interpreted_as_metadata = text == "+++"
+                        && matches!(self.last_event, Some((Event::Start(Tag::Paragraph), _)))
+                        && self.indentation.is_empty()
+                        && starts_metadata_block(&self.input[range.end..], &["+++"]);
+
                     // Prevent the next pass from interpreting this as a hard break
                     let should_escape_an_escape = text.ends_with('\\')
                         && matches!(self.peek(), Some(Event::SoftBreak))
@@ -789,6 +795,7 @@ where
                             if starts_with_escape
                                 || needs_escape.is_some()
                                 || could_be_interpreted_as_html(text, &mut self)
+                                || could_be_interpreted_as_metadata
                                 || (self.in_table() && text.starts_with('|'))
                             {
                                 // recover escape characters
@@ -853,7 +860,16 @@ where
                     self.rewrite_reference_link_definitions(&reference_definition_range)?;
                     let newlines = self.count_newlines(&range);
                     self.write_newlines(newlines)?;
-                    self.write_event_str(&event, self.input[range].trim_end())?;
+                    let rule = self.input[range.clone()].trim_end();
+                    let rest = &self.input[range.start + rule.len()..];
+                    if rule == "---"
+                        && !self.is_nested()
+                        && starts_metadata_block(rest, &["---", "..."])
+                    {
+                        // An indented `---` can't start a metadata block
+                        self.write_str(" ")?;
+                    }
+                    self.write_event_str(&event, rule)?;
                     self.check_needs_indent(&event)
                 }
                 Event::FootnoteReference(ref text) => {
@@ -1676,6 +1692,13 @@ fn skip_leading_whitespace(input: &str, start: usize) -> usize {
     start + (snippet.len() - snippet.trim_start().len())
 }
 
+/// Check if a `---` or `+++` that's followed by this text could start a metadata block
+fn starts_metadata_block(rest: &str, end_markers: &[&str]) -> bool {
+    let mut lines = split_lines(rest).skip(1).map(str::trim);
+    let is_end = |l: &str| end_markers.contains(&l);
+    lines.next().is_some_and(|l| !l.is_empty() && !is_end(l)) && lines.any(is_end)
+}
+
 /// Find some marker that denotes the start of a markdown construct.
 /// for example, `**` for bold or `_` for italics.
 fn find_marker<'i, P>(input: &'i str, range: &Range<usize>, predicate: P) -> &'i str
diff --git a/src/header.rs b/src/header.rs
index bc5df04..d761c81 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -12,6 +12,7 @@ pub(super) struct Header<'i> {
     indentation: Vec<Cow<'static, str>>,
     kind: HeaderKind<'i>,
     attrs_on_own_line: bool,
+    has_empty_attrs: bool,
     id: Option<CowStr<'i>>,
     classes: Vec<CowStr<'i>>,
     attrs: Vec<(CowStr<'i>, Option<CowStr<'i>>)>,
@@ -103,11 +104,23 @@ impl<'i> Header<'i> {
             _ => HeaderKind::Atx(level),
         };
 
+        let text = match &kind {
+            HeaderKind::SetextH1(marker) | HeaderKind::SetextH2(marker) => {
+                full_header.trim_end().trim_end_matches(marker)
+            }
+            HeaderKind::Atx(_) => full_header.trim_end().trim_end_matches('#'),
+        };
+        let has_empty_attrs = text
+            .trim_end()
+            .strip_suffix('}')
+            .is_some_and(|t| t.trim_end_matches([' ', '\t']).ends_with('{'));
+
         Self {
             buffer: String::with_capacity(full_header.len() * 2),
             indentation,
             kind,
             attrs_on_own_line,
+            has_empty_attrs,
             id,
             classes,
             attrs,
@@ -146,6 +159,7 @@ impl<'i> Header<'i> {
         }
 
         self.escape_trailing_empty_attribute_brackets();
+        self.keep_empty_attribute_brackets();
         self.write_header_attributes()?;
         self.write_setext_header()?;
         Ok((self.buffer, self.indentation))
@@ -261,6 +275,23 @@ impl<'i> Header<'i> {
         }
     }
 
+    /// Empty `{}` are normally removed. Keep them if the text in front of them would turn into
+    /// something else without them.
+    fn keep_empty_attribute_brackets(&mut self) {
+        if !self.has_empty_attrs || self.has_attributes() {
+            return;
+        }
+
+        let last_line = self.buffer.lines().last().unwrap_or_default();
+        let is_attributes = last_line.contains('{')
+            && last_line.ends_with('}')
+            && !last_line.ends_with("\\}");
+        let is_construct = self.is_setext_header() && needs_escape(last_line).is_some();
+        if is_attributes || is_construct {
+            self.buffer.push_str("{}");
+        }
+    }
+
     /// Is `Self` formatting a setext header
     pub(super) fn is_setext_header(&self) -> bool {
         matches!(
-- 
2.43.0


From 5c7349c0053efaa8b137ab045ea453e201af7cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 31/54] fix: strip block quote markers from multi-line link
 destinations and titles

---
 src/formatter.rs | 11 ++++++++++-
 src/links.rs     |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index fad8713..37207b2 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1591,8 +1591,17 @@ where
 
                 match link_type {
                     LinkType::Inline => {
+                        // Remove the indentation of destinations and titles on their own line
+                        let lines = split_lines(&text[text_end..])
+                            .enumerate()
+                            .map(|(i, line)| match i {
+                                0 => line,
+                                _ => self.trim_leading_indentation(line),
+                            })
+                            .join("\n");
+                        let text = format!("{}{lines}", &text[..text_end]);
                         if let Some((source_url, title_and_quote)) =
-                            crate::links::find_inline_url_and_title(text, text_end)
+                            crate::links::find_inline_url_and_title(&text, text_end)
                         {
                             self.write_inline_link(&source_url, title_and_quote)?;
                         } else {
diff --git a/src/links.rs b/src/links.rs
index 65b2678..d52e942 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -32,7 +32,7 @@ impl Write for LinkWriter {
         if self.is_empty() {
             // While the buffer is empty trim leading whitespace
             input = s.trim_start();
-            if input.starts_with('^') {
+            if input.starts_with('^') && !self.is_auto_link {
                 self.buffer.push('\\');
             }
         }
-- 
2.43.0


From 67bb37405effd5672b418af2059cd39506c99d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 32/54] fix: keep lists tight after items whose code block has
 no closing fence

---
 src/formatter.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 37207b2..88189a1 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -146,6 +146,8 @@ where
     /// next Start event should push indentation
     needs_indent: bool,
     last_position: usize,
+    /// Where the last fenced code block without a closing fence ended
+    unclosed_fence_end: usize,
     // Last event emitted from the inner iterator
     last_event: Option<I::Item>,
     formatter: &'m MarkdownFormatter,
@@ -591,6 +593,7 @@ where
             writers: vec![],
             needs_indent: false,
             last_position: 0,
+            unclosed_fence_end: 0,
             last_event: None,
             formatter,
         }
@@ -1130,6 +1133,10 @@ where
                 } else {
                     marker_start..range.end
                 };
+                if (self.last_position..range.start).contains(&self.unclosed_fence_end) {
+                    // The blank lines above belong to the previous item's code block
+                    self.last_position = self.unclosed_fence_end;
+                }
                 let newlines = self.count_newlines(&range);
                 if self.needs_indent && newlines > 0 {
                     self.write_newlines(newlines)?;
@@ -1458,6 +1465,12 @@ where
                         // write closing code fence
                         self.write_indentation(false)?;
                         self.write_str(&fence)?;
+
+                        let code_block = &self.input[range.clone()];
+                        if is_unclosed_fence(code_block) {
+                            let end = code_block.strip_suffix('\n').unwrap_or(code_block);
+                            self.unclosed_fence_end = range.start + end.len();
+                        }
                     }
                     CodeBlockKind::Indented => {
                         // Maybe we'll consider formatting indented code blocks??
@@ -1747,6 +1760,16 @@ fn rewrite_marker<W: std::fmt::Write>(
     rewrite_marker_with_limit(input, range, writer, None)
 }
 
+/// Check if a code block ends with its container instead of a closing fence
+fn is_unclosed_fence(code_block: &str) -> bool {
+    let fence = code_block.trim_start_matches(['`', '~']);
+    let fence_len = code_block.len() - fence.len();
+    let marker = &code_block[..fence_len];
+    let last_line = split_lines(fence.trim_end()).skip(1).last().unwrap_or_default();
+    let closing = last_line.trim_start_matches([' ', '\t', '>']);
+    fence_len > 0 && (!closing.starts_with(marker) || closing.trim_start_matches(&marker[..1]) != "")
+}
+
 /// Get the fence for a fenced code block. That's the fence from the input, unless it's not long
 /// enough to enclose the code once the code's indentation has been normalized.
 fn code_fence(input: &str, range: &Range<usize>, code: &str) -> String {
-- 
2.43.0


From 815979e5d5cdbe1c81b55c73e6e4302c4e12d745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 33/54] fix: don't leave backslashes or tabs at the end of
 wrapped lines

---
 src/paragraph.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 8dcd7ae..fbdcd30 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -252,23 +252,30 @@ fn hard_break_spaces(line: &str) -> Option<&str> {
 /// Find the words of a line for wrapping. A word that would be interpreted as the start of some
 /// other Markdown construct at the beginning of a line stays with the word that precedes it.
 /// Link destinations like `<my url>` can't contain line endings and don't get split either.
+/// A backslash at the end of a line would turn into a hard break.
 fn find_words(line: &str) -> Box<dyn Iterator<Item = textwrap::core::Word<'_>> + '_> {
     let mut words = textwrap::WordSeparator::AsciiSpace
         .find_words(line)
         .peekable();
-    let mut start = 0;
+    let (mut start, mut end) = (0, 0);
 
     Box::new(std::iter::from_fn(move || {
         let word = words.next()?;
-        let mut end = start + word.word.len() + word.whitespace.len();
+        end += word.word.len() + word.whitespace.len();
         while let Some(next_word) = words.next_if(|w| {
             ends_in_link_destination(&line[start..end])
+                || sequence_ends_on_escape(line[start..end].trim_end())
+                || w.word.trim_start_matches('\t').is_empty()
                 || is_unsafe_at_line_start(w.word, &line[end..])
         }) {
             end += next_word.word.len() + next_word.whitespace.len();
         }
-        let word = textwrap::core::Word::from(&line[start..end]);
-        start = end;
+        // Tabs around the spaces are also whitespace that's dropped when breaking lines
+        let tabs = line[end..].len() - line[end..].trim_start_matches('\t').len();
+        let text = &line[start..end + tabs];
+        let mut word = textwrap::core::Word::from(text.trim_end_matches([' ', '\t']));
+        word.whitespace = &text[word.word.len()..];
+        start = end + tabs;
         Some(word)
     }))
 }
-- 
2.43.0


From 379545694ac76eaf2ba1a57f263dba3efc1ce191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 34/54] fix: keep hard breaks with tabs, collapse spaces when
 reflowing, and don't wrap after an underline

---
 src/paragraph.rs | 47 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index fbdcd30..acfed27 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -145,6 +145,9 @@ impl WriteContext<'_> for Paragraph {
             self.buffer.push('\\');
         }
 
+        if matches!(ctx, MarkdownContext::Event(Event::Text(_))) && !s.trim().is_empty() {
+            return self.write_str(&self.collapse_spaces(s));
+        }
         self.write_str(s)
     }
 }
@@ -186,6 +189,35 @@ impl Paragraph {
         self.buffer.is_empty()
     }
 
+    /// Multiple spaces are as good as one when we're reflowing text. How lines get filled shouldn't
+    /// depend on spaces that'll disappear once they're replaced by a line ending.
+    fn collapse_spaces<'t>(&self, text: &'t str) -> Cow<'t, str> {
+        let is_space = |c| matches!(c, ' ' | '\t');
+        let mut last_char_is_space = self.buffer.ends_with(is_space);
+        let has_multiple_spaces = text.chars().any(|c| {
+            let was_space = std::mem::replace(&mut last_char_is_space, is_space(c));
+            was_space && is_space(c)
+        });
+        if self.max_width.is_none() || !self.should_reflow_text || !has_multiple_spaces {
+            return text.into();
+        }
+
+        let mut collapsed = String::with_capacity(text.len());
+        for c in text.chars() {
+            let buffer = if collapsed.is_empty() {
+                &self.buffer
+            } else {
+                &collapsed
+            };
+            if !is_space(c) {
+                collapsed.push(c);
+            } else if !buffer.ends_with(is_space) {
+                collapsed.push(' ');
+            }
+        }
+        collapsed.into()
+    }
+
     /// Consume Self and return the formatted buffer
     pub(super) fn into_buffer(mut self) -> String {
         let rewrite_buffer = std::mem::take(&mut self.buffer);
@@ -241,7 +273,7 @@ impl Paragraph {
 /// Find the trailing spaces of a line that ends with a hard break. A backslash isn't included
 /// because it counts towards the width of the line.
 fn hard_break_spaces(line: &str) -> Option<&str> {
-    let spaces = &line[line.trim_end_matches(' ').len()..];
+    let spaces = &line[line.trim_end_matches([' ', '\t']).len()..];
     if spaces.len() >= 2 {
         Some(spaces)
     } else {
@@ -265,7 +297,8 @@ fn find_words(line: &str) -> Box<dyn Iterator<Item = textwrap::core::Word<'_>> +
         while let Some(next_word) = words.next_if(|w| {
             ends_in_link_destination(&line[start..end])
                 || sequence_ends_on_escape(line[start..end].trim_end())
-                || w.word.trim_start_matches('\t').is_empty()
+                || w.word.trim_matches('\t').is_empty()
+                || (start == 0 && is_unsafe_as_line(&line[..end]))
                 || is_unsafe_at_line_start(w.word, &line[end..])
         }) {
             end += next_word.word.len() + next_word.whitespace.len();
@@ -304,6 +337,9 @@ fn escape_link_definition(mut text: String) -> String {
 
 /// Check if breaking a line before `word` could change the meaning of the text
 fn is_unsafe_at_line_start(word: &str, rest_of_line: &str) -> bool {
+    // Leading tabs are removed along with the spaces
+    let word = word.trim_start_matches('\t');
+    let rest_of_line = rest_of_line.trim_start_matches('\t');
     let is_marker_only = |markers: &[char]| word.chars().all(|c| markers.contains(&c));
 
     is_marker_only(&['-', '_', '*'])
@@ -312,6 +348,13 @@ fn is_unsafe_at_line_start(word: &str, rest_of_line: &str) -> bool {
         || starts_markdown_construct(rest_of_line)
 }
 
+/// Check if text at the start of a line could change its meaning if nothing follows it. It could
+/// turn into a setext heading underline or a table's delimiter row.
+fn is_unsafe_as_line(text: &str) -> bool {
+    let text = text.trim();
+    text.chars().all(|c| c == '=') || text.chars().all(|c| matches!(c, '|' | ':' | '-' | ' '))
+}
+
 /// Determine if this is the delimiter row of a markdown table.
 ///
 /// For example, the second row of the table is the delimiter row.
-- 
2.43.0


From 576f8a2d9c9d6ee2d544fd3eb5a339a3eeabc7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 35/54] fix: escape angle brackets when enclosing a link
 destination in angle brackets

---
 src/links.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index d52e942..e2ae56c 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -106,16 +106,32 @@ where
 pub(crate) fn format_link_url(url: &str, wrap_empty_urls: bool) -> Cow<'_, str> {
     if wrap_empty_urls && url.is_empty() {
         Cow::from("<>")
-    } else if !url.starts_with('<') && !url.ends_with('>') && url.contains(|c: char| c == ' ' || c.is_ascii_control())
+    } else if !(url.starts_with('<') && url.ends_with('>')) && url.contains(|c: char| c == ' ' || c.is_ascii_control())
         || !balanced_parens(url)
     {
         // https://spec.commonmark.org/0.30/#link-destination
-        Cow::from(format!("<{url}>"))
+        Cow::from(format!("<{}>", escape_angle_brackets(url)))
     } else {
         url.into()
     }
 }
 
+/// Angle brackets must be escaped within a link destination that's enclosed in angle brackets
+fn escape_angle_brackets(url: &str) -> Cow<'_, str> {
+    if !url.contains(['<', '>']) {
+        return url.into();
+    }
+
+    let mut escaped = String::with_capacity(url.len() + 1);
+    for c in url.chars() {
+        if matches!(c, '<' | '>') && !sequence_ends_on_escape(&escaped) {
+            escaped.push('\\');
+        }
+        escaped.push(c);
+    }
+    escaped.into()
+}
+
 /// Check if the parens are balanced
 fn balanced_parens(url: &str) -> bool {
     is_balanced(url, '(', ')')
-- 
2.43.0


From 22d3d246c432b5037a830bd9fa765c518073485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 36/54] fix: keep the indentation of paragraph lines that would
 start an HTML block without it

---
 src/escape.rs    |  8 +++++++-
 src/formatter.rs | 12 ++++++++++++
 src/paragraph.rs |  7 ++++++-
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index c9b9180..bcb21d5 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -161,11 +161,17 @@ pub(crate) fn starts_markdown_construct(line: &str) -> bool {
     };
     let is_html_block = || {
         line.strip_prefix('<').is_some_and(|l| {
+            let is_closing_tag = l.starts_with('/');
             let name = l.trim_start_matches('/');
             let end = name
                 .find(|c: char| c.is_whitespace() || matches!(c, '/' | '>'))
                 .unwrap_or(name.len());
-            starts_with_html_block_identifier(&name[..end])
+            let name = &name[..end];
+            // The closing tags of these elements can't start an HTML block
+            let is_raw_text = ["pre", "script", "style", "textarea"]
+                .iter()
+                .any(|n| n.eq_ignore_ascii_case(name));
+            starts_with_html_block_identifier(name) && !(is_closing_tag && is_raw_text)
         })
     };
     let is_footnote_definition = || {
diff --git a/src/formatter.rs b/src/formatter.rs
index 88189a1..8ef77d2 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -221,6 +221,11 @@ where
             .is_some_and(|(e, _)| matches!(e, Event::SoftBreak | Event::HardBreak))
     }
 
+    /// Check if the last event was the start of a paragraph
+    fn starts_paragraph(&self) -> bool {
+        matches!(self.last_event, Some((Event::Start(Tag::Paragraph), _)))
+    }
+
     /// check if we're in a blockquote
     pub(crate) fn in_blockquote(&self) -> bool {
         self.nested_context
@@ -547,8 +552,15 @@ where
 
             let line = line.trim_end();
             let needs_escape = self.needs_escape(line, true);
+            let starts_line = i > 0 || self.last_was_line_break() || self.starts_paragraph();
 
             match needs_escape {
+                _ if starts_line && starts_markdown_construct(line) => {
+                    // The line is only part of the paragraph because of its indentation. Keep it
+                    // since backslash escapes don't work in HTML.
+                    self.write_str("    ")?;
+                    write_context!(self, event, "{line}{trailing_spaces}")?;
+                }
                 Some(escape_kind) if escape_kind.multi_character_escape() => {
                     let marker = escape_kind.marker();
                     for c in line.chars() {
diff --git a/src/paragraph.rs b/src/paragraph.rs
index acfed27..70a19a9 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -157,7 +157,12 @@ impl Write for Paragraph {
         if self.max_width.is_some() && self.should_reflow_text && s.trim().is_empty() {
             // If the user configured the max_width and the reflow text option
             // then push a space so we can reflow text
-            self.buffer.push(' ');
+            if self.buffer.ends_with('\n') {
+                // Except if it's the indentation of a line after a hard break
+                self.buffer.push_str(s);
+            } else if !self.buffer.ends_with(' ') {
+                self.buffer.push(' ');
+            }
         } else {
             self.buffer.push_str(s);
         }
-- 
2.43.0


From 9f598bb0c9f585747f787dd9c73ed5cb74ca2047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 37/54] fix: keep indented text and code spans from starting
 lists, quotes, and code blocks

---
 src/formatter.rs | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 src/paragraph.rs | 15 ++++++++++++++-
 2 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 8ef77d2..ed7e8e6 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -12,7 +12,9 @@ use pulldown_cmark::{LinkType, Parser, Tag};
 use crate::adapters::{ListEndAtLastItemExt, LooseListExt};
 use crate::builder::{CodeBlockContext, CodeBlockFormatter};
 use crate::config::Config;
-use crate::escape::starts_markdown_construct;
+use crate::escape::{
+    EscapeKind, FencedCodeBlockMarker, SingleLineEscape, starts_markdown_construct,
+};
 use crate::footnote::FootnoteDefinition;
 use crate::header::{Header, HeaderKind};
 use crate::html::starts_with_html_block_identifier;
@@ -146,6 +148,7 @@ where
     /// next Start event should push indentation
     needs_indent: bool,
     last_position: usize,
+    paragraph_start: usize,
     /// Where the last fenced code block without a closing fence ended
     unclosed_fence_end: usize,
     // Last event emitted from the inner iterator
@@ -605,6 +608,7 @@ where
             writers: vec![],
             needs_indent: false,
             last_position: 0,
+            paragraph_start: 0,
             unclosed_fence_end: 0,
             last_event: None,
             formatter,
@@ -707,6 +711,9 @@ where
                     .unwrap_or(0)
             };
             let last_range = range.clone();
+            if matches!(event, Event::Start(Tag::Paragraph | Tag::Item)) {
+                self.paragraph_start = range.start;
+            }
             match event {
                 Event::Start(ref tag) => {
                     last_position = range.start;
@@ -793,7 +800,29 @@ where
                             .last()
                             .is_some_and(sequence_ends_on_escape);
 
+                    // An indented line after a link reference definition still starts a paragraph
+                    let is_indented = current_input_snippet.ends_with('\t')
+                        || current_input_snippet.ends_with("    ");
+                    let could_start_other_block = is_indented
+                        && self.starts_paragraph()
+                        && (text.starts_with('>') || starts_markdown_construct(text));
+
+                    // Escaped backticks could still close a code span
+                    let could_close_code_span = matches!(
+                        needs_escape,
+                        Some(EscapeKind::SingleLine(SingleLineEscape::FencedCodeBlock(
+                            FencedCodeBlockMarker::Backtick
+                        )))
+                    ) && !starts_with_escape
+                        && self.in_paragraph()
+                        && current_input_snippet[self.paragraph_start..].contains('`');
+
                     match needs_escape {
+                        Some(_) if could_close_code_span => {
+                            // Without a backslash it's the indentation that makes this text
+                            self.write_str("    ")?;
+                            self.write_str(text)?;
+                        }
                         Some(escape_kind)
                             if escape_kind.multi_character_escape() && !starts_with_escape =>
                         {
@@ -806,11 +835,19 @@ where
                                 }
                             }
                         }
+                        _ if could_start_other_block
+                            && text.starts_with(|c: char| c.is_ascii_digit()) =>
+                        {
+                            let number = text.trim_start_matches(|c: char| c.is_ascii_digit());
+                            let number = &text[..text.len() - number.len()];
+                            write_context!(self, Escape, "{number}\\{}", &text[number.len()..])?;
+                        }
                         _ => {
                             if starts_with_escape
                                 || needs_escape.is_some()
                                 || could_be_interpreted_as_html(text, &mut self)
                                 || could_be_interpreted_as_metadata
+                                || could_start_other_block
                                 || (self.in_table() && text.starts_with('|'))
                             {
                                 // recover escape characters
@@ -827,6 +864,12 @@ where
                 }
                 Event::Code(_) => {
                     let snippet = &self.input[range.clone()];
+                    let starts_line = self.last_was_line_break() || self.starts_paragraph();
+                    let first_line = split_lines(snippet).next().unwrap_or_default();
+                    if starts_line && starts_markdown_construct(first_line) {
+                        // Only the line's indentation prevents it from starting a code block
+                        self.write_str("    ")?;
+                    }
                     if count_newlines(snippet) > 0 {
                         self.rewrite_multiline_code_span(&event, snippet)?;
                     } else {
diff --git a/src/paragraph.rs b/src/paragraph.rs
index 70a19a9..909f584 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -146,7 +146,12 @@ impl WriteContext<'_> for Paragraph {
         }
 
         if matches!(ctx, MarkdownContext::Event(Event::Text(_))) && !s.trim().is_empty() {
-            return self.write_str(&self.collapse_spaces(s));
+            let mut text = self.collapse_spaces(s);
+            if let (true, Some(end)) = (self.buffer.ends_with('\n'), ordered_list_number_end(s)) {
+                // Prevent the next pass from interpreting this as an ordered list
+                text.to_mut().insert(end, '\\');
+            }
+            return self.write_str(&text);
         }
         self.write_str(s)
     }
@@ -353,6 +358,14 @@ fn is_unsafe_at_line_start(word: &str, rest_of_line: &str) -> bool {
         || starts_markdown_construct(rest_of_line)
 }
 
+/// Find the end of the list item number if the text would start an ordered list. Only lists that
+/// start with 1 can interrupt a paragraph.
+fn ordered_list_number_end(text: &str) -> Option<usize> {
+    let (number, rest) = text.split_at(text.find(['.', ')'])?);
+    let is_one = number.trim_start_matches('0') == "1" && number.len() <= 9;
+    (is_one && rest[1..].starts_with([' ', '\t'])).then_some(number.len())
+}
+
 /// Check if text at the start of a line could change its meaning if nothing follows it. It could
 /// turn into a setext heading underline or a table's delimiter row.
 fn is_unsafe_as_line(text: &str) -> bool {
-- 
2.43.0


From 7ea639d567fd29c02d4877ac79dfb97c57fcc768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:59 +0000
Subject: [PATCH 38/54] fix: pad table cells by display width

---
 src/table.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 310b273..50a84bc 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -3,7 +3,6 @@ use itertools::{EitherOrBoth, Itertools};
 use pulldown_cmark::Alignment;
 use std::borrow::Cow;
 use std::fmt::Write;
-use unicode_segmentation::UnicodeSegmentation;
 
 #[derive(Debug, PartialEq)]
 pub(super) struct TableState<'a> {
@@ -143,12 +142,9 @@ impl<'a> TableState<'a> {
         Ok(result)
     }
 
-    fn write_wth_padding(buffer: &mut String, value: &str, mut size: usize) -> std::fmt::Result {
-        let offset = UnicodeSegmentation::graphemes(value, true)
-            .map(|grapheme| unicode_str_width(grapheme).saturating_sub(1))
-            .sum();
-        size = size.saturating_sub(offset);
-        write!(buffer, " {value:<size$} |")
+    fn write_wth_padding(buffer: &mut String, value: &str, size: usize) -> std::fmt::Result {
+        let padding = size.saturating_sub(unicode_str_width(value));
+        write!(buffer, " {value}{:padding$} |", "")
     }
 
     fn rewrite_header(&self, buffer: &mut String) -> std::fmt::Result {
-- 
2.43.0


From 0a9cf899ebd10a45033838f3153adb391b428b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:55 +0000
Subject: [PATCH 39/54] fix: recognize every tag that starts an HTML block

---
 src/html.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/html.rs b/src/html.rs
index 689685f..48334d1 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -49,6 +49,31 @@ pub(crate) static HTML_BLOCK_TAG: &[&str] = &[
     "video",
     "script",
     "style",
+    "address",
+    "base",
+    "basefont",
+    "center",
+    "details",
+    "dialog",
+    "dir",
+    "frame",
+    "frameset",
+    "head",
+    "html",
+    "legend",
+    "link",
+    "main",
+    "menu",
+    "menuitem",
+    "nav",
+    "noframes",
+    "optgroup",
+    "option",
+    "param",
+    "search",
+    "summary",
+    "title",
+    "track",
 ];
 
 /// Check if the given string starts with a well known HTML block tag name
-- 
2.43.0


From 780cf8b1da2d444a2dc9c1997e0bb92f64863d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 40/54] fix: normalize the line ending of every hard break

---
 src/formatter.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index ed7e8e6..1cddcd8 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -891,13 +891,11 @@ where
                     }
                 }
                 Event::HardBreak => {
-                    let hard_break = match &self.input[range] {
-                        "\\\r" | "\\\r\n" | "\\\n" => "\\\n",
-                        "  \r" | "  \r\n" | "  \n" => "  \n",
-                        h => h,
-                    };
+                    // Normalize the line ending
+                    let hard_break = self.input[range].trim_end_matches(['\r', '\n']);
+                    let hard_break = format!("{hard_break}\n");
 
-                    self.write_event_str(&event, hard_break)?;
+                    self.write_event_str(&event, &hard_break)?;
                 }
                 Event::Html(ref html) if html.trim().is_empty() => {
                     // Blank lines get written before the next line, and with CRLF line endings
-- 
2.43.0


From 7e66d7ba14686757a86b678a3de977d3fb0e4ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:36 +0000
Subject: [PATCH 41/54] fix: no trailing whitespace in the labels of references

---
 src/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index 1cddcd8..6ea5ce5 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1691,7 +1691,7 @@ where
                         if count_newlines(label) > 0 {
                             write!(self, "{opener}")?;
                             let label = split_lines(label)
-                                .map(|l| self.trim_leading_indentation(l))
+                                .map(|l| self.trim_leading_indentation(l).trim_end())
                                 .join("\n");
 
                             if label.starts_with('^') {
-- 
2.43.0


From 5cb0be68803f80b7073a194bed7124a2f75f80f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:58 +0000
Subject: [PATCH 42/54] fix: don't write the blank lines at the start of a
 block quote twice

---
 src/formatter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/formatter.rs b/src/formatter.rs
index 6ea5ce5..c6d4b38 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1098,6 +1098,8 @@ where
                             self.rewrite_reference_link_definitions_inner(link_defs)?;
                         } else {
                             self.write_newlines(newlines)?;
+                            // These newlines shouldn't get counted again
+                            self.last_position = end;
                         }
                     }
                     None => {
-- 
2.43.0


From dbd05e7e4beacc69cca2455dabc82cb5533ff31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:17 +0000
Subject: [PATCH 43/54] fix: no trailing whitespace in front of the definitions
 of a block quote

---
 src/formatter.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index c6d4b38..c3f40fd 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -1039,8 +1039,13 @@ where
                     Some((Event::End(TagEnd::BlockQuote(..)), _)) => {
                         let snippet = &self.input[range.clone()];
                         let link_defs = parse_link_reference_definitions(snippet, range.start);
-                        if !link_defs.is_empty() {
-                            write!(self, "> ")?;
+                        if let Some(first) = link_defs.first() {
+                            let start = first.range().start;
+                            if count_newlines(&self.input[range.start..start]) > 0 {
+                                write!(self, ">")?;
+                            } else {
+                                write!(self, "> ")?;
+                            }
                             self.indentation.push("> ".into());
                             self.rewrite_reference_link_definitions_inner(link_defs)?;
                             // remove trailing space in case we're about to push newlines
-- 
2.43.0


From 9bd372233dba69685b769c5b1df5c383b3105623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 44/54] fix: keep empty attributes of headings that would turn
 into HTML, and backslashes in front of attributes

---
 src/header.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index d761c81..b8d02ad 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -1,4 +1,4 @@
-use crate::escape::needs_escape;
+use crate::escape::{needs_escape, starts_markdown_construct};
 use crate::utils::sequence_ends_on_escape;
 use crate::writer::{MarkdownContext, WriteContext};
 use pulldown_cmark::{CowStr, Event, HeadingLevel, Tag};
@@ -286,7 +286,7 @@ impl<'i> Header<'i> {
         let is_attributes = last_line.contains('{')
             && last_line.ends_with('}')
             && !last_line.ends_with("\\}");
-        let is_construct = self.is_setext_header() && needs_escape(last_line).is_some();
+        let is_construct = self.is_setext_header() && starts_markdown_construct(last_line);
         if is_attributes || is_construct {
             self.buffer.push_str("{}");
         }
@@ -346,7 +346,10 @@ impl<'i> Header<'i> {
         let id = self.id.take();
 
         if self.attrs_on_own_line {
-            if !self.buffer.is_empty() && !self.buffer.ends_with('\n') {
+            if !self.buffer.is_empty()
+                && !self.buffer.ends_with('\n')
+                && !sequence_ends_on_escape(&self.buffer)
+            {
                 writeln!(self.buffer)?;
             }
         } else if !self.buffer.is_empty() && !sequence_ends_on_escape(&self.buffer) {
-- 
2.43.0


From 40eb013b4d63eff31805e8773702a098435a460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 45/54] fix: indented text that looks like a footnote
 definition stays text

---
 src/escape.rs    | 16 +++++++++-------
 src/formatter.rs |  7 +++++--
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index bcb21d5..56af46b 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -174,16 +174,18 @@ pub(crate) fn starts_markdown_construct(line: &str) -> bool {
             starts_with_html_block_identifier(name) && !(is_closing_tag && is_raw_text)
         })
     };
-    let is_footnote_definition = || {
-        line.strip_prefix("[^")
-            .and_then(|l| l.split_once(']'))
-            .is_some_and(|(_, rest)| rest.starts_with(':'))
-    };
-
     needs_escape(line).is_some()
         || is_ordered_list_item()
         || is_html_block()
-        || is_footnote_definition()
+        || starts_footnote_definition(line)
+}
+
+/// Check if the input starts with the label of a footnote definition e.g. `[^label]:`
+pub(crate) fn starts_footnote_definition(input: &str) -> bool {
+    input
+        .strip_prefix("[^")
+        .and_then(|l| l.split_once(']'))
+        .is_some_and(|(_, rest)| rest.starts_with(':'))
 }
 
 /// Represents text that looks like another Markdown construct that the formatter should escape
diff --git a/src/formatter.rs b/src/formatter.rs
index c3f40fd..ec1298b 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -13,7 +13,8 @@ use crate::adapters::{ListEndAtLastItemExt, LooseListExt};
 use crate::builder::{CodeBlockContext, CodeBlockFormatter};
 use crate::config::Config;
 use crate::escape::{
-    EscapeKind, FencedCodeBlockMarker, SingleLineEscape, starts_markdown_construct,
+    EscapeKind, FencedCodeBlockMarker, SingleLineEscape, starts_footnote_definition,
+    starts_markdown_construct,
 };
 use crate::footnote::FootnoteDefinition;
 use crate::header::{Header, HeaderKind};
@@ -805,7 +806,9 @@ where
                         || current_input_snippet.ends_with("    ");
                     let could_start_other_block = is_indented
                         && self.starts_paragraph()
-                        && (text.starts_with('>') || starts_markdown_construct(text));
+                        && (text.starts_with('>')
+                            || starts_markdown_construct(text)
+                            || starts_footnote_definition(&self.input[range.start..]));
 
                     // Escaped backticks could still close a code span
                     let could_close_code_span = matches!(
-- 
2.43.0


From 4d59b0d77bb57bf527d9faf850250f83163f6125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 46/54] fix: don't escape the indented text of footnotes a
 second time

---
 src/formatter.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index ec1298b..ee520bb 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -280,6 +280,13 @@ where
         indentation.chain(footnote_indentation).sum()
     }
 
+    /// Check if it's only a footnote definition that indents whatever follows the `snippet`
+    fn is_indented_by_footnote(&self, snippet: &str) -> bool {
+        let line = snippet.rsplit('\n').next().unwrap_or_default();
+        let is_footnote = |w: &MarkdownWriter| matches!(w, MarkdownWriter::FootnoteDefinition(_));
+        self.writers.iter().any(is_footnote) && line.len() < self.indentation_len() + 4
+    }
+
     /// Get an exclusive reference to the current buffer we're writing to. That could be the main
     /// rewrite buffer, the code block buffer, the internal table state, or anything else we're
     /// writing to while reformatting
@@ -802,8 +809,9 @@ where
                             .is_some_and(sequence_ends_on_escape);
 
                     // An indented line after a link reference definition still starts a paragraph
-                    let is_indented = current_input_snippet.ends_with('\t')
-                        || current_input_snippet.ends_with("    ");
+                    let is_indented = (current_input_snippet.ends_with('\t')
+                        || current_input_snippet.ends_with("    "))
+                        && !self.is_indented_by_footnote(current_input_snippet);
                     let could_start_other_block = is_indented
                         && self.starts_paragraph()
                         && (text.starts_with('>')
-- 
2.43.0


From 63c1068669f9ac30450552ac338f0e2ddc7c0cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 47/54] fix: don't panic for lists that follow a tab in an
 indented block quote

---
 src/adapters/end_list_at_last_item.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/adapters/end_list_at_last_item.rs b/src/adapters/end_list_at_last_item.rs
index 90d5a03..62771d0 100644
--- a/src/adapters/end_list_at_last_item.rs
+++ b/src/adapters/end_list_at_last_item.rs
@@ -2,7 +2,7 @@
 //!
 //! This module helps fix that issue by pinning the end of the list to it's last item's `range.end`.
 
-use pulldown_cmark::{Event, TagEnd};
+use pulldown_cmark::{Event, Tag, TagEnd};
 
 /// Conveniently turn any iterator that returns (Event, Range) into a ListEndAtLastItemAdapter
 pub(crate) trait ListEndAtLastItemExt<'input, I>
@@ -19,6 +19,7 @@ where
 {
     fn list_end_at_last_item(self) -> ListEndAtLastItemAdapter<I> {
         ListEndAtLastItemAdapter {
+            start_position: 0,
             end_position: 0,
             inner: self,
         }
@@ -27,8 +28,10 @@ where
 
 /// Iterator Adapter that modifies the source range of all `TagEnd::List` events to end at the
 /// same location as their last list item. This helps us preserve newlines between the end of
-/// a list and whatever element comes next.
+/// a list and whatever element comes next. Also makes sure that lists don't start before the
+/// element that they're nested in.
 pub(crate) struct ListEndAtLastItemAdapter<I> {
+    start_position: usize,
     end_position: usize,
     inner: I,
 }
@@ -42,6 +45,12 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         let (event, mut range) = self.inner.next()?;
         match event {
+            Event::Start(Tag::List(_) | Tag::Item) => {
+                // Lists that are indented with a tab could start before their block quote
+                range.start = range.start.max(self.start_position);
+                self.start_position = range.start;
+            }
+            Event::Start(_) => self.start_position = range.start,
             Event::End(TagEnd::Item) => {
                 // `TagEnd::Item` should always precede `TagEnd::List`
                 self.end_position = range.end
-- 
2.43.0


From a6f14fc0b2f1ecc63b3bd2a296f47ea22843724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 48/54] fix: recognize closing tags, and lines with non-ASCII
 text as the start of HTML blocks

---
 src/html.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 48334d1..bb93294 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -78,15 +78,16 @@ pub(crate) static HTML_BLOCK_TAG: &[&str] = &[
 
 /// Check if the given string starts with a well known HTML block tag name
 pub(crate) fn starts_with_html_block_identifier(s: &str) -> bool {
-    if s.trim().is_empty() || !s.is_ascii() {
+    if s.trim().is_empty() {
         return false;
     }
 
     // Combines HTML block condition 1 and 6
     let is_html_block_identifier = |value: &str| {
+        let name = value.strip_prefix('/').unwrap_or(value);
         HTML_BLOCK_TAG
             .iter()
-            .any(|tag| tag.eq_ignore_ascii_case(value))
+            .any(|tag| tag.eq_ignore_ascii_case(name))
     };
 
     // line begins with the string <!--
-- 
2.43.0


From 9ad857f2b13fc7e3f363852af49c82ec1c6e6333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 49/54] fix: code fences made of tildes could have backticks or
 tildes in their info string

---
 src/escape.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/escape.rs b/src/escape.rs
index 56af46b..dbb3be8 100644
--- a/src/escape.rs
+++ b/src/escape.rs
@@ -88,8 +88,8 @@ pub(crate) fn needs_escape(input: &str) -> Option<EscapeKind> {
             return true;
         }
 
-        // opening code fences can't contain backtick (`) or tilde (~) in the info string.
-        !info_string.contains(['`', '~'])
+        // opening code fences made of backticks (`) can't contain backticks in the info string.
+        marker == '~' || !info_string.contains('`')
     };
 
     match first_char {
-- 
2.43.0


From 7d883d79da402b7f0401973a9f1d77dfa0b48427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 50/54] fix: blank lines of a block quote after a footnote
 aren't part of the footnote

---
 src/formatter.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/formatter.rs b/src/formatter.rs
index ee520bb..0b7ccc2 100644
--- a/src/formatter.rs
+++ b/src/formatter.rs
@@ -280,11 +280,17 @@ where
         indentation.chain(footnote_indentation).sum()
     }
 
+    /// Check if we're formatting the contents of a footnote definition
+    fn in_footnote_definition(&self) -> bool {
+        self.writers
+            .iter()
+            .any(|w| matches!(w, MarkdownWriter::FootnoteDefinition(_)))
+    }
+
     /// Check if it's only a footnote definition that indents whatever follows the `snippet`
     fn is_indented_by_footnote(&self, snippet: &str) -> bool {
         let line = snippet.rsplit('\n').next().unwrap_or_default();
-        let is_footnote = |w: &MarkdownWriter| matches!(w, MarkdownWriter::FootnoteDefinition(_));
-        self.writers.iter().any(is_footnote) && line.len() < self.indentation_len() + 4
+        self.in_footnote_definition() && line.len() < self.indentation_len() + 4
     }
 
     /// Get an exclusive reference to the current buffer we're writing to. That could be the main
@@ -705,6 +711,8 @@ where
 
     /// The main entry point for markdown formatting.
     pub fn format(mut self) -> Result<String, std::fmt::Error> {
+        // The end of the last element that wasn't a list, or one of its items
+        let mut content_position = 0;
         while let Some((event, range)) = self.events.next() {
             tracing::debug!(?event, ?range, last_position = self.last_position);
             let mut last_position = if matches!(event, Event::HardBreak) {
@@ -735,6 +743,14 @@ where
                 }
                 Event::End(ref tag) => {
                     self.end_tag(*tag, range.clone())?;
+                    if matches!(tag, TagEnd::FootnoteDefinition) && self.in_blockquote() {
+                        // The blank lines of the block quote aren't part of the footnote
+                        let rest = self.input.get(content_position..last_position);
+                        let is_blank = |c: char| c.is_whitespace() || c == '>';
+                        if rest.is_some_and(|rest| rest.chars().all(is_blank)) {
+                            last_position = content_position;
+                        }
+                    }
                     self.check_needs_indent(&event);
                 }
                 Event::Text(ref parsed_text) => {
@@ -954,6 +970,9 @@ where
                 }
             }
             self.last_position = last_position;
+            if !matches!(event, Event::End(TagEnd::Item | TagEnd::List(_))) {
+                content_position = last_position;
+            }
             self.last_event = Some((event, last_range));
         }
         debug_assert!(self.nested_context.is_empty());
-- 
2.43.0


From 86bae4437f9ab127be252c30c24e55ade2da9664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:38 +0000
Subject: [PATCH 51/54] fix: don't wrap text such that a line turns into
 another kind of block

---
 src/paragraph.rs | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index 909f584..5d1df16 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -1,4 +1,5 @@
 use crate::escape::{needs_escape, starts_markdown_construct};
+use crate::html::starts_with_html_block_identifier;
 use crate::links::is_balanced;
 use crate::utils::sequence_ends_on_escape;
 use crate::writer::{MarkdownContext, WriteContext};
@@ -306,6 +307,7 @@ fn find_words(line: &str) -> Box<dyn Iterator<Item = textwrap::core::Word<'_>> +
         end += word.word.len() + word.whitespace.len();
         while let Some(next_word) = words.next_if(|w| {
             ends_in_link_destination(&line[start..end])
+                || ends_in_footnote_label(&line[start..end])
                 || sequence_ends_on_escape(line[start..end].trim_end())
                 || w.word.trim_matches('\t').is_empty()
                 || (start == 0 && is_unsafe_as_line(&line[..end]))
@@ -329,6 +331,12 @@ fn ends_in_link_destination(text: &str) -> bool {
         .is_some_and(|start| !text[start..].contains('>'))
 }
 
+/// Check if the text ends within what looks like the label of a footnote
+fn ends_in_footnote_label(text: &str) -> bool {
+    text.rfind("[^")
+        .is_some_and(|start| !text[start..].contains(']'))
+}
+
 /// Text like `[foo]: /url "title" more text` is only a link reference definition if the line ends
 /// after the title. Escape the `:` because we're about to move line endings.
 fn escape_link_definition(mut text: String) -> String {
@@ -351,9 +359,25 @@ fn is_unsafe_at_line_start(word: &str, rest_of_line: &str) -> bool {
     let word = word.trim_start_matches('\t');
     let rest_of_line = rest_of_line.trim_start_matches('\t');
     let is_marker_only = |markers: &[char]| word.chars().all(|c| markers.contains(&c));
+    // Text that looks like a marker gets escaped at the start of a line, no matter what kind of
+    // inline element follows it.
+    let is_marker_text = word.starts_with(['#', '=', '-', '*', '_', '+']) && {
+        let rest = word.trim_start_matches(&word[..1]);
+        let is_inline_marker = |c| matches!(c, '*' | '_' | '~' | '<' | '[' | ']' | '`' | '\\' | '&' | '!');
+        (!word.starts_with(['*', '_']) || word.len() - rest.len() >= 3)
+            && rest.starts_with(is_inline_marker)
+    };
+    let html_tag = word.strip_prefix('<').map(|tag| {
+        let is_name = |c: char| c == '/' || c.is_ascii_alphanumeric();
+        &tag[..tag.find(|c| !is_name(c)).unwrap_or(tag.len())]
+    });
 
     is_marker_only(&['-', '_', '*'])
         || is_marker_only(&['|', ':', '-'])
+        || is_marker_text
+        || html_tag.is_some_and(starts_with_html_block_identifier)
+        // The parser doesn't find the end of a title if a line starts with an escaped quote
+        || ["\\\"", "\\'", "\\)"].iter().any(|quote| word.starts_with(quote))
         || starts_markdown_construct(word)
         || starts_markdown_construct(rest_of_line)
 }
@@ -367,10 +391,23 @@ fn ordered_list_number_end(text: &str) -> Option<usize> {
 }
 
 /// Check if text at the start of a line could change its meaning if nothing follows it. It could
-/// turn into a setext heading underline or a table's delimiter row.
+/// turn into a setext heading underline, a table's delimiter row, a thematic break, an opening code
+/// fence, an HTML block, or lose its task list marker.
 fn is_unsafe_as_line(text: &str) -> bool {
     let text = text.trim();
-    text.chars().all(|c| c == '=') || text.chars().all(|c| matches!(c, '|' | ':' | '-' | ' '))
+    let consists_of = |markers: &[char]| text.chars().all(|c| markers.contains(&c));
+    let is_thematic_break =
+        |marker| consists_of(&[marker, ' ']) && text.matches(marker).count() >= 3;
+    let code_fence = text.trim_start_matches('`');
+    let is_code_fence = text.len() - code_fence.len() >= 3 && !code_fence.contains('`');
+
+    consists_of(&['='])
+        || consists_of(&['|', ':', '-', ' '])
+        || is_thematic_break('*')
+        || is_thematic_break('_')
+        || is_code_fence
+        || (text.starts_with('<') && text.ends_with('>'))
+        || text == "["
 }
 
 /// Determine if this is the delimiter row of a markdown table.
-- 
2.43.0


From 5bc3adf16352b23097da324ba4a08328f99c63cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:29 +0000
Subject: [PATCH 52/54] fix: recognize closing HTML tags that are followed by
 text

---
 src/html.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index bb93294..09c5461 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -85,9 +85,15 @@ pub(crate) fn starts_with_html_block_identifier(s: &str) -> bool {
     // Combines HTML block condition 1 and 6
     let is_html_block_identifier = |value: &str| {
         let name = value.strip_prefix('/').unwrap_or(value);
-        HTML_BLOCK_TAG
-            .iter()
-            .any(|tag| tag.eq_ignore_ascii_case(name))
+        let name_end = name
+            .find(|c: char| !c.is_ascii_alphanumeric())
+            .unwrap_or(name.len());
+        let (name, rest) = name.split_at(name_end);
+        let rest = rest.strip_prefix('/').unwrap_or(rest);
+        (rest.is_empty() || rest.starts_with('>'))
+            && HTML_BLOCK_TAG
+                .iter()
+                .any(|tag| tag.eq_ignore_ascii_case(name))
     };
 
     // line begins with the string <!--
-- 
2.43.0


From 9b39488affd37826093b8c55585022e0864e7347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:29 +0000
Subject: [PATCH 53/54] fix: keep white space characters that are part of link
 text, and empty destinations of links with a title

---
 src/links.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index e2ae56c..f64d50d 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -68,7 +68,7 @@ impl LinkWriter {
 
     pub(crate) fn into_buffer(mut self) -> String {
         // Remove any trailing whitespace from the buffer
-        while self.buffer.ends_with(char::is_whitespace) {
+        while self.buffer.ends_with(is_space) {
             self.buffer.pop();
         }
 
@@ -91,7 +91,7 @@ where
         url: &str,
         title: Option<(S, char)>,
     ) -> std::fmt::Result {
-        let url = format_link_url(url, false);
+        let url = format_link_url(url, title.is_some());
         match title {
             Some((title, ')')) => write!(self, r#"]({url} ({}))"#, title.as_ref())?,
             Some((title, quote)) => write!(self, r#"]({url} {quote}{}{quote})"#, title.as_ref())?,
@@ -202,6 +202,11 @@ fn find_text_within_last_set_of_balance_bracket(
     (start, end + 1)
 }
 
+/// Other kinds of whitespace are just text
+fn is_space(c: char) -> bool {
+    matches!(c, ' ' | '\t' | '\r' | '\n')
+}
+
 /// Reference links are expected to be well formed:
 /// [foo][bar] -> bar
 /// [link \[bar][ref] -> ref
@@ -209,7 +214,7 @@ pub(super) fn find_reference_link_label(input: &str) -> &str {
     let (start, end) = find_text_within_last_set_of_balance_bracket(input, b'[', b']', None);
     // +1 to move past '['
     // -1 to move before ']'
-    input[start + 1..end - 1].trim()
+    input[start + 1..end - 1].trim_matches(is_space)
 }
 
 /// Inline links are expected to be well formed:
@@ -221,7 +226,7 @@ pub(super) fn find_inline_url_and_title(
     input: &str,
     text_end: usize,
 ) -> Option<(String, Option<(String, char)>)> {
-    let after_text = input.get(text_end..).unwrap_or_default().trim_start();
+    let after_text = input.get(text_end..).unwrap_or_default().trim_start_matches(is_space);
     let end = if after_text.starts_with("](") {
         input.len() - after_text.len() + 1
     } else {
@@ -229,7 +234,7 @@ pub(super) fn find_inline_url_and_title(
     };
     // +1 to move past '('
     // -1 to move before ')'
-    let inline_url = input[end + 1..input.len() - 1].trim();
+    let inline_url = input[end + 1..input.len() - 1].trim_matches(is_link_whitespace);
     if inline_url.is_empty() {
         return Some((String::new(), None));
     }
@@ -260,7 +265,7 @@ fn trim_angle_brackes(url: &str) -> &str {
     if url.starts_with('<') && url.ends_with('>') {
         &url[1..url.len() - 1]
     } else {
-        url.trim()
+        url.trim_matches(is_link_whitespace)
     }
 }
 
@@ -296,10 +301,10 @@ fn split_inline_url_from_title(
     ))
 }
 
-/// White space that separates the parts of a link reference definition. Other unicode white space
+/// White space that separates the parts of a link or a link reference definition. Other unicode white space
 /// is part of the destination.
 fn is_link_whitespace(c: char) -> bool {
-    c.is_ascii_whitespace()
+    c.is_ascii_whitespace() || c == '\u{b}'
 }
 
 struct LinkReferenceDefinitionBuilder<'a> {
@@ -544,10 +549,10 @@ impl<'a> LinkLines<'a> {
         let mut buffer = String::new();
         // FIXME(ytmimi) probably should provide an option to allow multi-line lines.
         // right now everything gets formatted on a single line.
-        for text in self.iter().map(|t| t.trim()).filter(|t| !t.is_empty()) {
+        for text in self.iter().map(|t| t.trim_matches(is_space)).filter(|t| !t.is_empty()) {
             write!(buffer, "{text} ")?;
         }
-        let text = buffer.trim();
+        let text = buffer.trim_matches(is_space);
         write!(writer, "{text}")?;
         if sequence_ends_on_escape(text) {
             // Escape this so that the next formatting run doesn't
-- 
2.43.0


From 2d17ff959ef7370194f923e27a6dd61b6a1cd32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:32 +0000
Subject: [PATCH 54/54] fix: remove a method of links that is no longer used

---
 src/links.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/links.rs b/src/links.rs
index f64d50d..25d3c70 100644
--- a/src/links.rs
+++ b/src/links.rs
@@ -541,10 +541,6 @@ impl<'a> LinkLines<'a> {
         self.0.iter().map(|(item, _)| item.as_ref())
     }
 
-    fn is_empty(&self) -> bool {
-        self.0.is_empty()
-    }
-
     fn write<W: std::fmt::Write>(&self, writer: &mut W) -> std::fmt::Result {
         let mut buffer = String::new();
         // FIXME(ytmimi) probably should provide an option to allow multi-line lines.
-- 
2.43.0

