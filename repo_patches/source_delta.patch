From b381ecda172532d573c0592aaa8d9d0356d3a62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 01/18] fix: FocusTarget::Text must only focus on the target
 node's own text

When the node at the path had no Text in its own notation, seek_text stopped at
the first Text of any descendant or later node instead of reporting MissingText.
---
 src/pretty_print.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pretty_print.rs b/src/pretty_print.rs
index 8a8a846..b02b1e9 100644
--- a/src/pretty_print.rs
+++ b/src/pretty_print.rs
@@ -470,6 +470,7 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
         use ConsolidatedNotation::*;
         span!("seek_text");
 
+        let id = chunk.id;
         let mut first_block = self.next_blocks.pop().unwrap();
         self.expand_focusing_first_block(&mut first_block, chunk)?;
         self.next_blocks.push(first_block);
@@ -483,7 +484,7 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
                     FocusMark => (),
                     EndOfLine => block.at_eol = true,
                     Textual(textual) => {
-                        if textual.is_from_text {
+                        if textual.is_from_text && chunk.id == id {
                             let (left_textual, right_textual) = textual.split_at(text_pos);
                             block.push_text(left_textual)?;
                             block.chunks.push(Chunk {
-- 
2.43.0


From db9a8e41be8f382d76abf5cbe41dd4c039cd1100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 02/18] fix: don't divide by zero when all proportional panes
 have weight 0

---
 src/pane/divvy.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pane/divvy.rs b/src/pane/divvy.rs
index d718004..a08b3e3 100644
--- a/src/pane/divvy.rs
+++ b/src/pane/divvy.rs
@@ -81,6 +81,10 @@ impl Divvier {
             }
         }
         let total_hunger: usize = child_hungers.iter().sum();
+        if total_hunger == 0 {
+            // No child wants any cookies.
+            return;
+        }
         // Start by allocating each child a guaranteed minimum number of cookies,
         // found as the floor of the real number of cookies they deserve.
         let mut cookie_allocation: Vec<usize> = child_hungers
-- 
2.43.0


From 8494ba6105ba0c90872e18806b1d8bcf4ecd9bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 03/18] fix: a Doc pane without content must be blank, like a
 dynamic one

---
 src/pane/display_pane.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index e012d22..9ecafe0 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -81,6 +81,8 @@ where
             if let Some((doc, options)) = get_content(label.clone()) {
                 let printed_doc = PrintedDoc::new(doc, &options, rect.size(), style)?;
                 printed_doc.display(window, rect)?;
+            } else {
+                PrintedDoc::<D>::new_empty(style).display(window, rect)?;
             }
         }
         PaneNotation::Style {
-- 
2.43.0


From 6d9fdf9db787140e2f28a522ea96a4f2e664fbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 04/18] fix: the focus row of a very tall pane must lie inside
 of the pane

---
 src/pane/printing_options.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pane/printing_options.rs b/src/pane/printing_options.rs
index e43ee97..8f74d6f 100644
--- a/src/pane/printing_options.rs
+++ b/src/pane/printing_options.rs
@@ -37,7 +37,9 @@ impl PrintingOptions {
     pub(crate) fn choose_focus_line_row(&self, pane_height: Height) -> Row {
         assert!(self.focus_height >= 0.0);
         assert!(self.focus_height <= 1.0);
-        f32::round((pane_height - 1) as f32 * self.focus_height) as Row
+        let row = f32::round((pane_height - 1) as f32 * self.focus_height) as Row;
+        // An f32 can't represent every `Height`, so it may have been rounded up.
+        row.min(pane_height - 1)
     }
 
     /// Choose what width to use when pretty-printing the document.
-- 
2.43.0


From 0fdeee5c38f7838bad209bb9042b8ccbfcc809d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 05/18] fix: a dynamic-height pane must show its document
 without blank rows

The document was positioned as if it had all of the available height, but the
pane is only as tall as the document. When there were fewer lines above the
focus than focus_height asked for, the pane showed blank rows instead of the
document, and the focus was set outside of the pane. Also stop asking for lines
once there are none left.
---
 src/pane/display_pane.rs | 51 +++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index 9ecafe0..65beb16 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -79,7 +79,7 @@ where
         }
         PaneNotation::Doc { label } => {
             if let Some((doc, options)) = get_content(label.clone()) {
-                let printed_doc = PrintedDoc::new(doc, &options, rect.size(), style)?;
+                let printed_doc = PrintedDoc::new(doc, &options, rect.size(), style, false)?;
                 printed_doc.display(window, rect)?;
             } else {
                 PrintedDoc::<D>::new_empty(style).display(window, rect)?;
@@ -111,7 +111,7 @@ where
 
                 let (label, doc_style) = extract_doc::<L, D, W>(child_note, style.clone())?;
                 let printed_doc = if let Some((doc, options)) = get_content(label.clone()) {
-                    PrintedDoc::new(doc, &options, available_size, &doc_style)?
+                    PrintedDoc::new(doc, &options, available_size, &doc_style, false)?
                 } else {
                     PrintedDoc::new_empty(&doc_style)
                 };
@@ -163,7 +163,7 @@ where
 
                 let (label, doc_style) = extract_doc::<L, D, W>(child_note, style.clone())?;
                 let printed_doc = if let Some((doc, options)) = get_content(label.clone()) {
-                    PrintedDoc::new(doc, &options, available_size, &doc_style)?
+                    PrintedDoc::new(doc, &options, available_size, &doc_style, true)?
                 } else {
                     PrintedDoc::new_empty(&doc_style)
                 };
@@ -253,18 +253,23 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
 
     /// Pretty-print the portion of document that would fit in the given `size`,
     /// storing it as text in the `PrintedDoc`.
+    ///
+    /// If `fit_height` is true, the pane will be made exactly as tall as the `PrintedDoc`. In that
+    /// case there is no blank space above or below the document, so use the available height for as
+    /// much of the document as possible.
     fn new(
         doc: D,
         options: &PrintingOptions,
         size: Size,
         root_style: &D::Style,
+        fit_height: bool,
     ) -> Result<Self, PrintingError<D::Error>> {
         if size.height == 0 || size.width == 0 {
             return Ok(PrintedDoc::new_empty(root_style));
         }
 
         let printing_width = options.choose_width(size.width);
-        let focus_line_row = options.choose_focus_line_row(size.height);
+        let mut focus_line_row = options.choose_focus_line_row(size.height);
         let (mut upward_printer, focused_line, mut downward_printer) = pretty_print(
             doc,
             printing_width,
@@ -273,29 +278,43 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
             Some(root_style),
         )?;
 
+        let focus_col = focused_line.left_width();
+        let mut lines_above = Vec::new();
+        for line in upward_printer.by_ref().take(focus_line_row as usize) {
+            lines_above.push(line?);
+        }
+        let num_rows_above = if fit_height {
+            lines_above.len() as Row
+        } else {
+            focus_line_row
+        };
+        let num_rows_below = size.height - num_rows_above - 1;
+        let mut lines_below = Vec::new();
+        for line in downward_printer.by_ref().take(num_rows_below as usize) {
+            lines_below.push(line?);
+        }
+        if fit_height {
+            let num_rows_left = num_rows_below as usize - lines_below.len();
+            for line in upward_printer.by_ref().take(num_rows_left) {
+                lines_above.push(line?);
+            }
+            focus_line_row = lines_above.len() as Row;
+        }
+
         let focus_point = if options.set_focus {
             Some(Pos {
                 row: focus_line_row,
-                col: focused_line.left_width(),
+                col: focus_col,
             })
         } else {
             None
         };
 
-        let mut lines = Vec::new();
-        for _ in 0..focus_line_row {
-            if let Some(line) = upward_printer.next() {
-                lines.push(line?);
-            }
-        }
+        let mut lines = lines_above;
         lines.reverse();
         let focus_line_index = lines.len();
         lines.push(Line::from(focused_line));
-        for _ in (focus_line_row + 1)..size.height {
-            if let Some(line) = downward_printer.next() {
-                lines.push(line?);
-            }
-        }
+        lines.extend(lines_below);
 
         Ok(PrintedDoc {
             lines,
-- 
2.43.0


From c6fe000311afb34284c940ac7cc30477253f6edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 06/18] fix: don't wrap around when a text or a line is wider
 than Width::MAX

---
 src/consolidated_notation.rs | 11 ++++++-----
 src/geometry.rs              | 12 +++++++++---
 src/oracle.rs                | 14 +++++++-------
 src/pretty_print.rs          | 30 +++++++++++++++++++-----------
 4 files changed, 41 insertions(+), 26 deletions(-)

diff --git a/src/consolidated_notation.rs b/src/consolidated_notation.rs
index 9f76e9c..4276cb7 100644
--- a/src/consolidated_notation.rs
+++ b/src/consolidated_notation.rs
@@ -1,8 +1,9 @@
 //! Walk along the notation tree, skipping the boring parts.
 
 use crate::{
-    geometry::str_width, notation::normalize_child_index, CheckPos, Notation, PrettyDoc, Style,
-    Width,
+    geometry::{saturating_width, str_width},
+    notation::normalize_child_index,
+    CheckPos, Notation, PrettyDoc, Style, Width,
 };
 use std::fmt;
 use std::rc::Rc;
@@ -38,7 +39,7 @@ pub enum ConsolidatedNotation<'d, D: PrettyDoc<'d>> {
 #[derive(Debug)]
 pub struct Segment<'d, D: PrettyDoc<'d>> {
     pub str: &'d str,
-    /// The width of `str` in columns.
+    /// The width of `str` in columns, capped at `Width::MAX`.
     pub width: Width,
     pub style: D::Style,
 }
@@ -48,7 +49,7 @@ pub struct Segment<'d, D: PrettyDoc<'d>> {
 pub struct Textual<'d, D: PrettyDoc<'d>> {
     pub str: &'d str,
     /// The unicode width of `str`, stored for performance.
-    pub width: Width,
+    pub width: usize,
     pub style: D::Style,
     /// Whether this came from a `Notation::Text` (true) or a `Notation::Literal` (false).
     pub is_from_text: bool,
@@ -288,7 +289,7 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
                 let new_indent = Rc::new(IndentNode {
                     segment: Segment {
                         str: prefix,
-                        width: str_width(prefix),
+                        width: saturating_width(str_width(prefix)),
                         style,
                     },
                     parent: self.indent,
diff --git a/src/geometry.rs b/src/geometry.rs
index b95508c..64180f8 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -86,9 +86,15 @@ impl Add<Size> for Pos {
 }
 
 /// The width of a string in columns. May be an overestimate. Not to be confused with the number of
-/// bytes, Unicode code points, or Unicode grapheme clusters.
-pub fn str_width(s: &str) -> Width {
-    unicode_width::UnicodeWidthStr::width(s) as Width
+/// bytes, Unicode code points, or Unicode grapheme clusters. (This isn't a `Width`, because a string
+/// may be wider than `Width::MAX`.)
+pub fn str_width(s: &str) -> usize {
+    unicode_width::UnicodeWidthStr::width(s)
+}
+
+/// Convert to a `Width`, capped at `Width::MAX`.
+pub fn saturating_width(width: usize) -> Width {
+    width.min(Width::MAX as usize) as Width
 }
 
 /// Returns true if the char is 2 columns wide and false if its 1 column wide.
diff --git a/src/oracle.rs b/src/oracle.rs
index 467462a..0d61d51 100644
--- a/src/oracle.rs
+++ b/src/oracle.rs
@@ -6,7 +6,7 @@ use crate::{
 use std::fmt;
 
 const DEBUG_PRINT: bool = false;
-const MAX_WIDTH: Width = 10_000;
+const MAX_WIDTH: usize = 10_000;
 
 /// A list of lines.
 ///
@@ -38,13 +38,13 @@ fn pp<'d, D: PrettyDoc<'d>>(
     note: ConsolidatedNotation<'d, D>,
     // The number of columns known to follow `note`, or `None` if it's followed by `EndOfLine +
     // Text`.
-    suffix_len: Option<Width>,
+    suffix_len: Option<usize>,
     // The printing width
     width: Width,
 ) -> Result<Layout, PrintingError<D::Error>> {
     use ConsolidatedNotation::*;
 
-    assert!(width < MAX_WIDTH);
+    assert!((width as usize) < MAX_WIDTH);
 
     if DEBUG_PRINT {
         println!("==pp suffix_len:{:?} width:{}", suffix_len, width);
@@ -87,7 +87,7 @@ fn pp<'d, D: PrettyDoc<'d>>(
                     if prefix.ends_with_eol && first_len > 0 {
                         false
                     } else {
-                        last_len + first_len <= width
+                        last_len + first_len <= width as usize
                     }
                 }
             };
@@ -106,8 +106,8 @@ fn pp<'d, D: PrettyDoc<'d>>(
 /// Returns `None` if the first line contains `EndOfLine + Textual`.
 fn first_line_len<'d, D: PrettyDoc<'d>>(
     note: ConsolidatedNotation<'d, D>,
-    suffix_len: Option<Width>,
-) -> Result<Option<Width>, PrintingError<D::Error>> {
+    suffix_len: Option<usize>,
+) -> Result<Option<usize>, PrintingError<D::Error>> {
     use ConsolidatedNotation::*;
 
     match note {
@@ -154,7 +154,7 @@ impl Layout {
         self
     }
 
-    fn last_line_len(&self) -> Width {
+    fn last_line_len(&self) -> usize {
         let last_line = self.lines.last().unwrap(); // relies on invariant
         str_width(last_line)
     }
diff --git a/src/pretty_print.rs b/src/pretty_print.rs
index b02b1e9..e4296d0 100644
--- a/src/pretty_print.rs
+++ b/src/pretty_print.rs
@@ -2,6 +2,7 @@ use crate::{
     consolidated_notation::{
         ConsolidatedNotation, DelayedConsolidatedNotation, IndentNode, Textual,
     },
+    geometry::{saturating_width, str_width},
     infra::span,
     PrettyDoc, PrintingError, Segment, Width,
 };
@@ -139,24 +140,30 @@ pub struct FocusedLine<'d, D: PrettyDoc<'d>> {
     pub right_segments: Vec<Segment<'d, D>>,
 }
 
+/// The sum of the segments' widths, capped at `Width::MAX`.
+fn total_width<'d, D: PrettyDoc<'d>>(segments: &[Segment<'d, D>]) -> Width {
+    segments
+        .iter()
+        .fold(0, |width: Width, seg| width.saturating_add(seg.width))
+}
+
 impl<'d, D: PrettyDoc<'d>> Line<'d, D> {
     pub fn width(&self) -> Width {
-        self.segments.iter().map(|seg| seg.width).sum()
+        total_width(&self.segments)
     }
 }
 
 impl<'d, D: PrettyDoc<'d>> FocusedLine<'d, D> {
     pub fn left_width(&self) -> Width {
-        self.left_segments.iter().map(|seg| seg.width).sum()
+        total_width(&self.left_segments)
     }
 
     pub fn right_width(&self) -> Width {
-        self.right_segments.iter().map(|seg| seg.width).sum()
+        total_width(&self.right_segments)
     }
 
     pub fn width(&self) -> Width {
-        let segs = self.left_segments.iter().chain(self.right_segments.iter());
-        segs.map(|seg| seg.width).sum()
+        self.left_width().saturating_add(self.right_width())
     }
 
     pub fn to_left_string(&self) -> String {
@@ -222,7 +229,7 @@ struct Block<'d, D: PrettyDoc<'d>> {
     /// Stack of resolved text. The last element is the _rightmost_ text.
     segments: Vec<Segment<'d, D>>,
     /// The sum of the segment string widths.
-    prefix_len: Width,
+    prefix_len: usize,
     /// Whether there is an `EndOfLine` between the `segments` and the `chunks`.
     at_eol: bool,
     /// Stack of unresolved notations. The last element is the _leftmost_ chunk.
@@ -242,7 +249,7 @@ impl<'d, D: PrettyDoc<'d>> Block<'d, D> {
         indent_segments.reverse();
 
         Block {
-            prefix_len: indent_segments.iter().map(|seg| seg.width).sum(),
+            prefix_len: indent_segments.iter().map(|seg| str_width(seg.str)).sum(),
             segments: indent_segments,
             at_eol: false,
             chunks,
@@ -255,7 +262,7 @@ impl<'d, D: PrettyDoc<'d>> Block<'d, D> {
         }
         self.segments.push(Segment {
             str: textual.str,
-            width: textual.width,
+            width: saturating_width(textual.width),
             style: textual.style,
         });
         self.prefix_len += textual.width;
@@ -685,9 +692,10 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
 
         let chunk1 = Chunk::new(opt1)?;
 
-        if self.width >= block.prefix_len
+        let width = self.width as usize;
+        if width >= block.prefix_len
             && fits(
-                self.width - block.prefix_len,
+                width - block.prefix_len,
                 block.at_eol,
                 chunk1.notation.clone(),
                 &block.chunks,
@@ -753,7 +761,7 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
 /// Determine whether the first line of the notations (`notation` followed by `chunks`) fits within
 /// the available `width`, and does not cause there to be an EOL followed by text.
 fn fits<'d, D: PrettyDoc<'d>>(
-    width: Width,
+    width: usize,
     at_eol: bool,
     notation: ConsolidatedNotation<'d, D>,
     next_chunks: &[Chunk<'d, D>],
-- 
2.43.0


From 5f8d5f2d0dfa080fa20bac242872f21b45cbb9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 07/18] fix: don't overflow when displaying a pane that is
 almost Width::MAX columns wide

---
 src/pane/display_pane.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index 65beb16..08d3e73 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -64,7 +64,7 @@ where
 
             for row in rect.min_row..rect.max_row {
                 let mut col = rect.min_col;
-                while col + char_width <= rect.max_col {
+                while rect.max_col - col >= char_width {
                     window
                         .display_char(*ch, Pos { row, col }, style, is_full_width)
                         .map_err(PaneError::PrettyWindowError)?;
@@ -353,7 +353,7 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
             window
                 .set_focus(Pos {
                     row: focus_point.row + rect.min_row,
-                    col: focus_point.col + rect.min_col,
+                    col: focus_point.col.saturating_add(rect.min_col),
                 })
                 .map_err(PaneError::PrettyWindowError)?;
         }
@@ -429,7 +429,7 @@ where
         for ch in segment.str.chars() {
             let is_full_width = is_char_full_width(ch);
             let char_width = if is_full_width { 2 } else { 1 };
-            if pos.col + char_width > rect.max_col {
+            if rect.max_col - pos.col < char_width {
                 break 'segments_loop;
             }
             window
-- 
2.43.0


From 4251323b37823fa7c406379ce63913bc94bebf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:53 +0000
Subject: [PATCH 08/18] fix: don't overflow when dividing space between panes
 with huge weights

---
 src/pane/divvy.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pane/divvy.rs b/src/pane/divvy.rs
index a08b3e3..c37811f 100644
--- a/src/pane/divvy.rs
+++ b/src/pane/divvy.rs
@@ -74,13 +74,15 @@ impl Divvier {
     /// with the difficulty that cookies cannot be split into pieces. Exact ties go to the leftmost
     /// tied child. ("Children" = "proportional PaneSizes")
     fn allocate_proportional(&mut self) {
+        // Use `u128`s, because `cookies * hunger` could overflow a `usize`.
+        let cookies = self.cookies as u128;
         let mut child_hungers = Vec::new();
         for pane_size in &self.pane_sizes {
             if let PaneSize::Proportional(hunger) = pane_size {
-                child_hungers.push(*hunger);
+                child_hungers.push(*hunger as u128);
             }
         }
-        let total_hunger: usize = child_hungers.iter().sum();
+        let total_hunger: u128 = child_hungers.iter().sum();
         if total_hunger == 0 {
             // No child wants any cookies.
             return;
@@ -89,7 +91,7 @@ impl Divvier {
         // found as the floor of the real number of cookies they deserve.
         let mut cookie_allocation: Vec<usize> = child_hungers
             .iter()
-            .map(|hunger| self.cookies * hunger / total_hunger)
+            .map(|hunger| (cookies * hunger / total_hunger) as usize)
             .collect();
         // Compute the number of cookies still remaining.
         let allocated_cookies: usize = cookie_allocation.iter().sum();
@@ -97,9 +99,9 @@ impl Divvier {
         // Determine what fraction of a cookie each child still deserves, found as
         // the remainder of the above division. Then hand out the remaining cookies
         // to the children with the largest remainders.
-        let mut remainders: Vec<(usize, usize)> = child_hungers
+        let mut remainders: Vec<(usize, u128)> = child_hungers
             .iter()
-            .map(|hunger| self.cookies * hunger % total_hunger)
+            .map(|hunger| cookies * hunger % total_hunger)
             .enumerate()
             .collect();
         remainders.sort_by(|(_, r1), (_, r2)| r2.cmp(r1));
-- 
2.43.0


From 60b587c53d5a1aaa961833492c6aba52188ade09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 09/18] fix: the style label of Json constants must name a
 style

---
 src/doc_examples/json.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/doc_examples/json.rs b/src/doc_examples/json.rs
index f45d2d0..84b5be7 100644
--- a/src/doc_examples/json.rs
+++ b/src/doc_examples/json.rs
@@ -14,7 +14,7 @@ use crate::notation_constructors::{
 use crate::CheckPos;
 use once_cell::sync::Lazy;
 
-const CONSTANT_STYLE: &str = "green_bold";
+const CONSTANT_STYLE: &str = "bold_green";
 const STRING_STYLE: &str = "magenta";
 const NUMBER_STYLE: &str = "blue";
 const COMMENT_STYLE: &str = "yellow";
-- 
2.43.0


From 0a92ca9864cc38b813b8c2bbda0372e9aed0394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 10/18] fix: the words of a Json comment must have the comment
 style

---
 src/doc_examples/json.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/doc_examples/json.rs b/src/doc_examples/json.rs
index 84b5be7..ace7cde 100644
--- a/src/doc_examples/json.rs
+++ b/src/doc_examples/json.rs
@@ -117,7 +117,8 @@ static JSON_COMMENT_NOTATION: Lazy<TreeNotation> = Lazy::new(|| {
     notation.validate().unwrap()
 });
 
-static JSON_COMMENT_WORD_NOTATION: Lazy<TreeNotation> = Lazy::new(|| text().validate().unwrap());
+static JSON_COMMENT_WORD_NOTATION: Lazy<TreeNotation> =
+    Lazy::new(|| style(COMMENT_STYLE, text()).validate().unwrap());
 
 static JSON_ROOTS_NOTATION: Lazy<TreeNotation> = Lazy::new(|| {
     let notation = count(Count {
-- 
2.43.0


From 09c295867a0a50d9ebb59c7ee7912b3028533f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 11/18] fix: Tree::new_branch must clear needs_separator on
 children that don't need one

---
 src/doc_examples/tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/doc_examples/tree.rs b/src/doc_examples/tree.rs
index 7c234ff..c1b0254 100644
--- a/src/doc_examples/tree.rs
+++ b/src/doc_examples/tree.rs
@@ -94,6 +94,10 @@ where
 
     /// Create a new node containing the given children.
     pub fn new_branch(notation: &'static TreeNotation, mut children: Vec<Self>) -> Self {
+        // The children may have been in another branch before.
+        for child in &mut children {
+            child.needs_separator = false;
+        }
         for child in children
             .iter_mut()
             .rev()
-- 
2.43.0


From 13cfc7522c1ad065f7cb9e2aa38fe5ab2384b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:02 +0000
Subject: [PATCH 12/18] fix: splitting text at the focus must not change its
 total width

---
 src/consolidated_notation.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/consolidated_notation.rs b/src/consolidated_notation.rs
index 4276cb7..baa60ea 100644
--- a/src/consolidated_notation.rs
+++ b/src/consolidated_notation.rs
@@ -114,15 +114,18 @@ impl<'d, D: PrettyDoc<'d>> Textual<'d, D> {
             .map(|(byte_pos, _)| byte_pos)
             .unwrap_or(self.str.len());
         let (left_str, right_str) = self.str.split_at(byte_pos);
+        // Splitting must not change the total width, or else it could change the layout. (The widths
+        // of the two strings may not sum to the width of the whole, e.g. if an emoji was split.)
+        let left_width = str_width(left_str).min(self.width);
         let left_textual = Textual {
             str: left_str,
-            width: str_width(left_str),
+            width: left_width,
             style: self.style.clone(),
             is_from_text: self.is_from_text,
         };
         let right_textual = Textual {
             str: right_str,
-            width: str_width(right_str),
+            width: self.width - left_width,
             style: self.style,
             is_from_text: self.is_from_text,
         };
-- 
2.43.0


From 329de8915208048a8ebc829d4026670d77ff7cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 13/18] fix: NotationErrors about an index must show that index

---
 src/valid_notation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valid_notation.rs b/src/valid_notation.rs
index 6ff7402..e799d68 100644
--- a/src/valid_notation.rs
+++ b/src/valid_notation.rs
@@ -31,11 +31,11 @@ pub enum NotationError {
     NestedCount,
     #[error("Notation contains a Child inside Count.zero, but in this case there are guaranteed to be zero children.")]
     CountZeroChild,
-    #[error("Notation contains a Child with index {} inside of Count.one, but in this case there's guaranteed to be only one child.", 0)]
+    #[error("Notation contains a Child with index {0} inside of Count.one, but in this case there's guaranteed to be only one child.")]
     CountOneChildIndex(isize),
     #[error("Notation contains a CheckPos::Child inside Count.zero, but in this case there are guaranteed to be zero children.")]
     CountZeroCheckPosChild,
-    #[error("Notation contains a CheckPos::Child with index {} inside of Count.one, but in this case there's guaranteed to be only one child.", 0)]
+    #[error("Notation contains a CheckPos::Child with index {0} inside of Count.one, but in this case there's guaranteed to be only one child.")]
     CountOneCheckPosChildIndex(isize),
     #[error(
         "Notation contains a Text inside a Count, but a node can't have both text and children."
-- 
2.43.0


From ba86a1863a8244b3cd825e4812ca7d9566d76254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:57 +0000
Subject: [PATCH 14/18] fix: json_string must escape characters that can't be
 used in a Json string

---
 src/doc_examples/json.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/doc_examples/json.rs b/src/doc_examples/json.rs
index ace7cde..6c97a60 100644
--- a/src/doc_examples/json.rs
+++ b/src/doc_examples/json.rs
@@ -155,9 +155,25 @@ pub fn json_bool(b: bool) -> Json {
     }
 }
 
-/// Create a string.
+/// Create a string. Characters that can't be used in a Json string will be escaped.
 pub fn json_string(s: &str) -> Json {
-    Tree::new_text(&JSON_STRING_NOTATION, s.to_owned())
+    Tree::new_text(&JSON_STRING_NOTATION, escape(s))
+}
+
+fn escape(s: &str) -> String {
+    let mut escaped = String::with_capacity(s.len());
+    for ch in s.chars() {
+        match ch {
+            '"' => escaped.push_str("\\\""),
+            '\\' => escaped.push_str("\\\\"),
+            '\n' => escaped.push_str("\\n"),
+            '\r' => escaped.push_str("\\r"),
+            '\t' => escaped.push_str("\\t"),
+            ch if ch < ' ' => escaped.push_str(&format!("\\u{:04x}", ch as u32)),
+            ch => escaped.push(ch),
+        }
+    }
+    escaped
 }
 
 /// Create a number.
-- 
2.43.0


From 3983c55d0155b41270a8126fdac2a3eff7837aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:21 +0000
Subject: [PATCH 15/18] fix: the oracle measures the pieces of a line like the
 printer does, even if an emoji is split across two

---
 src/oracle.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/oracle.rs b/src/oracle.rs
index 0d61d51..6345bd2 100644
--- a/src/oracle.rs
+++ b/src/oracle.rs
@@ -13,6 +13,9 @@ const MAX_WIDTH: usize = 10_000;
 /// **Invariant:** there's always at least one line.
 struct Layout {
     lines: Vec<String>,
+    /// The sum of the widths of the pieces of text that the last line of `lines` is made of. (This may
+    /// differ from the width of the whole line, e.g. if an emoji is split across two of them.)
+    last_line_len: usize,
     /// Whether there's an `EndOfLine` at the end of the last line of `lines`.
     ends_with_eol: bool,
 }
@@ -68,7 +71,7 @@ fn pp<'d, D: PrettyDoc<'d>>(
                 remaining_indentation = &indent_node.parent;
             }
             indent_strings.reverse();
-            Ok(prefix.append_newline(indent_strings.join("")))
+            Ok(prefix.append_newline(indent_strings))
         }
         Child(_, x) => pp(prefix, x.eval()?, suffix_len, width),
         Concat(x, y) => {
@@ -80,7 +83,7 @@ fn pp<'d, D: PrettyDoc<'d>>(
         }
         Choice(x, y) => {
             let x = x.eval()?;
-            let last_len = prefix.last_line_len();
+            let last_len = prefix.last_line_len;
             let fits = match first_line_len(x.clone(), suffix_len)? {
                 None => false,
                 Some(first_len) => {
@@ -136,12 +139,14 @@ impl Layout {
     fn empty() -> Layout {
         Layout {
             lines: vec![String::new()],
+            last_line_len: 0,
             ends_with_eol: false,
         }
     }
 
-    fn append_newline(mut self, indentation: String) -> Layout {
-        self.lines.push(indentation);
+    fn append_newline(mut self, indentation: Vec<String>) -> Layout {
+        self.lines.push(indentation.join(""));
+        self.last_line_len = indentation.iter().map(|s| str_width(s)).sum();
         self.ends_with_eol = false;
         self
     }
@@ -151,13 +156,9 @@ impl Layout {
             panic!("Oracle: encountered EOL + text");
         }
         self.lines.last_mut().unwrap().push_str(text); // relies on invariant
+        self.last_line_len += str_width(text);
         self
     }
-
-    fn last_line_len(&self) -> usize {
-        let last_line = self.lines.last().unwrap(); // relies on invariant
-        str_width(last_line)
-    }
 }
 
 impl fmt::Display for Layout {
-- 
2.43.0


From 9cbb1de1d24ac660c4f9b0b5a40b8b7f50c9151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:40 +0000
Subject: [PATCH 16/18] fix: don't overflow the stack on a fold that skips a
 lot of children

---
 src/consolidated_notation.rs | 354 ++++++++++++++++++-----------------
 1 file changed, 181 insertions(+), 173 deletions(-)

diff --git a/src/consolidated_notation.rs b/src/consolidated_notation.rs
index baa60ea..eccdf3e 100644
--- a/src/consolidated_notation.rs
+++ b/src/consolidated_notation.rs
@@ -255,191 +255,199 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
     pub fn eval(mut self) -> Result<ConsolidatedNotation<'d, D>, PrintingError<D::Error>> {
         use Notation::*;
 
-        match self.notation {
-            Empty => Ok(ConsolidatedNotation::Empty),
-            EndOfLine => Ok(ConsolidatedNotation::EndOfLine),
-            Newline => Ok(ConsolidatedNotation::Newline(self.indent)),
-            Literal(str) => Ok(ConsolidatedNotation::Textual(Textual {
-                str,
-                width: str_width(str),
-                style: self.style,
-                is_from_text: false,
-            })),
-            Text => {
-                if self.doc.num_children()?.is_some() {
-                    Err(PrintingError::TextNotationOnTextlessDoc)
-                } else {
-                    let text = self.doc.unwrap_text()?;
-                    Ok(ConsolidatedNotation::Textual(Textual {
-                        str: text,
-                        width: str_width(text),
-                        style: self.style,
-                        is_from_text: true,
-                    }))
-                }
-            }
-            Flat(note) => {
-                self.flat = true;
-                self.notation = note;
-                self.eval()
-            }
-            Indent(prefix, style_label, note) => {
-                let style = if let Some(label) = style_label {
-                    D::Style::combine(&self.style, &self.doc.lookup_style(label.clone())?)
-                } else {
-                    self.style.clone()
-                };
-                let new_indent = Rc::new(IndentNode {
-                    segment: Segment {
-                        str: prefix,
-                        width: saturating_width(str_width(prefix)),
-                        style,
-                    },
-                    parent: self.indent,
-                });
-                self.indent = Some(new_indent);
-                self.notation = note;
-                self.eval()
-            }
-            Concat(note1, note2) => {
-                let mut cnote1 = self.clone();
-                cnote1.notation = note1;
-                let mut cnote2 = self;
-                cnote2.notation = note2;
-                Ok(ConsolidatedNotation::Concat(cnote1, cnote2))
-            }
-            Choice(note1, _note2) if self.flat => {
-                self.notation = note1;
-                self.eval()
-            }
-            Choice(note1, note2) => {
-                let mut cnote1 = self.clone();
-                cnote1.notation = note1;
-                let mut cnote2 = self;
-                cnote2.notation = note2;
-                Ok(ConsolidatedNotation::Choice(cnote1, cnote2))
-            }
-            Check(cond, pos, note1, note2) => {
-                let doc_to_inspect = match pos {
-                    CheckPos::Here => self.doc,
-                    CheckPos::Child(i) => match self.doc.num_children()? {
-                        None => return Err(PrintingError::CheckPosChildOnChildlessDoc),
-                        Some(n) => match normalize_child_index(*i, n) {
-                            None => {
-                                return Err(PrintingError::CheckPosChildIndexOutOfBounds {
-                                    index: *i,
-                                    len: n,
-                                })
-                            }
-                            Some(index) => self.doc.unwrap_child(index)?,
-                        },
-                    },
-                    // ValidNotation::validate() ensures these unwraps are safe
-                    CheckPos::RightChild => self.join_pos.unwrap().child,
-                    CheckPos::LeftChild => {
-                        let join_pos = self.join_pos.unwrap();
-                        join_pos
-                            .child
-                            .unwrap_prev_sibling(join_pos.parent, join_pos.index - 1)?
+        // Loop instead of recursing, because when a fold's `join` consists of just a `Left` (say,
+        // because of a `Check`) this can take a number of steps proportional to the number of children.
+        loop {
+            return match self.notation {
+                Empty => Ok(ConsolidatedNotation::Empty),
+                EndOfLine => Ok(ConsolidatedNotation::EndOfLine),
+                Newline => Ok(ConsolidatedNotation::Newline(self.indent)),
+                Literal(str) => Ok(ConsolidatedNotation::Textual(Textual {
+                    str,
+                    width: str_width(str),
+                    style: self.style,
+                    is_from_text: false,
+                })),
+                Text => {
+                    if self.doc.num_children()?.is_some() {
+                        Err(PrintingError::TextNotationOnTextlessDoc)
+                    } else {
+                        let text = self.doc.unwrap_text()?;
+                        Ok(ConsolidatedNotation::Textual(Textual {
+                            str: text,
+                            width: str_width(text),
+                            style: self.style,
+                            is_from_text: true,
+                        }))
                     }
-                };
-                if doc_to_inspect.condition(cond)? {
-                    self.notation = note1;
-                    self.eval()
-                } else {
-                    self.notation = note2;
-                    self.eval()
                 }
-            }
-            Child(i) => match self.doc.num_children()? {
-                None => Err(PrintingError::ChildNotationOnChildlessDoc),
-                Some(n) => match normalize_child_index(*i, n) {
-                    None => Err(PrintingError::ChildIndexOutOfBounds { index: *i, len: n }),
-                    Some(index) => {
-                        self.doc = self.doc.unwrap_child(index)?;
-                        self.notation = &self.doc.notation()?.0;
-                        self.style = D::Style::combine(&self.style, &self.doc.node_style()?);
-                        Ok(ConsolidatedNotation::Child(index, self))
-                    }
-                },
-            },
-            Style(style_label, note) => {
-                self.style =
-                    D::Style::combine(&self.style, &self.doc.lookup_style(style_label.clone())?);
-                self.notation = note;
-                self.eval()
-            }
-            FocusMark => Ok(ConsolidatedNotation::FocusMark),
-            Count { zero, one, many } => match self.doc.num_children()? {
-                None => Err(PrintingError::CountNotationOnChildlessDoc),
-                Some(0) => {
-                    self.notation = zero;
-                    self.eval()
-                }
-                Some(1) => {
-                    self.notation = one;
-                    self.eval()
+                Flat(note) => {
+                    self.flat = true;
+                    self.notation = note;
+                    continue;
                 }
-                Some(_) => {
-                    self.notation = many;
-                    self.eval()
+                Indent(prefix, style_label, note) => {
+                    let style = if let Some(label) = style_label {
+                        D::Style::combine(&self.style, &self.doc.lookup_style(label.clone())?)
+                    } else {
+                        self.style.clone()
+                    };
+                    let new_indent = Rc::new(IndentNode {
+                        segment: Segment {
+                            str: prefix,
+                            width: saturating_width(str_width(prefix)),
+                            style,
+                        },
+                        parent: self.indent,
+                    });
+                    self.indent = Some(new_indent);
+                    self.notation = note;
+                    continue;
                 }
-            },
-            Fold { first, join } => match self.doc.num_children()? {
-                None => Err(PrintingError::NumChildrenChanged),
-                Some(0) => Ok(ConsolidatedNotation::Empty),
-                Some(1) => {
-                    self.notation = first;
-                    self.eval()
+                Concat(note1, note2) => {
+                    let mut cnote1 = self.clone();
+                    cnote1.notation = note1;
+                    let mut cnote2 = self;
+                    cnote2.notation = note2;
+                    Ok(ConsolidatedNotation::Concat(cnote1, cnote2))
                 }
-                Some(n) => {
-                    self.join_pos = Some(JoinPos {
-                        parent: self.doc,
-                        child: self.doc.unwrap_last_child()?,
-                        index: n - 1,
-                        first,
-                        join,
-                    });
-                    self.notation = join;
-                    self.eval()
+                Choice(note1, _note2) if self.flat => {
+                    self.notation = note1;
+                    continue;
                 }
-            },
-            Left => match &mut self.join_pos {
-                None => {
-                    panic!("Bug: Left used outside of fold; should have been caught by validation")
+                Choice(note1, note2) => {
+                    let mut cnote1 = self.clone();
+                    cnote1.notation = note1;
+                    let mut cnote2 = self;
+                    cnote2.notation = note2;
+                    Ok(ConsolidatedNotation::Choice(cnote1, cnote2))
                 }
-                Some(JoinPos {
-                    parent,
-                    child,
-                    index,
-                    first,
-                    join,
-                }) => {
-                    if *index == 1 {
-                        self.notation = *first;
-                        self.join_pos = None;
-                        self.eval()
+                Check(cond, pos, note1, note2) => {
+                    let doc_to_inspect = match pos {
+                        CheckPos::Here => self.doc,
+                        CheckPos::Child(i) => match self.doc.num_children()? {
+                            None => return Err(PrintingError::CheckPosChildOnChildlessDoc),
+                            Some(n) => match normalize_child_index(*i, n) {
+                                None => {
+                                    return Err(PrintingError::CheckPosChildIndexOutOfBounds {
+                                        index: *i,
+                                        len: n,
+                                    })
+                                }
+                                Some(index) => self.doc.unwrap_child(index)?,
+                            },
+                        },
+                        // ValidNotation::validate() ensures these unwraps are safe
+                        CheckPos::RightChild => self.join_pos.unwrap().child,
+                        CheckPos::LeftChild => {
+                            let join_pos = self.join_pos.unwrap();
+                            join_pos
+                                .child
+                                .unwrap_prev_sibling(join_pos.parent, join_pos.index - 1)?
+                        }
+                    };
+                    if doc_to_inspect.condition(cond)? {
+                        self.notation = note1;
+                        continue;
                     } else {
-                        *child = child.unwrap_prev_sibling(*parent, *index - 1)?;
-                        *index -= 1;
-                        self.notation = *join;
-                        self.eval()
+                        self.notation = note2;
+                        continue;
                     }
                 }
-            },
-            Right => match &mut self.join_pos {
-                None => {
-                    panic!("Bug: Right used outside of fold; should have been caught by validation")
+                Child(i) => match self.doc.num_children()? {
+                    None => Err(PrintingError::ChildNotationOnChildlessDoc),
+                    Some(n) => match normalize_child_index(*i, n) {
+                        None => Err(PrintingError::ChildIndexOutOfBounds { index: *i, len: n }),
+                        Some(index) => {
+                            self.doc = self.doc.unwrap_child(index)?;
+                            self.notation = &self.doc.notation()?.0;
+                            self.style = D::Style::combine(&self.style, &self.doc.node_style()?);
+                            Ok(ConsolidatedNotation::Child(index, self))
+                        }
+                    },
+                },
+                Style(style_label, note) => {
+                    self.style = D::Style::combine(
+                        &self.style,
+                        &self.doc.lookup_style(style_label.clone())?,
+                    );
+                    self.notation = note;
+                    continue;
                 }
-                Some(JoinPos { child, index, .. }) => {
-                    let index = *index;
-                    self.doc = *child;
-                    self.notation = &child.notation()?.0;
-                    self.style = D::Style::combine(&self.style, &self.doc.node_style()?);
-                    self.join_pos = None;
-                    Ok(ConsolidatedNotation::Child(index, self))
+                FocusMark => Ok(ConsolidatedNotation::FocusMark),
+                Count { zero, one, many } => match self.doc.num_children()? {
+                    None => Err(PrintingError::CountNotationOnChildlessDoc),
+                    Some(0) => {
+                        self.notation = zero;
+                        continue;
+                    }
+                    Some(1) => {
+                        self.notation = one;
+                        continue;
+                    }
+                    Some(_) => {
+                        self.notation = many;
+                        continue;
+                    }
+                },
+                Fold { first, join } => match self.doc.num_children()? {
+                    None => Err(PrintingError::NumChildrenChanged),
+                    Some(0) => Ok(ConsolidatedNotation::Empty),
+                    Some(1) => {
+                        self.notation = first;
+                        continue;
+                    }
+                    Some(n) => {
+                        self.join_pos = Some(JoinPos {
+                            parent: self.doc,
+                            child: self.doc.unwrap_last_child()?,
+                            index: n - 1,
+                            first,
+                            join,
+                        });
+                        self.notation = join;
+                        continue;
+                    }
+                },
+                Left => {
+                    match &mut self.join_pos {
+                        None => {
+                            panic!("Bug: Left used outside of fold; should have been caught by validation")
+                        }
+                        Some(JoinPos {
+                            parent,
+                            child,
+                            index,
+                            first,
+                            join,
+                        }) => {
+                            if *index == 1 {
+                                self.notation = *first;
+                                self.join_pos = None;
+                                continue;
+                            } else {
+                                *child = child.unwrap_prev_sibling(*parent, *index - 1)?;
+                                *index -= 1;
+                                self.notation = *join;
+                                continue;
+                            }
+                        }
+                    }
                 }
-            },
+                Right => match &mut self.join_pos {
+                    None => {
+                        panic!("Bug: Right used outside of fold; should have been caught by validation")
+                    }
+                    Some(JoinPos { child, index, .. }) => {
+                        let index = *index;
+                        self.doc = *child;
+                        self.notation = &child.notation()?.0;
+                        self.style = D::Style::combine(&self.style, &self.doc.node_style()?);
+                        self.join_pos = None;
+                        Ok(ConsolidatedNotation::Child(index, self))
+                    }
+                },
+            };
         }
     }
 }
-- 
2.43.0


From dd135ebda5362d7b939264fdf4fb1562026e4e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:37 +0000
Subject: [PATCH 17/18] fix: don't overflow the stack when dropping a lot of
 nested indentation

---
 src/consolidated_notation.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/consolidated_notation.rs b/src/consolidated_notation.rs
index eccdf3e..8449294 100644
--- a/src/consolidated_notation.rs
+++ b/src/consolidated_notation.rs
@@ -103,6 +103,17 @@ struct JoinPos<'d, D: PrettyDoc<'d>> {
     join: &'d Notation<D::StyleLabel, D::Condition>,
 }
 
+impl<'d, D: PrettyDoc<'d>> Drop for IndentNode<'d, D> {
+    /// Drop the levels of indentation to the left of this one in a loop. The default recursive
+    /// implementation would overflow the stack if there were very many of them.
+    fn drop(&mut self) {
+        let mut parent = self.parent.take();
+        while let Some(mut node) = parent.and_then(|node| Rc::try_unwrap(node).ok()) {
+            parent = node.parent.take();
+        }
+    }
+}
+
 impl<'d, D: PrettyDoc<'d>> Textual<'d, D> {
     /// Split this text in two, at the given position between `char`s. If it's too large, split at
     /// the end.
-- 
2.43.0


From 0e13a0db5eaa8ed7a8ec3a1b612150ed55185043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:12 +0000
Subject: [PATCH 18/18] fix: a NUL character must not vanish from a PlainText
 window

---
 src/pane/plain_text.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pane/plain_text.rs b/src/pane/plain_text.rs
index 5d5ff80..f1de2fe 100644
--- a/src/pane/plain_text.rs
+++ b/src/pane/plain_text.rs
@@ -11,7 +11,7 @@ pub struct PlainText<S: Style> {
     /// A line is stored as a vector of characters. Each element represents one column position, so
     /// a full-width unicode character will be followed by a `SENTINEL` value to indicate that it
     /// takes up the next column as well.
-    lines: Vec<Vec<char>>,
+    lines: Vec<Vec<Option<char>>>,
     /// The size of the window.
     size: Size,
     /// The style is ignored.
@@ -20,14 +20,14 @@ pub struct PlainText<S: Style> {
     focus_points: Vec<Pos>,
 }
 
-// Follows each full-width char.
-const SENTINEL: char = '\0';
+// Follows each full-width char. (Not itself a `char`, as any `char` could be displayed.)
+const SENTINEL: Option<char> = None;
 
 impl<S: Style> fmt::Display for PlainText<S> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         for line in &self.lines {
             for ch in line {
-                if *ch != SENTINEL {
+                if let Some(ch) = ch {
                     write!(f, "{}", ch)?;
                 }
             }
@@ -82,9 +82,9 @@ impl<S: Style> PrettyWindow for PlainText<S> {
 
         let width = if full_width { 2 } else { 1 };
         if line.len() < col + width {
-            line.resize(col + width, ' ');
+            line.resize(col + width, Some(' '));
         }
-        line[col] = ch;
+        line[col] = Some(ch);
         if full_width {
             line[col + 1] = SENTINEL;
         }
-- 
2.43.0

