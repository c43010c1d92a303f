From ce48ea0f919612257f6012697c13e0850d4a67ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:59 +0000
Subject: [PATCH 001/126] fix: stop scanning an attribute entry at the end of
 the document

A document ending in ":name: value" without a trailing newline made the
scanner loop forever.
---
 src/scanner/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index c756673..f6c7f51 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -264,7 +264,7 @@ impl<'a> Scanner<'a> {
             }
             ':' => {
                 if self.starts_new_line() && self.starts_attr() {
-                    while self.peek() != '\n' {
+                    while self.peek() != '\n' && !self.is_at_end() {
                         // TK line continuation
                         self.current += 1
                     }
-- 
2.43.0


From d23d001066734675bb92866835979ecae229391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:59 +0000
Subject: [PATCH 002/126] fix: do not index past the end when a document ends
 mid-construct

Text ending in "&amp", "{name" or ":name" panicked with an out-of-bounds
index in the scanner look-ahead helpers.
---
 src/scanner/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index f6c7f51..e007ef5 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -673,7 +673,7 @@ impl<'a> Scanner<'a> {
         while ![' ', '\n', ':'].contains(&self.peek()) && !self.is_at_end() {
             self.current += 1
         }
-        let check = self.source.as_bytes()[self.current] as char == ':';
+        let check = self.peek() == ':';
         self.current = current_placeholder;
         check
     }
@@ -692,7 +692,7 @@ impl<'a> Scanner<'a> {
         while (self.peek().is_alphanumeric() || self.peek() == '-') && !self.is_at_end() {
             self.current += 1
         }
-        let check = self.source.as_bytes()[self.current] as char == '}';
+        let check = self.peek() == '}';
         self.current = current_placeholder;
         check
     }
@@ -703,7 +703,7 @@ impl<'a> Scanner<'a> {
         while self.peek().is_alphanumeric() && !self.is_at_end() {
             self.current += 1
         }
-        let check = self.source.as_bytes()[self.current] as char == ';';
+        let check = self.peek() == ';';
         self.current = current_placeholder;
         check
     }
-- 
2.43.0


From ba241521e7e529c316f8514c1654a73f2ac5a9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:29 +0000
Subject: [PATCH 003/126] fix: treat macros without a closing bracket as text

"image::a.png", "image:a.png", "include::a.adoc" and "[.role" without a "]"
made the scanner loop forever, and with a "]" further down the document they
swallowed the lines in between. A "]" ahead of the "[" panicked.
---
 src/scanner/mod.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index e007ef5..0148561 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -227,7 +227,7 @@ impl<'a> Scanner<'a> {
                         'W' => self.add_token(TokenType::WarningPara, true, 0),
                         _ => self.add_token(TokenType::ElementAttributes, true, 0),
                     }
-                } else if self.peek() == '.' {
+                } else if self.peek() == '.' && self.rest_of_line().contains(']') {
                     self.add_inline_style()
                 } else {
                     self.add_text_until_next_markup()
@@ -308,14 +308,21 @@ impl<'a> Scanner<'a> {
                 }
             }
             'i' => {
-                if self.starts_new_line() && self.peeks_ahead(8) == "nclude::" {
+                if self.starts_new_line()
+                    && self.peeks_ahead(8) == "nclude::"
+                    && self.closes_attr_list_on_line()
+                {
                     self.add_include()
-                } else if self.starts_new_line() && self.peeks_ahead(6) == "mage::" {
+                } else if self.starts_new_line()
+                    && self.peeks_ahead(6) == "mage::"
+                    && self.closes_attr_list_on_line()
+                {
                     self.add_block_image()
                 // double colons after just parse as regular text per asciidoctor implementation
                 } else if self.peeks_ahead(5) == "mage:"
                     && self.peeks_ahead(6) != "mage::"
                     && self.peeks_ahead(6) != "mage: "
+                    && self.closes_attr_list_on_line()
                 {
                     self.add_inline_image()
                 } else {
@@ -678,6 +685,16 @@ impl<'a> Scanner<'a> {
         check
     }
 
+    /// Checks that a macro's attribute list, e.g., the "[bar]" in "image::foo[bar]", is opened and
+    /// then closed on the current line
+    fn closes_attr_list_on_line(&self) -> bool {
+        let line = self.rest_of_line();
+        match (line.find('['), line.find(']')) {
+            (Some(open), Some(close)) => open < close,
+            _ => false,
+        }
+    }
+
     fn starts_end_tag_line(&mut self) -> bool {
         self.expecting_tag_end && self.peek_line().contains("end::")
     }
@@ -828,6 +845,10 @@ impl<'a> Scanner<'a> {
         &self.source[self.current..self.current + count]
     }
 
+    fn rest_of_line(&self) -> &str {
+        self.source[self.current..].split('\n').next().unwrap_or("")
+    }
+
     fn peek_line(&self) -> &str {
         let mut count = 1;
         while !['\n', '\0'].contains(&self.peeks_ahead(count).chars().last().unwrap()) {
-- 
2.43.0


From e475cdda6f77866f46fd322109d137fc73d8ab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:06 +0000
Subject: [PATCH 004/126] fix: require a space after heading markers

A line such as "=x" was taken as a heading and lost its first character, a
bare "==" line swallowed its newline, and "=" at the end of the document or
before a multi-byte character panicked. These are plain text.
---
 src/scanner/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 0148561..9404df7 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -494,6 +494,10 @@ impl<'a> Scanner<'a> {
         while self.peek() == '=' {
             self.current += 1
         }
+        // heading markers must be followed by a space, otherwise it's just text
+        if self.peek() != ' ' {
+            return self.add_text_until_next_markup();
+        }
         self.current += 1; // add the space to the lexeme, but remove from count
         match self.source.as_bytes()[self.start..self.current - 1].len() {
             1 => self.add_token(TokenType::Heading1, false, 0),
-- 
2.43.0


From 6536ac0859e455aed4047f6a6656c2709115fe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:06 +0000
Subject: [PATCH 005/126] fix: allow multi-byte characters in table cells

The cell scanner stopped inside a multi-byte character and the slice then
panicked.
---
 src/scanner/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 9404df7..c46f39f 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -545,7 +545,7 @@ impl<'a> Scanner<'a> {
 
     /// Adds contents into a TableCell token, regardless of other formatting (simpler to re-scan later)
     fn add_table_cell(&mut self) -> Result<Token, ScannerError> {
-        while !['\n', '\0', '|'].contains(&self.peek()) {
+        while !['\n', '|'].contains(&self.peek()) && !self.is_at_end() {
             self.current += 1
         }
         // if the delimiter is |
-- 
2.43.0


From 7573492dd1c0a9a37c5c64a6f1946cd5f9e32d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:06 +0000
Subject: [PATCH 006/126] fix: end bare links at the end of the line

A URL at the end of a line swallowed the newline and the first word of the
next line, and a multi-byte character in a URL panicked.
---
 src/scanner/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index c46f39f..2a83be0 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -559,19 +559,22 @@ impl<'a> Scanner<'a> {
     /// Adds the link, consuming the target but not any attributes
     fn add_link(&mut self) -> Result<Token, ScannerError> {
         let hyperlink_allowed_punctuation = ['.', '#', ':', '/', '?', '=', '&'];
-        while !['\0', ' '].contains(&self.peek()) && !self.peek().is_ascii_punctuation() {
+        while ![' ', '\n'].contains(&self.peek())
+            && !self.peek().is_ascii_punctuation()
+            && !self.is_at_end()
+        {
             self.current += 1
         }
         // it's an attribute-styled link
         if self.peek() == '[' {
             self.current += 1; // consume the '[' char
             self.add_token(TokenType::LinkMacro, true, 0)
-        } else if ['\0', ' '].contains(&self.peek()) {
+        } else if ['\0', ' ', '\n'].contains(&self.peek()) {
             self.add_token(TokenType::Hyperlink, true, 0)
         } else if hyperlink_allowed_punctuation.contains(&self.peek()) {
             // if it's at the end of a sentence
             if let Some(second_char) = self.peeks_ahead(2).chars().last() {
-                if ['\0', ' '].contains(&second_char) {
+                if ['\0', ' ', '\n'].contains(&second_char) {
                     self.add_token(TokenType::Hyperlink, true, 0)
                 } else {
                     // otherwise it contains an allowed url punctuation character
-- 
2.43.0


From ab6023319cf9d5b9bc60ea9d22728cfa724910ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:12 +0000
Subject: [PATCH 007/126] fix: treat an unclosed cross reference as text

"<<" without a ">>" consumed the rest of the document and then panicked, and
"<<" around a multi-byte character panicked too.
---
 src/scanner/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 2a83be0..5b6c955 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -96,7 +96,7 @@ impl<'a> Scanner<'a> {
                 } else if ['-', '='].contains(&self.peek()) {
                     self.current += 1;
                     self.add_token(TokenType::CharRef, false, 0)
-                } else if self.peek() == '<' {
+                } else if self.peek() == '<' && self.rest_of_line().contains(">>") {
                     self.add_cross_reference()
                 } else if self.starts_new_line() && self.starts_code_callout_list_item() {
                     self.current += 1; // consume the space char
@@ -845,6 +845,7 @@ impl<'a> Scanner<'a> {
     fn peeks_ahead(&self, count: usize) -> &str {
         if self.is_at_end()
             || self.current + count > self.source.len()
+            || !self.source.is_char_boundary(self.current)
             || !self.source.is_char_boundary(self.current + count)
         {
             return "\0";
-- 
2.43.0


From 1f8c626f376fcb2fc85fef3ccae06572f0408820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:12 +0000
Subject: [PATCH 008/126] fix: only scan a block anchor that closes on its own
 line

"[[" without a "]]" at the end of the line consumed the document up to the
next anchor, and panicked if there was none or if the anchor ended the
document.
---
 src/scanner/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 5b6c955..ac05812 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -216,7 +216,10 @@ impl<'a> Scanner<'a> {
 
             '[' => {
                 // block anchor, role, quote, verse, source, etc. TK add for generic options
-                if self.starts_new_line() && self.peek() == '[' {
+                if self.starts_new_line()
+                    && self.peek() == '['
+                    && self.rest_of_line().ends_with("]]")
+                {
                     self.add_block_anchor()
                 } else if self.starts_attribution_line() {
                     match self.source.as_bytes()[self.start + 1] as char {
@@ -610,10 +613,7 @@ impl<'a> Scanner<'a> {
 
     // adds block anchors, e.g., "\n[[some_block_id]]\n"
     fn add_block_anchor(&mut self) -> Result<Token, ScannerError> {
-        while self.peeks_ahead(3) != "]]\n" && !self.is_at_end() {
-            self.current += 1
-        }
-        self.current += 2; // consume the ']]' chars, NOT newline
+        self.current += self.rest_of_line().len(); // consume the ']]' chars, NOT newline
         self.add_token(TokenType::BlockAnchor, true, 0)
     }
 
-- 
2.43.0


From 0647d084ba7d07cda13df4b5f947d883f6df8a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:12 +0000
Subject: [PATCH 009/126] fix: scan tag directives by their own text only

A "tag::" or "end::" without brackets panicked at the end of the document, a
tag opened inside another tag skipped ahead to the next "e" anywhere in the
document, and an "end::" directive whose name contains "tag" was taken as the
start of a tag.
---
 src/scanner/mod.rs | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index ac05812..91b22f1 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -333,14 +333,14 @@ impl<'a> Scanner<'a> {
                 }
             }
             't' => {
-                if self.peeks_ahead(4) == "ag::" {
+                if self.peeks_ahead(4) == "ag::" && self.closes_attr_list_on_line() {
                     self.add_tag()
                 } else {
                     self.add_text_until_next_markup()
                 }
             }
             'e' => {
-                if self.peeks_ahead(4) == "nd::" {
+                if self.peeks_ahead(4) == "nd::" && self.closes_attr_list_on_line() {
                     self.add_tag()
                 } else {
                     self.add_text_until_next_markup()
@@ -635,22 +635,23 @@ impl<'a> Scanner<'a> {
 
     fn add_tag(&mut self) -> Result<Token, ScannerError> {
         let tag_type: TokenType;
-        if self.expecting_tag_end {
-            while self.peek() != 'e' {
-                self.current += 1;
-            }
-            self.start = self.current;
-            self.startcol = self.start;
+        let rest = &self.source[self.start..];
+        if !rest.starts_with("tag::") && !rest.starts_with("end::") {
+            // skip any comment markup ahead of the directive
+            let skipped = rest.find("end::").unwrap_or(0);
+            self.start += skipped;
+            self.startcol += skipped;
+            self.current = self.start;
         }
         while ![']'].contains(&self.peek()) && !self.is_at_end() {
             self.current += 1;
         }
         self.current += 1; // consume the ']' char
 
-        if (self.source[self.start..self.current]).contains("tag") {
+        if (self.source[self.start..self.current]).starts_with("tag::") {
             tag_type = TokenType::StartTag;
             self.expecting_tag_end = true;
-        } else if (self.source[self.start..self.current]).contains("end") {
+        } else if (self.source[self.start..self.current]).starts_with("end::") {
             tag_type = TokenType::EndTag;
             self.expecting_tag_end = false;
         } else {
@@ -703,7 +704,11 @@ impl<'a> Scanner<'a> {
     }
 
     fn starts_end_tag_line(&mut self) -> bool {
-        self.expecting_tag_end && self.peek_line().contains("end::")
+        self.expecting_tag_end
+            && self
+                .rest_of_line()
+                .split_once("end::")
+                .is_some_and(|(_, tag)| tag.contains("[]"))
     }
 
     /// Checks for document attribute references, e.g., {my-thing}
@@ -856,14 +861,6 @@ impl<'a> Scanner<'a> {
     fn rest_of_line(&self) -> &str {
         self.source[self.current..].split('\n').next().unwrap_or("")
     }
-
-    fn peek_line(&self) -> &str {
-        let mut count = 1;
-        while !['\n', '\0'].contains(&self.peeks_ahead(count).chars().last().unwrap()) {
-            count += 1
-        }
-        self.peeks_ahead(count - 1)
-    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 5a725e74151caf86c121aae9c2e868a11960631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:20:57 +0000
Subject: [PATCH 010/126] fix: recognise a block delimiter that ends the
 document

A delimiter line was only recognised with a newline behind it, so a block
closed by the very last line of a document without a trailing newline was
left open and the delimiter became part of its text.
---
 src/scanner/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 91b22f1..c037e4c 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -675,11 +675,7 @@ impl<'a> Scanner<'a> {
     }
 
     fn starts_repeated_char_line(&self, c: char, delimiter_len: usize) -> bool {
-        let mut expected_block = String::from(c).repeat(delimiter_len - 1);
-        expected_block.push('\n');
-
-        self.current + delimiter_len <= self.source.len()
-            && self.peeks_ahead(delimiter_len) == expected_block
+        self.rest_of_line() == String::from(c).repeat(delimiter_len - 1)
     }
 
     /// Checks for document attribute lines, e.g., ":foo: bar" or ":foo:"
@@ -825,6 +821,10 @@ impl<'a> Scanner<'a> {
     }
 
     fn starts_text_symbol_replace_emdash(&mut self) -> bool {
+        // a delimiter line that ends the document is not a replacement
+        if self.start > 0 && self.starts_new_line() && self.starts_repeated_char_line('-', 2) {
+            return false;
+        }
         let after_char = self.peeks_ahead(2).chars().last().unwrap();
         self.peek() == '-' && (after_char.is_alphanumeric() || [' ', '\0'].contains(&after_char))
     }
-- 
2.43.0


From bd725c21582487d4f56a61ae765d0e2b2f02d33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:29 +0000
Subject: [PATCH 011/126] fix: track whether an inline macro is still open

Whether text belonged to a link was decided by a parser flag meant for
closing admonitions. Text behind a bare URL ended up inside the link, a "]"
anywhere behind a link or footnote moved the text in between into it, a span
behind a footnote panicked, and a cross reference, footnote, link or inline
image in a section closed that section at the next blank line.
---
 src/graph/inlines.rs | 18 ++++++++++++++----
 src/parser.rs        | 14 ++++++--------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index ce7e3d7..6b638c2 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -89,10 +89,11 @@ impl Inline {
         matches!(self, Inline::InlineLiteral(_))
     }
 
-    pub fn is_macro(&self) -> bool {
+    /// Used for finding the macro that a macro close belongs to
+    pub fn is_open_macro(&self) -> bool {
         match self {
-            Inline::InlineRef(iref) => iref.variant == InlineRefVariant::Link,
-            Inline::InlineSpan(span) => span.variant == InlineSpanVariant::Footnote,
+            Inline::InlineRef(iref) => iref.open,
+            Inline::InlineSpan(span) => span.open && span.variant == InlineSpanVariant::Footnote,
             _ => false,
         }
     }
@@ -240,6 +241,7 @@ impl Inline {
     pub fn close(&mut self) {
         match self {
             Inline::InlineSpan(span) => span.open = false,
+            Inline::InlineRef(iref) => iref.open = false,
             _ => panic!("Invalid action: this inline does not take metadata"),
         }
     }
@@ -520,6 +522,9 @@ pub struct InlineRef {
     #[serde(skip_serializing_if = "Option::is_none")]
     pub metadata: Option<ElementMetadata>,
     location: Vec<Location>,
+    /// designates a macro whose text has yet to be closed, i.e., the "]" in "http://foo[bar]"
+    #[serde(skip)]
+    pub open: bool,
 }
 
 impl InlineRef {
@@ -532,6 +537,7 @@ impl InlineRef {
             inlines: vec![],
             metadata: None,
             location,
+            open: false,
         }
     }
 
@@ -555,6 +561,7 @@ impl InlineRef {
             inlines: vec![numbering],
             metadata,
             location,
+            open: false,
         }
     }
 
@@ -566,7 +573,9 @@ impl InlineRef {
     pub fn new_link_from_macro_token(token: Token) -> Self {
         let mut target = token.text();
         target.pop(); // remove trailing '['
-        InlineRef::new(InlineRefVariant::Link, target, token.locations())
+        let mut link = InlineRef::new(InlineRefVariant::Link, target, token.locations());
+        link.open = true;
+        link
     }
 
     pub fn new_link_from_token(token: Token) -> Self {
@@ -588,6 +597,7 @@ impl InlineRef {
                 inlines: vec![],
                 metadata,
                 location,
+                open: false,
             }
         } else {
             InlineRef::new(InlineRefVariant::Image, target, location)
diff --git a/src/parser.rs b/src/parser.rs
index b4b4a51..e78a872 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -903,7 +903,6 @@ impl Parser {
                 metadata,
                 token.locations(),
             )));
-        self.close_parent_after_push = true;
         Ok(())
     }
 
@@ -927,7 +926,7 @@ impl Parser {
         } else if let Some(inline_macro_idx) = self
             .inline_stack
             .iter()
-            .rposition(|inline| inline.is_macro())
+            .rposition(|inline| inline.is_open_macro())
         {
             // consolidate into the inline macro
             let mut inline_macro = self.inline_stack.remove(inline_macro_idx).unwrap();
@@ -937,10 +936,10 @@ impl Parser {
             }
             // update the locations
             inline_macro.consolidate_locations_from_token(token);
+            // note that we're now closed
+            inline_macro.close();
             // add it back to the stack
             self.inline_stack.push_back(inline_macro);
-            // note that we're now closed
-            self.close_parent_after_push = true;
             // and that the inline span is ended
             self.in_inline_span = false;
         } else {
@@ -973,7 +972,6 @@ impl Parser {
     fn parse_cross_reference(&mut self, token: Token) -> Result<(), ParserError> {
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_xref_from_token(token)));
-        self.close_parent_after_push = true;
         Ok(())
     }
 
@@ -1067,7 +1065,7 @@ impl Parser {
                     }
                 }
                 Inline::InlineRef(inline_ref) => {
-                    if !self.close_parent_after_push {
+                    if inline_ref.open {
                         inline_ref.inlines.push(inline_literal);
                     } else {
                         self.inline_stack.push_back(inline_literal)
@@ -1232,7 +1230,7 @@ impl Parser {
                     }
                 }
                 Inline::InlineRef(inline_ref) => {
-                    if !self.close_parent_after_push {
+                    if inline_ref.open {
                         inline_ref.add_text_from_token(token)
                     } else {
                         self.inline_stack.push_back(inline_literal)
@@ -1267,7 +1265,7 @@ impl Parser {
                     }
                 }
                 Inline::InlineRef(inline_ref) => {
-                    if !self.close_parent_after_push {
+                    if inline_ref.open {
                         inline_ref.pass_text_from_token(token)
                     } else {
                         self.inline_stack.push_back(inline_literal)
-- 
2.43.0


From 3f448b2227e85133f3f42cb05fb7c1338cce8785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:49 +0000
Subject: [PATCH 012/126] fix: turn any unclosed span back into text without
 panicking

Unclosed markup panicked when it was empty ("*`"), when it began with another
span, or when it was a footnote.
---
 src/graph/inlines.rs | 17 ++++++++---------
 src/parser.rs        | 15 +++++++++------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 6b638c2..7e6c092 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -172,7 +172,7 @@ impl Inline {
                     InlineSpanVariant::Code => "`".to_string(),
                     InlineSpanVariant::Superscript => "^".to_string(),
                     InlineSpanVariant::Subscript => "~".to_string(),
-                    InlineSpanVariant::Footnote => todo!(), // not applicable
+                    InlineSpanVariant::Footnote => return "footnote:[".to_string(),
                 };
                 if span.node_form == InlineSpanForm::Unconstrained {
                     literal = literal
@@ -426,15 +426,14 @@ impl InlineSpan {
                 let mut working_inline = inline.clone();
                 let open_span_literal = working_inline.produce_literal_from_self();
                 let mut inline_children = working_inline.extract_child_inlines();
-                if let Some(inline) = inline_children.front_mut() {
-                    match inline {
-                        Inline::InlineLiteral(literal) => {
-                            literal.prepend_to_value(open_span_literal, literal.location.clone());
-                        }
-                        _ => todo!(),
-                    }
+                if let Some(Inline::InlineLiteral(literal)) = inline_children.front_mut() {
+                    literal.prepend_to_value(open_span_literal, working_inline.locations());
                 } else {
-                    todo!()
+                    inline_children.push_front(Inline::InlineLiteral(InlineLiteral::new(
+                        InlineLiteralName::Text,
+                        open_span_literal,
+                        working_inline.locations(),
+                    )));
                 }
                 children.extend(inline_children);
             } else {
diff --git a/src/parser.rs b/src/parser.rs
index e78a872..49f6c86 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1293,12 +1293,15 @@ impl Parser {
             // put the literal char into the stack as a literal...
             let mut children = open_span.extract_child_inlines();
             // ... by adding it to the next inline
-            if let Some(inline) = children.front_mut() {
-                match inline {
-                    Inline::InlineLiteral(literal) => {
-                        literal.prepend_to_value(open_span_literal, open_span.locations());
-                    }
-                    _ => todo!(),
+            if !children.is_empty() {
+                if let Some(Inline::InlineLiteral(literal)) = children.front_mut() {
+                    literal.prepend_to_value(open_span_literal, open_span.locations());
+                } else {
+                    children.push_front(Inline::InlineLiteral(InlineLiteral::new(
+                        InlineLiteralName::Text,
+                        open_span_literal,
+                        open_span.locations(),
+                    )));
                 }
                 // put any appended inlines into the stack at the relevant position
                 while children.len() > 0 {
-- 
2.43.0


From 85cd054d1ca2ee27f26053c08b0c28c4c380772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:05 +0000
Subject: [PATCH 013/126] fix: accept any text in an attribute list

A stray quote, a multi-byte first character or a surplus positional attribute
of a quote or verse block panicked.
---
 src/graph/metadata.rs | 11 ++++++-----
 src/utils.rs          |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 7838a82..9c8c99a 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -184,8 +184,8 @@ impl ElementMetadata {
                 }
                 Err(_) => {
                     if idx == 0 && attribute.len() >= 2 {
-                        match &attribute[..2] {
-                            "so" | "qu" | "ve" => {
+                        match attribute.get(..2) {
+                            Some("so" | "qu" | "ve") => {
                                 self.declared_type = AttributeType::from_str(attribute);
                                 continue;
                             }
@@ -215,7 +215,8 @@ impl ElementMetadata {
                     self.attributes
                         .insert(String::from("citation"), String::from(attribute.trim()));
                 } else {
-                    todo!(); // or panic?
+                    self.attributes
+                        .insert(format!("positional_{}", idx + 1), attribute.trim().into());
                 }
             }
             Some(AttributeType::Lines) => {
@@ -223,8 +224,8 @@ impl ElementMetadata {
                 todo!()
             }
             _ => {
-                if attribute.starts_with('"') {
-                    *attribute = attribute[1..attribute.len() - 1].to_string()
+                if let Some(quoted) = attribute.strip_prefix('"') {
+                    *attribute = quoted.strip_suffix('"').unwrap_or(quoted).to_string()
                 }
                 self.attributes
                     .insert(format!("positional_{}", idx + 1), attribute.to_string());
diff --git a/src/utils.rs b/src/utils.rs
index 58b08f0..a78f140 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -16,8 +16,8 @@ pub fn key_values_from_named_attribute(
         Some(captures) => {
             let (_, [named, mut values_str]) = captures.extract();
             // remove quotes values
-            if values_str.starts_with('"') {
-                values_str = &values_str[1..values_str.len() - 1]
+            if let Some(quoted) = values_str.strip_prefix('"') {
+                values_str = quoted.strip_suffix('"').unwrap_or(quoted)
             }
             Ok((
                 named.to_string(),
-- 
2.43.0


From e57aafdfb2754ccac57fb29785e4b3d99b1d8d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:56 +0000
Subject: [PATCH 014/126] fix: match span markers only against spans that are
 still open

---
 src/graph/inlines.rs | 196 +++++++++++++++++++++++++++----------------
 src/parser.rs        | 132 ++++++-----------------------
 2 files changed, 150 insertions(+), 178 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 7e6c092..fe5d7b0 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -1,8 +1,5 @@
 use core::panic;
-use std::{
-    collections::{HashMap, VecDeque},
-    fmt::Display,
-};
+use std::{collections::HashMap, fmt::Display};
 
 use log::warn;
 use serde::Serialize;
@@ -39,9 +36,7 @@ impl PartialEq for Inline {
     fn eq(&self, other: &Self) -> bool {
         match self {
             Inline::InlineSpan(span) => match other {
-                Inline::InlineSpan(other_span) => {
-                    span.variant == other_span.variant && span.node_form == other_span.node_form
-                }
+                Inline::InlineSpan(other_span) => span.same_kind(other_span),
                 _ => false,
             },
             Inline::InlineRef(_) => matches!(other, Inline::InlineRef(_)),
@@ -108,10 +103,72 @@ impl Inline {
     pub fn is_open(&self) -> bool {
         match self {
             Inline::InlineSpan(span) => span.open,
+            Inline::InlineRef(iref) => iref.open,
             _ => false,
         }
     }
 
+    /// Turns any spans or macros inside of this one that were never closed back into text
+    pub fn flatten_open_children(&mut self) {
+        match self {
+            Inline::InlineSpan(span) => {
+                span.inlines = Inline::flatten_open(std::mem::take(&mut span.inlines))
+            }
+            Inline::InlineRef(iref) => {
+                iref.inlines = Inline::flatten_open(std::mem::take(&mut iref.inlines))
+            }
+            _ => {}
+        }
+    }
+
+    /// Turns any spans or macros that were never closed back into the text they were written as
+    pub fn flatten_open(inlines: Vec<Inline>) -> Vec<Inline> {
+        if !inlines.iter().any(|inline| inline.is_open()) {
+            return inlines;
+        }
+        let mut flattened: Vec<Inline> = vec![];
+        for mut inline in inlines {
+            if !inline.is_open() {
+                flattened.push(inline);
+                continue;
+            }
+            match inline {
+                Inline::InlineSpan(span) => {
+                    flattened.push(Inline::InlineLiteral(span.marker_literal()));
+                    flattened.extend(Inline::flatten_open(span.inlines));
+                }
+                Inline::InlineRef(ref mut iref) => {
+                    // the link itself is fine, it's only the text that wasn't closed
+                    let text = std::mem::take(&mut iref.inlines);
+                    let bracket = InlineLiteral::new(
+                        InlineLiteralName::Text,
+                        "[".to_string(),
+                        iref.location.clone(),
+                    );
+                    inline.close();
+                    flattened.push(inline);
+                    flattened.push(Inline::InlineLiteral(bracket));
+                    flattened.extend(Inline::flatten_open(text));
+                }
+                _ => flattened.push(inline),
+            }
+        }
+        // combine any text that is now adjacent
+        let mut combined: Vec<Inline> = vec![];
+        for inline in flattened {
+            if let Inline::InlineLiteral(literal) = &inline {
+                if let Some(Inline::InlineLiteral(last)) = combined.last_mut() {
+                    if last.is_text() && literal.is_text() {
+                        last.combine_literals(literal.clone());
+                        continue;
+                    }
+                }
+            }
+            combined.push(inline);
+        }
+        combined
+    }
+
     /// Used for checking if a given inline is just a literal "\n"
     pub fn is_newline(&self) -> bool {
         match self {
@@ -148,44 +205,6 @@ impl Inline {
         }
     }
 
-    pub fn extract_literal(&mut self) -> InlineLiteral {
-        match &self {
-            Inline::InlineLiteral(literal) => literal.clone(),
-            _ => panic!("Tried to extract an inline literal from the wrong Inline"),
-        }
-    }
-
-    pub fn extract_child_inlines(&mut self) -> VecDeque<Inline> {
-        match &self {
-            Inline::InlineSpan(span) => span.extract_span_inlines(),
-            _ => todo!(),
-        }
-    }
-
-    pub fn produce_literal_from_self(&mut self) -> String {
-        match &self {
-            Inline::InlineSpan(span) => {
-                let mut literal = match span.variant {
-                    InlineSpanVariant::Strong => "*".to_string(),
-                    InlineSpanVariant::Emphasis => "_".to_string(),
-                    InlineSpanVariant::Mark => "#".to_string(),
-                    InlineSpanVariant::Code => "`".to_string(),
-                    InlineSpanVariant::Superscript => "^".to_string(),
-                    InlineSpanVariant::Subscript => "~".to_string(),
-                    InlineSpanVariant::Footnote => return "footnote:[".to_string(),
-                };
-                if span.node_form == InlineSpanForm::Unconstrained {
-                    literal = literal
-                        .chars()
-                        .flat_map(|c| std::iter::repeat_n(c, 2))
-                        .collect::<String>();
-                }
-                literal
-            }
-            _ => todo!(),
-        }
-    }
-
     pub fn prepend_literal(&mut self, preceding_literal: InlineLiteral) {
         match self {
             Inline::InlineLiteral(literal) => {
@@ -273,6 +292,9 @@ pub struct InlineSpan {
     location: Vec<Location>,
     #[serde(skip)]
     pub open: bool,
+    /// the markup that opened the span
+    #[serde(skip)]
+    marker: String,
 }
 
 impl InlineSpan {
@@ -290,11 +312,13 @@ impl InlineSpan {
             metadata: None,
             location,
             open: true,
+            marker: String::new(),
         }
     }
 
     pub fn inline_span_from_token(token: Token) -> Self {
-        match token.token_type() {
+        let marker = token.lexeme.clone();
+        let mut span = match token.token_type() {
             TokenType::Strong => Self::new(
                 InlineSpanVariant::Strong,
                 InlineSpanForm::Constrained,
@@ -376,12 +400,61 @@ impl InlineSpan {
                         format!("({})", &token.text()[1..token.text().len() - 1]),
                         token.locations(),
                     )));
+                code_span.open = false;
                 code_span
             }
             _ => {
                 panic!("Invalid action: tried to create an inline span from an invalid token type")
             }
+        };
+        span.marker = marker;
+        span
+    }
+
+    fn same_kind(&self, other: &InlineSpan) -> bool {
+        self.variant == other.variant
+            && self.node_form == other.node_form
+            && self.marker == other.marker
+    }
+
+    /// The markup that opened the span, as text
+    pub fn marker_literal(&self) -> InlineLiteral {
+        let mut location = self.location.clone();
+        if let Some(start) = location.first().cloned() {
+            let mut end = start.clone();
+            end.col += self.marker.len().saturating_sub(1);
+            location = vec![start, end];
         }
+        InlineLiteral::new(InlineLiteralName::Text, self.marker.clone(), location)
+    }
+
+    /// Closes the open span that the given marker belongs to, i.e., either this one or one nested
+    /// inside of it. Returns false if there isn't any.
+    pub fn close_matching(&mut self, marker: &InlineSpan) -> bool {
+        if !self.open {
+            return false;
+        }
+        let closed = if self.same_kind(marker) && !self.inlines.is_empty() {
+            // anything still open inside can't be closed hereafter
+            self.inlines = Inline::flatten_open(std::mem::take(&mut self.inlines));
+            self.open = false;
+            true
+        } else if let Some(Inline::InlineSpan(last_span)) = self.inlines.last_mut() {
+            last_span.close_matching(marker)
+        } else {
+            false
+        };
+        if closed {
+            self.location = Location::reconcile(self.location.clone(), marker.location.clone());
+        }
+        closed
+    }
+
+    /// Checks for an open span of the same kind, either this one or one nested inside of it
+    pub fn has_open(&self, marker: &InlineSpan) -> bool {
+        self.open
+            && (self.same_kind(marker)
+                || matches!(self.inlines.last(), Some(Inline::InlineSpan(span)) if span.has_open(marker)))
     }
 
     pub fn add_inline(&mut self, inline: Inline) {
@@ -416,33 +489,6 @@ impl InlineSpan {
         footnote
     }
 
-    // extracts the inlines inside the span, closing any open (dangling) spans that may be
-    // inside of it
-    fn extract_span_inlines(&self) -> VecDeque<Inline> {
-        let mut children = VecDeque::new();
-        for inline in self.inlines.iter() {
-            // handle any open spans
-            if inline.is_open() {
-                let mut working_inline = inline.clone();
-                let open_span_literal = working_inline.produce_literal_from_self();
-                let mut inline_children = working_inline.extract_child_inlines();
-                if let Some(Inline::InlineLiteral(literal)) = inline_children.front_mut() {
-                    literal.prepend_to_value(open_span_literal, working_inline.locations());
-                } else {
-                    inline_children.push_front(Inline::InlineLiteral(InlineLiteral::new(
-                        InlineLiteralName::Text,
-                        open_span_literal,
-                        working_inline.locations(),
-                    )));
-                }
-                children.extend(inline_children);
-            } else {
-                children.push_back(inline.clone());
-            }
-        }
-        children
-    }
-
     /// Deconstructs a footnote span into the relevant footnote definition ID (to be applied to
     /// the leafblock that contains the footnote text), an InlineSpan `Sup<InlineRef>` that replaces the footnote
     /// with a link to said leafblock, and the vector of inlines that will be inserted into
@@ -720,6 +766,10 @@ impl InlineLiteral {
         self.value.clone()
     }
 
+    fn is_text(&self) -> bool {
+        matches!(self.name, InlineLiteralName::Text)
+    }
+
     pub fn value_or_refd_char(&self) -> String {
         // In HTML these just get passed through, but for certain outputs we want to do replacements. This
         // is obviously an incomplete table.
diff --git a/src/parser.rs b/src/parser.rs
index 49f6c86..752e330 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -60,8 +60,6 @@ pub struct Parser {
     level_offset: i8,
     /// designates whether we're to be adding inlines to the previous block until a newline
     in_block_line: bool,
-    /// designates whether new literal text should be added to the last span
-    in_inline_span: bool,
     /// designates whether, despite newline last_tokens_types, we should append the current block
     /// to the next
     in_block_continuation: bool,
@@ -115,7 +113,6 @@ impl Parser {
             open_delimited_block_lines: vec![],
             level_offset: 0,
             in_block_line: false,
-            in_inline_span: false,
             in_block_continuation: false,
             preserve_newline_text: false,
             open_parse_after_as_text_type: None,
@@ -253,9 +250,9 @@ impl Parser {
             | TokenType::UnconstrainedMark
             | TokenType::UnconstrainedMonospace
             | TokenType::UnconstrainedLiteral
-            | TokenType::UnconstrainedEmphasis => self.parse_inline_span(Inline::InlineSpan(
+            | TokenType::UnconstrainedEmphasis => self.parse_inline_span(
                 InlineSpan::inline_span_from_token(token),
-            )),
+            ),
 
             // replacements -- done on token.text()
             TokenType::OpenDoubleQuote
@@ -467,7 +464,6 @@ impl Parser {
                     self.add_last_list_item_to_list()?;
                 }
                 // clear out any inlines
-                self.in_inline_span = false;
                 self.add_inlines_to_block_stack()?;
                 // and then force a new block hereafter
                 self.force_new_block = true;
@@ -825,42 +821,31 @@ impl Parser {
     }
 
     /// Generic parser for inline spans that close themselves
-    fn parse_inline_span(&mut self, mut inline: Inline) -> Result<(), ParserError> {
-        if let Some(last_inline) = self.inline_stack.back_mut() {
-            if inline == *last_inline {
-                last_inline.reconcile_locations(inline.locations());
-                last_inline.close();
-                self.in_inline_span = false;
-                return Ok(());
-            } else if let Inline::InlineSpan(last_span) = last_inline {
-                if let Some(last_internal_inline) = last_span.inlines.last_mut() {
-                    if inline == *last_internal_inline {
-                        last_internal_inline.reconcile_locations(inline.locations());
-                        last_internal_inline.close();
-                    } else {
-                        last_span.add_inline(inline);
-                    }
-                } else {
-                    last_span.add_inline(inline);
-                }
-                return Ok(());
-            }
-        }
+    fn parse_inline_span(&mut self, mut span: InlineSpan) -> Result<(), ParserError> {
         // handle newline tokens prior to constrained spans
         if let Some(newline_token) = self.dangling_newline.clone() {
             self.add_text_to_last_inline(newline_token);
             self.dangling_newline = None;
         }
-        // check for any other dangling spans (otherwise they disappear!)
-        self.handle_dangling_spans();
+        if let Some(Inline::InlineSpan(last_span)) = self.inline_stack.back_mut() {
+            if last_span.close_matching(&span) {
+                return Ok(());
+            }
+            if last_span.has_open(&span) {
+                // nothing to format yet, so the marker is just text
+                last_span.add_inline(Inline::InlineLiteral(span.marker_literal()));
+                return Ok(());
+            }
+        }
         // add any metadata to new inline
         if self.metadata.is_some() {
-            inline.add_metadata(self.metadata.as_ref().unwrap().clone());
-            self.metadata = None;
+            span.metadata = self.metadata.take();
+        }
+        let inline = Inline::InlineSpan(span);
+        match self.inline_stack.back_mut() {
+            Some(Inline::InlineSpan(last_span)) if last_span.open => last_span.add_inline(inline),
+            _ => self.inline_stack.push_back(inline),
         }
-        self.inline_stack.push_back(inline);
-
-        self.in_inline_span = true;
         Ok(())
     }
 
@@ -911,7 +896,6 @@ impl Parser {
             .push_back(Inline::InlineSpan(InlineSpan::inline_span_from_token(
                 token,
             )));
-        self.in_inline_span = true;
         Ok(())
     }
 
@@ -934,14 +918,13 @@ impl Parser {
                 let subsequent_inline = self.inline_stack.remove(inline_macro_idx).unwrap();
                 inline_macro.push_inline(subsequent_inline);
             }
+            inline_macro.flatten_open_children();
             // update the locations
             inline_macro.consolidate_locations_from_token(token);
             // note that we're now closed
             inline_macro.close();
             // add it back to the stack
             self.inline_stack.push_back(inline_macro);
-            // and that the inline span is ended
-            self.in_inline_span = false;
         } else {
             self.add_text_to_last_inline(token);
         }
@@ -1058,7 +1041,7 @@ impl Parser {
         if let Some(last_inline) = self.inline_stack.back_mut() {
             match last_inline {
                 Inline::InlineSpan(span) => {
-                    if self.in_inline_span {
+                    if span.open {
                         span.add_inline(inline_literal);
                     } else {
                         self.inline_stack.push_back(inline_literal)
@@ -1216,7 +1199,7 @@ impl Parser {
         if let Some(last_inline) = self.inline_stack.back_mut() {
             match last_inline {
                 Inline::InlineSpan(span) => {
-                    if self.in_inline_span {
+                    if span.open {
                         span.add_inline(inline_literal);
                     } else {
                         self.inline_stack.push_back(inline_literal)
@@ -1251,7 +1234,7 @@ impl Parser {
         if let Some(last_inline) = self.inline_stack.back_mut() {
             match last_inline {
                 Inline::InlineSpan(span) => {
-                    if self.in_inline_span {
+                    if span.open {
                         span.add_inline(inline_literal);
                     } else {
                         self.inline_stack.push_back(inline_literal)
@@ -1281,69 +1264,10 @@ impl Parser {
         }
     }
 
+    /// Turns any markup that was never closed back into text
     fn handle_dangling_spans(&mut self) {
-        // look for the last span in the stack
-        if let Some(open_span_idx) = self
-            .inline_stack
-            .iter()
-            .rposition(|inline| inline.is_open())
-        {
-            let mut open_span = self.inline_stack.remove(open_span_idx).unwrap();
-            let open_span_literal = open_span.produce_literal_from_self();
-            // put the literal char into the stack as a literal...
-            let mut children = open_span.extract_child_inlines();
-            // ... by adding it to the next inline
-            if !children.is_empty() {
-                if let Some(Inline::InlineLiteral(literal)) = children.front_mut() {
-                    literal.prepend_to_value(open_span_literal, open_span.locations());
-                } else {
-                    children.push_front(Inline::InlineLiteral(InlineLiteral::new(
-                        InlineLiteralName::Text,
-                        open_span_literal,
-                        open_span.locations(),
-                    )));
-                }
-                // put any appended inlines into the stack at the relevant position
-                while children.len() > 0 {
-                    if let Some(child) = children.pop_back() {
-                        self.inline_stack.insert(open_span_idx, child);
-                    }
-                }
-
-                // consolidate any resultant or remaining adjacent literals (this should be extracted to a function)
-                let mut temp_stack: Vec<Inline> = vec![];
-                while let Some(mut inline) = self.inline_stack.pop_front() {
-                    if temp_stack.len() == 0 {
-                        temp_stack.push(inline);
-                    } else if inline.is_literal() {
-                        if let Some(Inline::InlineLiteral(last_in_stack)) = temp_stack.last_mut() {
-                            last_in_stack.combine_literals(inline.extract_literal());
-                        } else {
-                            temp_stack.push(inline);
-                        }
-                    } else {
-                        temp_stack.push(inline);
-                    }
-                }
-                self.inline_stack = temp_stack.into();
-            } else {
-                // ... or if there are no children, add the token to the back of the last one; this
-                // is a little hacky, but it is cleaner compared to the rest of the code just to
-                // create a token and reuse the existing function
-                let (line, startcol, endcol) =
-                    Location::destructure_inline_locations(open_span.locations());
-                let reconstituted_token = Token {
-                    token_type: TokenType::Text,
-                    lexeme: open_span_literal.clone(),
-                    literal: Some(open_span_literal),
-                    line,
-                    startcol,
-                    endcol,
-                    file_stack: self.file_stack.clone(),
-                };
-                self.add_text_to_last_inline(reconstituted_token)
-            }
-        }
+        let inlines: Vec<Inline> = self.inline_stack.drain(..).collect();
+        self.inline_stack = Inline::flatten_open(inlines).into();
     }
 
     fn add_inlines_to_block_stack(&mut self) -> Result<(), ParserError> {
@@ -1353,9 +1277,7 @@ impl Parser {
         }
 
         // dangling inlines
-        if self.in_inline_span {
-            self.handle_dangling_spans();
-        }
+        self.handle_dangling_spans();
 
         if let Some(header) = &mut self.document_header {
             while !self.inline_stack.is_empty() {
-- 
2.43.0


From 1503132a877c8cd0b3941b7d8fe5b6a373db6906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:58 +0000
Subject: [PATCH 015/126] fix: keep the newline ahead of a link, image, cross
 reference or footnote

---
 src/graph/inlines.rs | 10 +++--
 src/parser.rs        | 87 +++++++++++++++-----------------------------
 2 files changed, 36 insertions(+), 61 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index fe5d7b0..099a3e3 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -172,7 +172,7 @@ impl Inline {
     /// Used for checking if a given inline is just a literal "\n"
     pub fn is_newline(&self) -> bool {
         match self {
-            Inline::InlineLiteral(lit) => lit.value == *"\n",
+            Inline::InlineLiteral(lit) => lit.is_newline(),
             _ => false,
         }
     }
@@ -666,11 +666,11 @@ impl InlineRef {
         if let Some(last_inline) = self.inlines.last_mut() {
             match last_inline {
                 Inline::InlineSpan(span) => span.add_inline(inline_literal),
-                Inline::InlineLiteral(prior_literal) => match pass {
+                Inline::InlineLiteral(prior_literal) if prior_literal.is_text() => match pass {
                     true => prior_literal.pass_text_from_token(&token),
                     false => prior_literal.add_text_from_token(&token),
                 },
-                _ => panic!("Can't add text to last token in this context"),
+                _ => self.inlines.push(inline_literal),
             }
         } else {
             self.inlines.push(inline_literal)
@@ -766,6 +766,10 @@ impl InlineLiteral {
         self.value.clone()
     }
 
+    pub fn is_newline(&self) -> bool {
+        self.value == *"\n"
+    }
+
     fn is_text(&self) -> bool {
         matches!(self.name, InlineLiteralName::Text)
     }
diff --git a/src/parser.rs b/src/parser.rs
index 752e330..dd4652f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -823,10 +823,7 @@ impl Parser {
     /// Generic parser for inline spans that close themselves
     fn parse_inline_span(&mut self, mut span: InlineSpan) -> Result<(), ParserError> {
         // handle newline tokens prior to constrained spans
-        if let Some(newline_token) = self.dangling_newline.clone() {
-            self.add_text_to_last_inline(newline_token);
-            self.dangling_newline = None;
-        }
+        self.add_dangling_newline();
         if let Some(Inline::InlineSpan(last_span)) = self.inline_stack.back_mut() {
             if last_span.close_matching(&span) {
                 return Ok(());
@@ -850,6 +847,7 @@ impl Parser {
     }
 
     fn parse_link_macro(&mut self, token: Token) -> Result<(), ParserError> {
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_link_from_macro_token(
                 token,
@@ -858,6 +856,7 @@ impl Parser {
     }
 
     fn parse_hyperlink(&mut self, token: Token) -> Result<(), ParserError> {
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_link_from_token(token)));
         Ok(())
@@ -882,6 +881,7 @@ impl Parser {
     fn parse_inline_image_macro(&mut self, token: Token) -> Result<(), ParserError> {
         let (target, metadata) = target_and_attrs_from_token(&token);
         let _ = self.check_target(token.line, &target);
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_inline_image(
                 target,
@@ -892,6 +892,7 @@ impl Parser {
     }
 
     fn parse_footnote_macro(&mut self, token: Token) -> Result<(), ParserError> {
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineSpan(InlineSpan::inline_span_from_token(
                 token,
@@ -953,6 +954,7 @@ impl Parser {
     }
 
     fn parse_cross_reference(&mut self, token: Token) -> Result<(), ParserError> {
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineRef(InlineRef::new_xref_from_token(token)));
         Ok(())
@@ -975,69 +977,20 @@ impl Parser {
     }
 
     fn parse_text(&mut self, token: Token) -> Result<(), ParserError> {
-        if let Some(newline_token) = self.dangling_newline.clone() {
-            if self.preserve_newline_text {
-                // add the newline as such
-                self.inline_stack.push_back(Inline::InlineLiteral(
-                    InlineLiteral::new_text_from_token(&newline_token),
-                ));
-                // clear the newline
-                self.dangling_newline = None;
-                // add the new text separately
-                self.inline_stack.push_back(Inline::InlineLiteral(
-                    InlineLiteral::new_text_from_token(&token),
-                ));
-                return Ok(());
-            } else {
-                self.add_text_to_last_inline(newline_token);
-                self.dangling_newline = None;
-            }
-        }
+        self.add_dangling_newline();
         self.add_text_to_last_inline(token);
         Ok(())
     }
 
     fn pass_text_through(&mut self, token: Token) -> Result<(), ParserError> {
-        if let Some(newline_token) = self.dangling_newline.clone() {
-            if self.preserve_newline_text {
-                // add the newline as such
-                self.inline_stack.push_back(Inline::InlineLiteral(
-                    InlineLiteral::new_text_from_token(&newline_token),
-                ));
-                // clear the newline
-                self.dangling_newline = None;
-                // add the new text separately
-                self.inline_stack.push_back(Inline::InlineLiteral(
-                    InlineLiteral::new_text_from_token_pass(&token),
-                ));
-                return Ok(());
-            } else {
-                self.add_text_to_last_inline(newline_token);
-                self.dangling_newline = None;
-            }
-        }
+        self.add_dangling_newline();
         self.pass_text_to_last_inline(token);
         Ok(())
     }
 
     fn parse_charref(&mut self, token: Token) -> Result<(), ParserError> {
         let inline_literal = Inline::InlineLiteral(InlineLiteral::new_charref_from_token(&token));
-        if let Some(newline_token) = self.dangling_newline.clone() {
-            if self.preserve_newline_text {
-                // add the newline as such
-                self.inline_stack.push_back(Inline::InlineLiteral(
-                    InlineLiteral::new_text_from_token(&newline_token),
-                ));
-                // clear the newline
-                self.dangling_newline = None;
-                // add the new text separately
-                self.inline_stack.push_back(inline_literal);
-                return Ok(());
-            } else {
-                self.add_text_to_last_inline(newline_token);
-                self.dangling_newline = None;
-            }
-        }
+        self.add_dangling_newline();
         if let Some(last_inline) = self.inline_stack.back_mut() {
             match last_inline {
                 Inline::InlineSpan(span) => {
@@ -1194,6 +1147,20 @@ impl Parser {
         Ok(())
     }
 
+    /// Adds any newline we've been holding on to ahead of whatever inline follows it
+    fn add_dangling_newline(&mut self) {
+        if let Some(newline_token) = self.dangling_newline.take() {
+            let in_open_inline = self.inline_stack.back().is_some_and(|last| last.is_open());
+            if self.preserve_newline_text && !in_open_inline {
+                self.inline_stack.push_back(Inline::InlineLiteral(
+                    InlineLiteral::new_text_from_token(&newline_token),
+                ));
+            } else {
+                self.add_text_to_last_inline(newline_token);
+            }
+        }
+    }
+
     fn add_text_to_last_inline(&mut self, token: Token) {
         let inline_literal = Inline::InlineLiteral(InlineLiteral::new_text_from_token(&token));
         if let Some(last_inline) = self.inline_stack.back_mut() {
@@ -1206,7 +1173,9 @@ impl Parser {
                     }
                 }
                 Inline::InlineLiteral(prior_literal) => {
-                    if matches!(prior_literal.name, InlineLiteralName::Charref) {
+                    if matches!(prior_literal.name, InlineLiteralName::Charref)
+                        || (self.preserve_newline_text && prior_literal.is_newline())
+                    {
                         self.inline_stack.push_back(inline_literal)
                     } else {
                         prior_literal.add_text_from_token(&token)
@@ -1241,7 +1210,9 @@ impl Parser {
                     }
                 }
                 Inline::InlineLiteral(prior_literal) => {
-                    if matches!(prior_literal.name, InlineLiteralName::Charref) {
+                    if matches!(prior_literal.name, InlineLiteralName::Charref)
+                        || (self.preserve_newline_text && prior_literal.is_newline())
+                    {
                         self.inline_stack.push_back(inline_literal)
                     } else {
                         prior_literal.pass_text_from_token(&token)
-- 
2.43.0


From c3cb17649b1e50504798da987cab485c7fb8c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:58 +0000
Subject: [PATCH 016/126] fix: substitute attributes and quotes that start a
 link's text

---
 src/graph/inlines.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 099a3e3..6103623 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -662,7 +662,10 @@ impl InlineRef {
     }
 
     fn text_from_token(&mut self, token: Token, pass: bool) {
-        let inline_literal = Inline::InlineLiteral(InlineLiteral::new_text_from_token_pass(&token));
+        let inline_literal = Inline::InlineLiteral(match pass {
+            true => InlineLiteral::new_text_from_token_pass(&token),
+            false => InlineLiteral::new_text_from_token(&token),
+        });
         if let Some(last_inline) = self.inlines.last_mut() {
             match last_inline {
                 Inline::InlineSpan(span) => span.add_inline(inline_literal),
-- 
2.43.0


From fed033d558b879a85df479e1e1fe2fb50c725b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:17 +0000
Subject: [PATCH 017/126] fix: keep references and line breaks inside the span
 they are written in

---
 src/parser.rs | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index dd4652f..4276fbc 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -278,9 +278,10 @@ impl Parser {
             // breaks
             TokenType::PageBreak => self.parse_page_break(token, asg),
             TokenType::ThematicBreak => self.parse_thematic_break(token, asg),
-            TokenType::LineContinuation => {self
-                .inline_stack
-                .push_back(Inline::InlineBreak(LineBreak::new_from_token(token)));Ok(())},
+            TokenType::LineContinuation => {
+                self.push_inline(Inline::InlineBreak(LineBreak::new_from_token(token)));
+                Ok(())
+            }
             // delimited blocks
             TokenType::SidebarBlock
             | TokenType::OpenBlock
@@ -838,11 +839,7 @@ impl Parser {
         if self.metadata.is_some() {
             span.metadata = self.metadata.take();
         }
-        let inline = Inline::InlineSpan(span);
-        match self.inline_stack.back_mut() {
-            Some(Inline::InlineSpan(last_span)) if last_span.open => last_span.add_inline(inline),
-            _ => self.inline_stack.push_back(inline),
-        }
+        self.push_inline(Inline::InlineSpan(span));
         Ok(())
     }
 
@@ -857,8 +854,7 @@ impl Parser {
 
     fn parse_hyperlink(&mut self, token: Token) -> Result<(), ParserError> {
         self.add_dangling_newline();
-        self.inline_stack
-            .push_back(Inline::InlineRef(InlineRef::new_link_from_token(token)));
+        self.push_inline(Inline::InlineRef(InlineRef::new_link_from_token(token)));
         Ok(())
     }
 
@@ -882,12 +878,11 @@ impl Parser {
         let (target, metadata) = target_and_attrs_from_token(&token);
         let _ = self.check_target(token.line, &target);
         self.add_dangling_newline();
-        self.inline_stack
-            .push_back(Inline::InlineRef(InlineRef::new_inline_image(
-                target,
-                metadata,
-                token.locations(),
-            )));
+        self.push_inline(Inline::InlineRef(InlineRef::new_inline_image(
+            target,
+            metadata,
+            token.locations(),
+        )));
         Ok(())
     }
 
@@ -924,8 +919,8 @@ impl Parser {
             inline_macro.consolidate_locations_from_token(token);
             // note that we're now closed
             inline_macro.close();
-            // add it back to the stack
-            self.inline_stack.push_back(inline_macro);
+            // add it back to the stack, or to the span it's inside of
+            self.push_inline(inline_macro);
         } else {
             self.add_text_to_last_inline(token);
         }
@@ -955,8 +950,7 @@ impl Parser {
 
     fn parse_cross_reference(&mut self, token: Token) -> Result<(), ParserError> {
         self.add_dangling_newline();
-        self.inline_stack
-            .push_back(Inline::InlineRef(InlineRef::new_xref_from_token(token)));
+        self.push_inline(Inline::InlineRef(InlineRef::new_xref_from_token(token)));
         Ok(())
     }
 
@@ -1147,6 +1141,14 @@ impl Parser {
         Ok(())
     }
 
+    /// Adds an inline to the span we're in the midst of, if any, otherwise to the stack
+    fn push_inline(&mut self, inline: Inline) {
+        match self.inline_stack.back_mut() {
+            Some(Inline::InlineSpan(last_span)) if last_span.open => last_span.add_inline(inline),
+            _ => self.inline_stack.push_back(inline),
+        }
+    }
+
     /// Adds any newline we've been holding on to ahead of whatever inline follows it
     fn add_dangling_newline(&mut self) {
         if let Some(newline_token) = self.dangling_newline.take() {
-- 
2.43.0


From af6261f469555f58bb5ac42fafe6341667a6ee78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:17 +0000
Subject: [PATCH 018/126] fix: resolve cross references inside spans and link
 text

---
 src/graph/inlines.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 6103623..e4c5ee5 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -266,14 +266,25 @@ impl Inline {
     }
 
     pub fn attempt_xref_standardization(&mut self, id_hash: &HashMap<String, Vec<Inline>>) {
-        if let Inline::InlineRef(iref) = self {
-            if matches!(iref.variant, InlineRefVariant::Xref) {
+        match self {
+            Inline::InlineRef(iref) if matches!(iref.variant, InlineRefVariant::Xref) => {
                 if let Some(ref_text) = id_hash.get(&iref.target) {
                     iref.inlines = ref_text.clone()
                 } else {
                     warn!("Unable to find xref: {}", iref.target)
                 }
             }
+            Inline::InlineRef(iref) => {
+                for inline in iref.inlines.iter_mut() {
+                    inline.attempt_xref_standardization(id_hash)
+                }
+            }
+            Inline::InlineSpan(span) => {
+                for inline in span.inlines.iter_mut() {
+                    inline.attempt_xref_standardization(id_hash)
+                }
+            }
+            _ => {}
         }
     }
 }
-- 
2.43.0


From f022f80aa926dfa605c3f5da649f9a627f97142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:01 +0000
Subject: [PATCH 019/126] fix: attach every block to the block it is written in

Blocks nested in delimited blocks, list continuations and sections were
attached to the wrong parent, merged into the previous block, or dropped,
because closed blocks stayed on the stack. Keep the stack a chain of
containers and close what cannot hold the next block.
---
 src/parser.rs         | 596 ++++++++++++++++++++----------------------
 src/scanner/tokens.rs |   2 +
 2 files changed, 283 insertions(+), 315 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4276fbc..dcfbe08 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -18,7 +18,7 @@ use crate::{
 use crate::{
     graph::{
         asg::Asg,
-        blocks::{Block, BlockMacro, Break, LeafBlock, ParentBlock, Section, TableCell},
+        blocks::{Block, BlockMacro, Break, LeafBlock, ParentBlock, ParentBlockName, Section, TableCell},
         inlines::{Inline, InlineLiteral, InlineLiteralName, InlineRef, InlineSpan, LineBreak},
         lists::{DList, DListItem, List, ListItem, ListVariant},
         metadata::{AttributeType, ElementMetadata},
@@ -50,27 +50,19 @@ pub struct Parser {
     block_title: Option<Vec<Inline>>,
     /// holding ground for block metadata, to be applied to the subsequent block
     metadata: Option<ElementMetadata>,
-    /// counts in/out delimited blocks by line reference; allows us to warn/error if they are
-    /// unclosed at the end of the document
-    open_delimited_block_lines: Vec<usize>,
+    /// where in the block stack the delimited blocks that we have yet to close are
+    open_delimited_blocks: Vec<usize>,
     /// appends text to block or inline regardless of markup, token, etc. (will need to change
     /// if/when we handle code callouts)
     open_parse_after_as_text_type: Option<TokenType>,
     /// tracks the document heading level offset
     level_offset: i8,
-    /// designates whether we're to be adding inlines to the previous block until a newline
+    /// designates whether we're in a heading or a block title, i.e., something that ends with the
+    /// line
     in_block_line: bool,
-    /// designates whether, despite newline last_tokens_types, we should append the current block
-    /// to the next
-    in_block_continuation: bool,
     /// forces a new block when we add inlines; helps distinguish between adding to section.title
     /// and section.blocks
     force_new_block: bool,
-    /// Temporarily preserves newline characters as separate inline literal tokens (where ambiguous
-    /// blocks, i.e., DListItems, may require splitting the inline_stack on the newline)
-    preserve_newline_text: bool,
-    /// Some parent elements have non-obvious closing conditions, so we want an easy way to close these
-    close_parent_after_push: bool,
     /// Used to see if we need to add a newline before new text; we don't add newlines to the text
     /// literals unless they're continuous (i.e., we never count newline paras as paras)
     dangling_newline: Option<Token>,
@@ -110,14 +102,11 @@ impl Parser {
             file_stack: vec![],
             block_title: None,
             metadata: None,
-            open_delimited_block_lines: vec![],
+            open_delimited_blocks: vec![],
             level_offset: 0,
             in_block_line: false,
-            in_block_continuation: false,
-            preserve_newline_text: false,
             open_parse_after_as_text_type: None,
             force_new_block: false,
-            close_parent_after_push: false,
             dangling_newline: None,
             resolve_targets: true,
         }
@@ -151,11 +140,9 @@ impl Parser {
         }
 
         // add any dangling inlines
-        self.add_inlines_to_block_stack()?;
+        self.add_inlines_to_block_stack(&mut asg)?;
         // add any dangling blocks (most often sections)
-        while !self.block_stack.is_empty() {
-            self.add_last_block_to_graph(&mut asg)?;
-        }
+        self.close_blocks_after(0, &mut asg)?;
         // cleanup the final tree locations and xrefs
         asg.consolidate();
         Ok(asg)
@@ -222,6 +209,8 @@ impl Parser {
 
             // block titles, metadata, etc.
             TokenType::BlockLabel => {
+                // whatever we were in the middle of isn't part of the title
+                self.add_inlines_to_block_stack(asg)?;
                 // open the block title
                 self.block_title = Some(Vec::new());
                 self.in_block_line = true;
@@ -229,8 +218,8 @@ impl Parser {
                 self.dangling_newline = None;
                 Ok(())
             }
-            TokenType::BlockAnchor => self.parse_block_anchor_attributes(token),
-            TokenType::ElementAttributes => self.parse_block_element_attributes(token),
+            TokenType::BlockAnchor => self.parse_block_anchor_attributes(token, asg),
+            TokenType::ElementAttributes => self.parse_block_element_attributes(token, asg),
 
             // inline metadata
             TokenType::InlineStyle => self.parse_inline_element_attributes(token),
@@ -286,7 +275,7 @@ impl Parser {
             TokenType::SidebarBlock
             | TokenType::OpenBlock
             | TokenType::ExampleBlock
-            | TokenType::Table => self.parse_delimited_parent_block(token),
+            | TokenType::Table => self.parse_delimited_parent_block(token, asg),
 
             // table cells -- note that we just create the cells; up to the backend/template to handle the
             // column-making (for now, so we can just reuse ParentBlock)
@@ -296,44 +285,44 @@ impl Parser {
                 // check if it's verse
                 if let Some(metadata) = &self.metadata {
                     if metadata.declared_type == Some(AttributeType::Verse) {
-                        self.parse_delimited_leaf_block(token)?;
+                        self.parse_delimited_leaf_block(token, asg)?;
                         return Ok(());
                     }
                 } else if self.open_parse_after_as_text_type.is_some() {
-                    self.parse_delimited_leaf_block(token)?;
+                    self.parse_delimited_leaf_block(token, asg)?;
                     return Ok(());
                 }
 
-                self.parse_delimited_parent_block(token)?;
+                self.parse_delimited_parent_block(token, asg)?;
                 Ok(())
             }
 
             // the following should probably be consumed into the above
             TokenType::PassthroughBlock | TokenType::LiteralBlock => {
-                self.parse_delimited_leaf_block(token)
+                self.parse_delimited_leaf_block(token, asg)
             }
-            TokenType::SourceBlock => self.parse_delimited_leaf_block(token),
+            TokenType::SourceBlock => self.parse_delimited_leaf_block(token, asg),
             TokenType::CodeCallout => self.parse_code_callout(token),
 
             // block macros
             TokenType::BlockImageMacro => self.parse_block_image(token, asg),
 
             // lists
-            TokenType::UnorderedListItem => self.parse_unordered_list_item(token),
+            TokenType::UnorderedListItem => self.parse_unordered_list_item(token, asg),
             TokenType::CodeCalloutListItem | // for now, match here (until we need to do more)
             TokenType::OrderedListItem => self.parse_ordered_list_item(token, asg),
-            TokenType::DescriptionListMarker => self.parse_description_list_term(token),
+            TokenType::DescriptionListMarker => self.parse_description_list_term(token, asg),
 
             // inline admonitions
             TokenType::NotePara
             | TokenType::TipPara
             | TokenType::ImportantPara
             | TokenType::CautionPara
-            | TokenType::WarningPara => self.parse_admonition_para_syntax(token),
+            | TokenType::WarningPara => self.parse_admonition_para_syntax(token, asg),
 
             // block continuation... I think does nothing, parser-wise, since it simply prevents
             // the double newline
-            TokenType::BlockContinuation => self.parse_block_continuation(token),
+            TokenType::BlockContinuation => self.parse_block_continuation(asg),
 
             // comments
             TokenType::Comment => self.parse_comment(),
@@ -349,7 +338,7 @@ impl Parser {
                     }
                     Ok(())
                 } else {
-                    self.parse_delimited_leaf_block(token)
+                    self.parse_delimited_leaf_block(token, asg)
                 }
             }
 
@@ -406,14 +395,24 @@ impl Parser {
         }
     }
 
-    fn parse_block_anchor_attributes(&mut self, token: Token) -> Result<(), ParserError> {
+    fn parse_block_anchor_attributes(
+        &mut self,
+        token: Token,
+        asg: &mut Asg,
+    ) -> Result<(), ParserError> {
+        self.add_inlines_to_block_stack(asg)?;
         self.add_metadata_from_token(token);
         self.force_new_block = true;
         Ok(())
     }
 
     /// parses element attribute lists into self.block_metadata, which then is applied later
-    fn parse_block_element_attributes(&mut self, token: Token) -> Result<(), ParserError> {
+    fn parse_block_element_attributes(
+        &mut self,
+        token: Token,
+        asg: &mut Asg,
+    ) -> Result<(), ParserError> {
+        self.add_inlines_to_block_stack(asg)?;
         self.add_metadata_from_token(token);
         self.force_new_block = true;
         Ok(())
@@ -426,7 +425,7 @@ impl Parser {
 
     /// Handle document header
     fn check_and_move_header(&mut self, asg: &mut Asg) -> Result<(), ParserError> {
-        self.add_inlines_to_block_stack()?;
+        self.add_inlines_to_block_stack(asg)?;
         if let Some(header) = &mut self.document_header {
             if !header.is_empty() {
                 header.consolidate();
@@ -442,13 +441,18 @@ impl Parser {
     /// such the parse function is a little complicated.
     fn parse_new_line_char(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         // newline exits a title, TK line continuation
-        self.in_block_line = false;
-
-        // if there is a block title, add the inline stack to the title
-        if let Some(ref mut title_stack) = self.block_title {
-            while !self.inline_stack.is_empty() {
-                let inline = self.inline_stack.pop_front().unwrap();
-                title_stack.push(inline);
+        if self.in_block_line {
+            self.in_block_line = false;
+            if self.block_title.is_some() {
+                // if there is a block title, add the inline stack to the title
+                self.handle_dangling_spans();
+                self.block_title = Some(self.inline_stack.drain(..).collect());
+                return Ok(());
+            } else if self.document_header.is_none() {
+                // what follows a heading isn't part of it
+                self.add_inlines_to_block_stack(asg)?;
+                self.force_new_block = true;
+                return Ok(());
             }
         }
 
@@ -458,30 +462,14 @@ impl Parser {
             if self.document_header.is_some() {
                 self.check_and_move_header(asg)?;
             } else {
-                // consolidate any dangling list items
-                if let Some(Block::ListItem(_)) = self.block_stack.last() {
-                    self.add_last_list_item_to_list()?;
-                } else if let Some(Block::DListItem(_)) = self.block_stack.last() {
-                    self.add_last_list_item_to_list()?;
-                }
                 // clear out any inlines
-                self.add_inlines_to_block_stack()?;
+                self.add_inlines_to_block_stack(asg)?;
+                // a blank line ends whatever isn't delimited
+                self.close_blocks_in_context(asg)?;
                 // and then force a new block hereafter
                 self.force_new_block = true;
-                if let Some(last_block) = self.block_stack.pop() {
-                    // check for dangling list items
-                    if !last_block.is_section() && self.open_delimited_block_lines.is_empty() {
-                        self.add_to_block_stack_or_graph(asg, last_block)?;
-                        if self.close_parent_after_push && !self.block_stack.is_empty() {
-                            self.add_last_to_block_stack_or_graph(asg)?;
-                            self.close_parent_after_push = false;
-                        }
-                    } else {
-                        self.push_block_to_stack(last_block)?
-                    }
-                } // if Some(last_block)
             }
-        } else if self.in_block_continuation || self.last_token_type.clears_newline_after() {
+        } else if self.last_token_type.clears_newline_after() {
             // don't add a newline ahead of text in these cases
             self.dangling_newline = None;
         } else {
@@ -491,22 +479,24 @@ impl Parser {
     }
 
     fn parse_thematic_break(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
-        self.add_to_block_stack_or_graph(
-            asg,
+        self.add_inlines_to_block_stack(asg)?;
+        self.push_block_to_stack(
             Block::Break(Break::new(
                 crate::graph::blocks::BreakVariant::Thematic,
                 token.locations(),
             )),
+            asg,
         )
     }
 
     fn parse_page_break(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
-        self.add_to_block_stack_or_graph(
-            asg,
+        self.add_inlines_to_block_stack(asg)?;
+        self.push_block_to_stack(
             Block::Break(Break::new(
                 crate::graph::blocks::BreakVariant::Page,
                 token.locations(),
             )),
+            asg,
         )
     }
 
@@ -621,12 +611,10 @@ impl Parser {
         }
 
         // clean up inlines
-        self.add_inlines_to_block_stack()?;
+        self.add_inlines_to_block_stack(asg)?;
 
         // get the blocks stack back to where it was
-        while self.block_stack.len() > current_block_stack_len {
-            self.add_last_block_to_graph(asg)?
-        }
+        self.close_blocks_after(current_block_stack_len, asg)?;
         // ...then pop the file off the stack
         self.file_stack.pop();
         Ok(())
@@ -634,96 +622,92 @@ impl Parser {
 
     /// Gathers preceding inlines into the "terms" attribute on DListItem, then adds what follows
     /// as you would for a normal list
-    fn parse_description_list_term(&mut self, token: Token) -> Result<(), ParserError> {
+    fn parse_description_list_term(
+        &mut self,
+        token: Token,
+        asg: &mut Asg,
+    ) -> Result<(), ParserError> {
         // create the list item
         let mut dlist_item = DListItem::new_from_token(token);
-        // ensure we're not forcing a new block, given that all sorts of things can follow
-        self.force_new_block = false;
 
         // check for splits
         if let Some(newline_idx) = self
             .inline_stack
             .iter()
-            .position(|inline| inline.is_newline())
+            .rposition(|inline| inline.is_newline())
         {
             // remove the inlines that ought to constitute the next term
             let mut next_terms: VecDeque<Inline> = self.inline_stack.drain(newline_idx..).collect();
             // remove the newline, since we don't care about that anymore
             next_terms.pop_front();
             // add the other inlines
-            self.add_inlines_to_block_stack()?;
+            self.add_inlines_to_block_stack(asg)?;
             // then add the next terms back
             self.inline_stack.append(&mut next_terms);
         }
         // collect the inlines
+        self.handle_dangling_spans();
         while !self.inline_stack.is_empty() {
             let inline = self.inline_stack.pop_front().unwrap();
             dlist_item.push_term(inline);
         }
-        if self.block_stack.last().is_some()
-            && self.block_stack.last().unwrap().is_definition_list_item()
+        if let Some(list_idx) =
+            self.position_in_context(|block| matches!(block, Block::DList(_)))
         {
-            self.add_last_list_item_to_list()?
+            self.close_blocks_after(list_idx + 1, asg)?;
         } else {
             // we need to create the list first
-            self.push_block_to_stack(Block::DList(DList::new(dlist_item.locations().clone())))?;
+            self.push_block_to_stack(
+                Block::DList(DList::new(dlist_item.locations().clone())),
+                asg,
+            )?;
         }
+        // ensure we're not forcing a new block, given that all sorts of things can follow
+        self.force_new_block = false;
         // either way, add the new list item
-        self.push_block_to_stack(Block::DListItem(dlist_item))?;
-        // preserve newlines for now
-        self.preserve_newline_text = true;
-        Ok(())
+        self.push_block_to_stack(Block::DListItem(dlist_item), asg)
     }
 
     fn parse_ordered_list_item(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
-        // clear any dangling newlines
-        self.dangling_newline = None;
-        let list_item = ListItem::new(token.lexeme.clone(), token.locations());
-        // if there is an appropriate list, we push this onto the open_blocks so inlines can be
-        // added
-        if self.block_stack.last().is_some()
-            && self.block_stack.last().unwrap().is_ordered_list_item()
-        {
-            self.add_last_list_item_to_list()?
-        } else {
-            // we need to create the list first
-            let mut list = List::new(ListVariant::Ordered, token.locations().clone());
-            if token.token_type() == TokenType::CodeCalloutListItem {
-                // check to see if we ought to "close" the source block (almost always)
-                // TODO source blocks should close themselves, I think.
-                if let Some(block) = self.block_stack.last() {
-                    if block.is_source_block() {
-                        // we need to add this before we create the new list
-                        self.add_last_to_block_stack_or_graph(asg)?;
-                    }
-                }
-                list.metadata = Some(ElementMetadata::new_with_role("colist".to_string()));
-            }
-            self.push_block_to_stack(Block::List(list))?;
+        let mut list = List::new(ListVariant::Ordered, token.locations().clone());
+        if token.token_type() == TokenType::CodeCalloutListItem {
+            list.metadata = Some(ElementMetadata::new_with_role("colist".to_string()));
         }
-        // either way, add the new list item
-        self.push_block_to_stack(Block::ListItem(list_item))
+        self.parse_list_item(token, list, asg)
+    }
+
+    fn parse_unordered_list_item(
+        &mut self,
+        token: Token,
+        asg: &mut Asg,
+    ) -> Result<(), ParserError> {
+        let list = List::new(ListVariant::Unordered, token.locations().clone());
+        self.parse_list_item(token, list, asg)
     }
-    //
-    fn parse_unordered_list_item(&mut self, token: Token) -> Result<(), ParserError> {
+
+    /// Adds an item to the list of its kind that we're in the midst of, or to the new list provided
+    fn parse_list_item(
+        &mut self,
+        token: Token,
+        new_list: List,
+        asg: &mut Asg,
+    ) -> Result<(), ParserError> {
+        // add the inlines to whatever came before
+        self.add_inlines_to_block_stack(asg)?;
         // clear any dangling newlines
         self.dangling_newline = None;
         let list_item = ListItem::new(token.lexeme.clone(), token.locations());
-        // if there is an appropriate list, we push this onto the open_blocks so inlines can be
-        // added
-        if self.block_stack.last().is_some()
-            && self.block_stack.last().unwrap().is_unordered_list_item()
-        {
-            self.add_last_list_item_to_list()?
+        if let Some(list_idx) = self.position_in_context(
+            |block| matches!(block, Block::List(list) if list.variant == new_list.variant),
+        ) {
+            self.close_blocks_after(list_idx + 1, asg)?;
         } else {
             // we need to create the list first
-            self.push_block_to_stack(Block::List(List::new(
-                ListVariant::Unordered,
-                token.locations().clone(),
-            )))?;
+            self.push_block_to_stack(Block::List(new_list), asg)?;
         }
+        self.force_new_block = false;
         // either way, add the new list item
-        self.push_block_to_stack(Block::ListItem(list_item))
+        self.push_block_to_stack(Block::ListItem(list_item), asg)
     }
 
     //fn parse_block_label(&mut self, token: Token, asg: &mut Asg) {}
@@ -749,22 +733,18 @@ impl Parser {
     fn parse_section_headings(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         let level = self.get_heading_level(&token)?;
 
-        // if the last section is at the same level, we need to push that up, otherwise the
-        // accordion effect gets screwy with section levels
-        if let Some(Block::Section(_)) = self.block_stack.last() {
-            self.add_last_to_block_stack_or_graph(asg)?
-        }
-        //if let Some(Block::Section(last_section)) = self.block_stack.last() {
-        //    if last_section.level >= level {
-        //        self.add_last_to_block_stack_or_graph(asg)
-        //    }
-        //}
+        // a heading ends whatever isn't delimited
+        self.add_inlines_to_block_stack(asg)?;
+        self.close_blocks_in_context(asg)?;
         // add the new section to the stack
-        self.push_block_to_stack(Block::Section(Section::new(
-            "".to_string(),
-            level,
-            token.first_location(),
-        )))?;
+        self.push_block_to_stack(
+            Block::Section(Section::new(
+                "".to_string(),
+                level,
+                token.first_location(),
+            )),
+            asg,
+        )?;
         // let us know we're in a block line
         self.in_block_line = true;
         // clear any dangling newlines, since we don't want these added to the title
@@ -807,16 +787,24 @@ impl Parser {
         }
     }
 
-    fn parse_admonition_para_syntax(&mut self, token: Token) -> Result<(), ParserError> {
-        self.block_stack
-            .push(Block::ParentBlock(ParentBlock::new_from_token(token)?));
-        self.close_parent_after_push = true;
-        Ok(())
+    fn parse_admonition_para_syntax(
+        &mut self,
+        token: Token,
+        asg: &mut Asg,
+    ) -> Result<(), ParserError> {
+        self.add_inlines_to_block_stack(asg)?;
+        self.push_block_to_stack(Block::ParentBlock(ParentBlock::new_from_token(token)?), asg)
     }
 
-    fn parse_block_continuation(&mut self, _token: Token) -> Result<(), ParserError> {
-        self.add_inlines_to_block_stack()?;
-        self.in_block_continuation = true;
+    /// What follows a continuation belongs to the last list item
+    fn parse_block_continuation(&mut self, asg: &mut Asg) -> Result<(), ParserError> {
+        self.add_inlines_to_block_stack(asg)?;
+        let Some(item_idx) = self.position_in_context(|block| {
+            matches!(block, Block::ListItem(_) | Block::DListItem(_))
+        }) else {
+            return Err(ParserError::BlockContinuation);
+        };
+        self.close_blocks_after(item_idx + 1, asg)?;
         self.force_new_block = true;
         Ok(())
     }
@@ -871,7 +859,8 @@ impl Parser {
             image_block.caption = caption.clone();
             self.block_title = None
         }
-        self.add_to_block_stack_or_graph(asg, Block::BlockMacro(image_block))
+        self.add_inlines_to_block_stack(asg)?;
+        self.push_block_to_stack(Block::BlockMacro(image_block), asg)
     }
 
     fn parse_inline_image_macro(&mut self, token: Token) -> Result<(), ParserError> {
@@ -1012,14 +1001,19 @@ impl Parser {
         Ok(())
     }
 
-    fn parse_delimited_leaf_block(&mut self, token: Token) -> Result<(), ParserError> {
+    fn parse_delimited_leaf_block(
+        &mut self,
+        token: Token,
+        asg: &mut Asg,
+    ) -> Result<(), ParserError> {
+        // ensure inlines are added appropriately
+        self.add_inlines_to_block_stack(asg)?;
         if self.open_parse_after_as_text_type.is_some() {
-            // ensure inlines are added appropriately
-            self.add_inlines_to_block_stack()?;
-            match self.block_stack.pop() {
-                Some(mut open_leaf) => {
+            match self.block_stack.last_mut() {
+                Some(open_leaf) => {
                     open_leaf.add_locations(token.locations().clone());
-                    self.push_block_to_stack(open_leaf)?;
+                    self.close_last_block(asg)?;
+                    self.force_new_block = true;
                     self.open_parse_after_as_text_type = None;
                     Ok(())
                 }
@@ -1028,69 +1022,52 @@ impl Parser {
         } else {
             self.open_parse_after_as_text_type = Some(token.token_type());
             let block = LeafBlock::new_from_token(token)?;
-            self.push_block_to_stack(Block::LeafBlock(block))?;
+            self.push_block_to_stack(Block::LeafBlock(block), asg)?;
             // note that we're to just add
             self.force_new_block = false;
             Ok(())
         }
     }
 
-    fn parse_delimited_parent_block(&mut self, token: Token) -> Result<(), ParserError> {
-        let delimiter_line = token.first_location().line;
+    fn parse_delimited_parent_block(
+        &mut self,
+        token: Token,
+        asg: &mut Asg,
+    ) -> Result<(), ParserError> {
         let mut block = ParentBlock::new_from_token(token)?;
+        // close any dangling inlines BEFORE opening or closing the block
+        self.add_inlines_to_block_stack(asg)?;
         // clear the dangling newline
         self.dangling_newline = None;
+        // either way, what follows isn't part of what came before
+        self.force_new_block = true;
 
-        if self.block_title.is_some() {
-            block.title = self.block_title.as_ref().unwrap().clone();
-            self.block_title = None;
-        }
-
-        // check for any prior parents in reverse
-        if let Some(parent_block_idx) = self
-            .block_stack
-            .iter()
-            .rposition(|parent_block| matches!(parent_block, Block::ParentBlock(_)))
-        {
-            let matched_block = self.block_stack.remove(parent_block_idx);
-            let Block::ParentBlock(mut matched) = matched_block else {
-                return Err(ParserError::ParentBlock(delimiter_line));
-            };
-            if matched == block {
-                // close any dangling inlines BEFORE opening the delimited block lines
-                self.add_inlines_to_block_stack()?;
-                // remove the open delimiter line from the count and confirm we're nested properly
-                let Some(line) = self.open_delimited_block_lines.pop() else {
-                    return Err(ParserError::DelimitedBlock);
-                };
-                if line != matched.opening_line()? {
-                    warn!("Error nesting delimited blocks, see line {}", line)
+        // check if this closes the block that we're in
+        if let Some(&open_idx) = self.open_delimited_blocks.last() {
+            if matches!(&self.block_stack[open_idx], Block::ParentBlock(open) if *open == block) {
+                // collect subsequent blocks into the parent block
+                self.close_blocks_after(open_idx + 1, asg)?;
+                if let Some(Block::ParentBlock(open)) = self.block_stack.last_mut() {
+                    // update the final location
+                    open.location = Location::reconcile(open.location.clone(), block.location);
                 }
-                // update the final location
-                matched.location = Location::reconcile(matched.location.clone(), block.location);
-                // collect subsequent blocks to be added to the parent block
-                let mut blocks_to_add =
-                    VecDeque::from_iter(self.block_stack.drain(parent_block_idx..));
-                //
-                let mut delimited_block = Block::ParentBlock(matched);
-                while !blocks_to_add.is_empty() {
-                    delimited_block.push_block(blocks_to_add.pop_front().unwrap())?
-                }
-                if delimited_block.is_table() {
-                    delimited_block.consolidate_table_info()?;
+                if let Some(open) = self.block_stack.last_mut() {
+                    if open.is_table() {
+                        open.consolidate_table_info()?;
+                    }
                 }
-                self.push_block_to_stack(delimited_block)?;
-                // close any continuations
-                self.in_block_continuation = false;
-                return Ok(());
-            } else {
-                self.block_stack
-                    .insert(parent_block_idx, Block::ParentBlock(matched));
+                return self.close_last_block(asg);
             }
         }
-        // note the open block line
-        self.open_delimited_block_lines.push(delimiter_line);
-        self.push_block_to_stack(Block::ParentBlock(block))
+
+        if self.block_title.is_some() {
+            block.title = self.block_title.as_ref().unwrap().clone();
+            self.block_title = None;
+        }
+        self.push_block_to_stack(Block::ParentBlock(block), asg)?;
+        // note that the block is open
+        self.open_delimited_blocks.push(self.block_stack.len() - 1);
+        Ok(())
     }
 
     fn parse_table_cell(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
@@ -1099,7 +1076,8 @@ impl Parser {
         let cell_line = token.first_location().line;
         let cell_col = token.first_location().col;
 
-        self.push_block_to_stack(Block::TableCell(TableCell::new_from_token(token)))?;
+        self.add_inlines_to_block_stack(asg)?;
+        self.push_block_to_stack(Block::TableCell(TableCell::new_from_token(token)), asg)?;
 
         // create new inlines from the stack, clearing any dangling newlines
         self.dangling_newline = None;
@@ -1118,25 +1096,81 @@ impl Parser {
         self.in_block_line = false;
         self.force_new_block = false;
         // then add them to the stack, i.e., to the recently added TableCell
-        self.add_inlines_to_block_stack()?;
+        self.add_inlines_to_block_stack(asg)?;
         Ok(())
     }
 
-    fn push_block_to_stack(&mut self, mut block: Block) -> Result<(), ParserError> {
-        // we only want to push on continue if we're not in an open delimited block (which will
-        // close itself, emptying the open_delimited_block_lines)
-        if self.in_block_continuation && self.open_delimited_block_lines.is_empty() {
-            let Some(last_block) = self.block_stack.last_mut() else {
-                return Err(ParserError::BlockContinuation);
-            };
-            last_block.push_block(block)?;
-            self.in_block_continuation = false;
-        } else {
-            if self.metadata.is_some() {
-                block.add_metadata(self.metadata.as_ref().unwrap().clone())?;
-                self.metadata = None;
+    /// Adds a block to the stack, having closed whatever can't contain it
+    fn push_block_to_stack(&mut self, mut block: Block, asg: &mut Asg) -> Result<(), ParserError> {
+        while let Some(last_idx) = self.block_stack.len().checked_sub(1) {
+            if self.block_accepts(last_idx, &block) {
+                break;
             }
-            self.block_stack.push(block)
+            self.close_last_block(asg)?;
+        }
+        if let Some(metadata) = self.metadata.take() {
+            block.add_metadata(metadata)?;
+        }
+        self.block_stack.push(block);
+        Ok(())
+    }
+
+    /// Whether the block at that place in the stack can (still) contain the one provided
+    fn block_accepts(&self, idx: usize, block: &Block) -> bool {
+        match &self.block_stack[idx] {
+            Block::ParentBlock(parent) => {
+                self.open_delimited_blocks.contains(&idx)
+                    || parent.name == ParentBlockName::Admonition && parent.blocks.is_empty()
+            }
+            other => other.takes_block_of_type(block),
+        }
+    }
+
+    /// Position in the stack of the last matching block inside of the delimited block we're in, or
+    /// inside of the document if we're not
+    fn position_in_context<P>(&self, predicate: P) -> Option<usize>
+    where
+        P: Fn(&Block) -> bool,
+    {
+        let start = self.open_delimited_blocks.last().map_or(0, |idx| idx + 1);
+        self.block_stack[start..]
+            .iter()
+            .rposition(predicate)
+            .map(|idx| start + idx)
+    }
+
+    /// Adds the last block to the one that contains it, or to the graph
+    fn close_last_block(&mut self, asg: &mut Asg) -> Result<(), ParserError> {
+        let Some(mut block) = self.block_stack.pop() else {
+            return Err(ParserError::BlockStack);
+        };
+        block.consolidate_locations();
+        if self.open_delimited_blocks.last() == Some(&self.block_stack.len()) {
+            self.open_delimited_blocks.pop();
+        }
+        match self.block_stack.last_mut() {
+            Some(parent) => parent.push_block(block)?,
+            None => asg.push_block(block)?,
+        }
+        Ok(())
+    }
+
+    /// Closes blocks until the stack has the provided length
+    fn close_blocks_after(&mut self, len: usize, asg: &mut Asg) -> Result<(), ParserError> {
+        while self.block_stack.len() > len {
+            self.close_last_block(asg)?;
+        }
+        Ok(())
+    }
+
+    /// Closes everything save for sections and the delimited blocks that are still open
+    fn close_blocks_in_context(&mut self, asg: &mut Asg) -> Result<(), ParserError> {
+        let start = self.open_delimited_blocks.last().map_or(0, |idx| idx + 1);
+        while self.block_stack.len() > start {
+            if self.block_stack.last().is_some_and(|block| block.is_section()) {
+                break;
+            }
+            self.close_last_block(asg)?;
         }
         Ok(())
     }
@@ -1149,11 +1183,27 @@ impl Parser {
         }
     }
 
+    /// Inside of a description list any line may turn out to be the next term, so we keep newlines
+    /// as separate literals to be able to split the inline_stack on them
+    fn in_description_list(&self) -> bool {
+        self.open_parse_after_as_text_type.is_none()
+            && self
+                .position_in_context(|block| block.is_definition_list_item())
+                .is_some()
+    }
+
     /// Adds any newline we've been holding on to ahead of whatever inline follows it
     fn add_dangling_newline(&mut self) {
         if let Some(newline_token) = self.dangling_newline.take() {
+            // there's nothing to put on a new line
+            if self.inline_stack.is_empty()
+                && self.open_parse_after_as_text_type.is_none()
+                && (self.force_new_block || !self.block_stack.last().is_some_and(|b| b.takes_inlines()))
+            {
+                return;
+            }
             let in_open_inline = self.inline_stack.back().is_some_and(|last| last.is_open());
-            if self.preserve_newline_text && !in_open_inline {
+            if self.in_description_list() && !in_open_inline {
                 self.inline_stack.push_back(Inline::InlineLiteral(
                     InlineLiteral::new_text_from_token(&newline_token),
                 ));
@@ -1165,6 +1215,7 @@ impl Parser {
 
     fn add_text_to_last_inline(&mut self, token: Token) {
         let inline_literal = Inline::InlineLiteral(InlineLiteral::new_text_from_token(&token));
+        let preserve_newline_text = self.in_description_list();
         if let Some(last_inline) = self.inline_stack.back_mut() {
             match last_inline {
                 Inline::InlineSpan(span) => {
@@ -1176,7 +1227,7 @@ impl Parser {
                 }
                 Inline::InlineLiteral(prior_literal) => {
                     if matches!(prior_literal.name, InlineLiteralName::Charref)
-                        || (self.preserve_newline_text && prior_literal.is_newline())
+                        || (preserve_newline_text && prior_literal.is_newline())
                     {
                         self.inline_stack.push_back(inline_literal)
                     } else {
@@ -1202,6 +1253,7 @@ impl Parser {
 
     fn pass_text_to_last_inline(&mut self, token: Token) {
         let inline_literal = Inline::InlineLiteral(InlineLiteral::new_text_from_token_pass(&token));
+        let preserve_newline_text = self.in_description_list();
         if let Some(last_inline) = self.inline_stack.back_mut() {
             match last_inline {
                 Inline::InlineSpan(span) => {
@@ -1213,7 +1265,7 @@ impl Parser {
                 }
                 Inline::InlineLiteral(prior_literal) => {
                     if matches!(prior_literal.name, InlineLiteralName::Charref)
-                        || (self.preserve_newline_text && prior_literal.is_newline())
+                        || (preserve_newline_text && prior_literal.is_newline())
                     {
                         self.inline_stack.push_back(inline_literal)
                     } else {
@@ -1243,7 +1295,7 @@ impl Parser {
         self.inline_stack = Inline::flatten_open(inlines).into();
     }
 
-    fn add_inlines_to_block_stack(&mut self) -> Result<(), ParserError> {
+    fn add_inlines_to_block_stack(&mut self, asg: &mut Asg) -> Result<(), ParserError> {
         // guard
         if self.inline_stack.is_empty() {
             return Ok(());
@@ -1260,7 +1312,7 @@ impl Parser {
         }
 
         if let Some(last_block) = self.block_stack.last_mut() {
-            if last_block.takes_inlines() && !self.in_block_line && !self.force_new_block {
+            if last_block.takes_inlines() && !self.force_new_block {
                 while !self.inline_stack.is_empty() {
                     let inline = self.inline_stack.pop_front().unwrap();
                     last_block.push_inline(inline)?;
@@ -1286,34 +1338,21 @@ impl Parser {
                 para_block.push_inline(inline)?
             }
         }
-        if self.in_block_continuation && self.open_delimited_block_lines.is_empty() {
-            let Some(last_block) = self.block_stack.last_mut() else {
-                return Err(ParserError::BlockContinuation);
-            };
-            last_block.push_block(para_block)?;
-            return Ok(());
-        }
-
         if let Some(ref block_metadata) = self.metadata {
-            // check to see if we need to apply metadata to the para block
-            let line_above = para_block.locations().first().unwrap().line + 1;
-            if self.open_delimited_block_lines.last() == Some(&line_above)
-                || self.open_delimited_block_lines.is_empty()
-                    && block_metadata.declared_type == Some(AttributeType::Quote)
-            {
+            // check to see if the para block is a quote
+            if block_metadata.declared_type == Some(AttributeType::Quote) {
                 let mut quote_block = Block::ParentBlock(ParentBlock::new(
-                    crate::graph::blocks::ParentBlockName::Quote,
+                    ParentBlockName::Quote,
                     None,
                     "".to_string(),
                     vec![],
                     vec![],
                 ));
                 quote_block.push_block(para_block)?;
-                self.push_block_to_stack(quote_block)?;
-                return Ok(());
+                return self.push_block_to_stack(quote_block, asg);
             }
         }
-        self.push_block_to_stack(para_block)
+        self.push_block_to_stack(para_block, asg)
     }
 
     /// Adds data to an existing ElementMetadata object, or creates one
@@ -1326,79 +1365,6 @@ impl Parser {
         }
     }
 
-    fn add_last_list_item_to_list(&mut self) -> Result<(), ParserError> {
-        // clear out any forced new blocks
-        self.force_new_block = false;
-        // add the inlines to the list item
-        self.add_inlines_to_block_stack()?;
-        // then add it to the list
-        let last_item = self.block_stack.pop().unwrap();
-        // if the last thing is a list item, add it to the list
-        if matches!(last_item, Block::ListItem(_) | Block::DListItem(_)) {
-            if let Some(list) = self.block_stack.last_mut() {
-                list.push_block(last_item)?
-            }
-        } else {
-            // otherwise return the list to the open block stack, and create a new unordered
-            // list item
-            self.push_block_to_stack(last_item)?;
-        }
-        Ok(())
-    }
-
-    fn add_to_block_stack_or_graph(
-        &mut self,
-        asg: &mut Asg,
-        mut block: Block,
-    ) -> Result<(), ParserError> {
-        if let Some(last_block) = self.block_stack.last_mut() {
-            if last_block.takes_block_of_type(&block) {
-                last_block.push_block(block)?;
-                return Ok(());
-            }
-        }
-        if self.metadata.is_some() {
-            block.add_metadata(self.metadata.as_ref().unwrap().clone())?;
-            self.metadata = None;
-        }
-        asg.push_block(block)?;
-        Ok(())
-    }
-
-    fn add_last_to_block_stack_or_graph(&mut self, asg: &mut Asg) -> Result<(), ParserError> {
-        if let Some(last_block) = self.block_stack.pop() {
-            if let Some(prior_block) = self.block_stack.last_mut() {
-                if prior_block.takes_block_of_type(&last_block) {
-                    prior_block.push_block(last_block)?;
-                    return Ok(());
-                }
-            }
-            asg.push_block(last_block)?;
-            Ok(())
-        } else {
-            Err(ParserError::BlockStack)
-        }
-    }
-
-    fn add_last_block_to_graph(&mut self, asg: &mut Asg) -> Result<(), ParserError> {
-        if let Some(mut block) = self.block_stack.pop() {
-            if self.metadata.is_some() {
-                block.add_metadata(self.metadata.as_ref().unwrap().clone())?;
-                self.metadata = None;
-            }
-            if let Some(next_last_block) = self.block_stack.last_mut() {
-                if next_last_block.takes_block_of_type(&block) {
-                    next_last_block.push_block(block)?;
-                } else {
-                    asg.push_block(block)?
-                }
-            } else {
-                asg.push_block(block)?
-            }
-        }
-        Ok(())
-    }
-
     fn check_target(&self, token_line: usize, target: &str) -> Result<(), ParserError> {
         if self.resolve_targets {
             match self.resolve_target(token_line, target) {
diff --git a/src/scanner/tokens.rs b/src/scanner/tokens.rs
index 1057bc2..a8bbc4e 100644
--- a/src/scanner/tokens.rs
+++ b/src/scanner/tokens.rs
@@ -329,6 +329,8 @@ impl TokenType {
         matches!(
             self,
             TokenType::ElementAttributes
+                | TokenType::BlockAnchor
+                | TokenType::BlockContinuation
                 | TokenType::SidebarBlock
                 | TokenType::OpenBlock
                 | TokenType::QuoteVerseBlock
-- 
2.43.0


From b73f65808170bd545341ae47e1f0eaebb8abd9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:13 +0000
Subject: [PATCH 020/126] fix: nest a section only in the section before it,
 not in other blocks

---
 src/graph/asg.rs    | 2 +-
 src/graph/blocks.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/graph/asg.rs b/src/graph/asg.rs
index 35e5f7d..e8009aa 100644
--- a/src/graph/asg.rs
+++ b/src/graph/asg.rs
@@ -87,7 +87,7 @@ impl Asg {
         self.document_id_hash.extend(block.id_hashes());
         if block.is_section() {
             if let Some(possible_section) = self.blocks.last_mut() {
-                if possible_section.takes_block_of_type(&block) {
+                if possible_section.is_section() && possible_section.takes_block_of_type(&block) {
                     possible_section.push_block(block)?;
                 } else {
                     self.blocks.push(block);
diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index a433ad8..93717d3 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -72,7 +72,9 @@ impl Block {
             Block::Section(section) => {
                 if block.is_section() {
                     if let Some(possible_section) = section.blocks.last_mut() {
-                        if possible_section.takes_block_of_type(&block) {
+                        if possible_section.is_section()
+                            && possible_section.takes_block_of_type(&block)
+                        {
                             possible_section.push_block(block)?;
                         } else {
                             section.blocks.push(block);
-- 
2.43.0


From a38d8775690229c0e43b142569d94d5d1adbd6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:14 +0000
Subject: [PATCH 021/126] fix: accept metadata on thematic and page breaks

---
 src/graph/blocks.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 93717d3..d1f4b7d 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -561,6 +561,13 @@ impl Block {
                     None
                 }
             }
+            Block::Break(block) => {
+                if let Some(metadata) = &block.metadata {
+                    metadata.attributes.get("id").cloned()
+                } else {
+                    None
+                }
+            }
             Block::BlockMacro(block) => {
                 if let Some(metadata) = &block.metadata {
                     metadata.attributes.get("id").cloned()
@@ -719,6 +726,7 @@ impl Block {
             Block::ListItem(block) => block.metadata = Some(metadata),
             Block::DList(block) => block.metadata = Some(metadata),
             Block::DListItem(block) => block.metadata = Some(metadata),
+            Block::Break(block) => block.metadata = Some(metadata),
             Block::BlockMacro(block) => block.metadata = Some(metadata),
             Block::LeafBlock(block) => block.metadata = Some(metadata),
             Block::ParentBlock(block) => block.metadata = Some(metadata),
@@ -871,6 +879,8 @@ pub struct Break {
     #[serde(rename = "type")]
     node_type: NodeTypes,
     pub variant: BreakVariant,
+    #[serde(skip_serializing_if = "Option::is_none")]
+    metadata: Option<ElementMetadata>,
     location: Vec<Location>,
 }
 
@@ -893,6 +903,7 @@ impl Break {
             name: "break".to_string(),
             node_type: NodeTypes::Block,
             variant,
+            metadata: None,
             location,
         }
     }
-- 
2.43.0


From 44dcd47220b04ceccd0647f10d51d71bb0ecaffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:31 +0000
Subject: [PATCH 022/126] fix: keep block titles with the block they precede

A title ahead of a paragraph, list or verbatim block was dropped, swallowed
the paragraph's text, or was given to some later block.
---
 src/graph/blocks.rs                     | 34 +++++++++++++++++++++++--
 src/graph/lists.rs                      |  6 +++++
 src/parser.rs                           | 13 +++-------
 templates/htmlbook/block.html.tera      |  5 +++-
 templates/htmlbook/leafblocks.html.tera |  3 +++
 5 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index d1f4b7d..bb26e96 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -285,6 +285,9 @@ impl Block {
     pub fn title(&self) -> Option<Vec<Inline>> {
         match self {
             Block::Section(block) => Some(block.inlines.clone()),
+            Block::List(block) => Some(block.title.clone()),
+            Block::DList(block) => Some(block.title.clone()),
+            Block::LeafBlock(block) => Some(block.title.clone()),
             Block::ParentBlock(block) => Some(block.title.clone()),
             Block::BlockMacro(block) => Some(block.caption.clone()),
             _ => None,
@@ -308,11 +311,13 @@ impl Block {
                 }
             }
             Block::List(block) => {
+                inlines.extend(block.title.clone());
                 for child in block.items.iter() {
                     inlines.extend(child.inlines())
                 }
             }
             Block::DList(block) => {
+                inlines.extend(block.title.clone());
                 for child in block.items.iter() {
                     inlines.extend(child.inlines())
                 }
@@ -329,7 +334,10 @@ impl Block {
                     inlines.extend(child.inlines())
                 }
             }
-            Block::LeafBlock(block) => inlines.extend(block.inlines.clone()),
+            Block::LeafBlock(block) => {
+                inlines.extend(block.title.clone());
+                inlines.extend(block.inlines.clone())
+            }
             Block::TableCell(block) => inlines.extend(block.inlines.clone()),
             _ => {} // remaining blocks don't have inlines
         }
@@ -353,11 +361,13 @@ impl Block {
                 }
             }
             Block::List(block) => {
+                inlines.extend(block.title.iter_mut());
                 for child in block.items.iter_mut() {
                     inlines.extend(child.inlines_mut())
                 }
             }
             Block::DList(block) => {
+                inlines.extend(block.title.iter_mut());
                 for child in block.items.iter_mut() {
                     inlines.extend(child.inlines_mut())
                 }
@@ -374,7 +384,10 @@ impl Block {
                     inlines.extend(child.inlines_mut())
                 }
             }
-            Block::LeafBlock(block) => inlines.extend(block.inlines.iter_mut()),
+            Block::LeafBlock(block) => {
+                inlines.extend(block.title.iter_mut());
+                inlines.extend(block.inlines.iter_mut())
+            }
             Block::TableCell(block) => inlines.extend(block.inlines.iter_mut()),
             _ => {} // remaining blocks don't have inlines
         }
@@ -741,6 +754,18 @@ impl Block {
         Ok(())
     }
 
+    /// Adds a title to the blocks that can have one (sections have their own)
+    pub fn add_title(&mut self, title: Vec<Inline>) {
+        match self {
+            Block::List(block) => block.title = title,
+            Block::DList(block) => block.title = title,
+            Block::BlockMacro(block) => block.caption = title,
+            Block::LeafBlock(block) => block.title = title,
+            Block::ParentBlock(block) => block.title = title,
+            _ => warn!("Blocks of type {} do not accept titles.", self),
+        }
+    }
+
     /// Returns all literal text in a block
     pub fn block_text(&self) -> String {
         let mut block_text = String::new();
@@ -982,6 +1007,8 @@ pub struct LeafBlock {
     form: LeafBlockForm,
     #[serde(skip_serializing_if = "Option::is_none")]
     delimiter: Option<String>, // if it's a delimited block, then we provide the delimiter
+    #[serde(skip_serializing_if = "Vec::is_empty")]
+    pub title: Vec<Inline>,
     inlines: Vec<Inline>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub metadata: Option<ElementMetadata>,
@@ -1033,6 +1060,7 @@ impl LeafBlock {
             node_type: NodeTypes::Block,
             form,
             delimiter,
+            title: vec![],
             inlines,
             metadata: None,
             location,
@@ -1045,6 +1073,7 @@ impl LeafBlock {
             node_type: NodeTypes::Block,
             form: LeafBlockForm::Delimited,
             delimiter: Some(token.text()),
+            title: vec![],
             inlines: vec![],
             metadata: None,
             location: token.locations(),
@@ -1086,6 +1115,7 @@ impl LeafBlock {
             node_type: NodeTypes::Block,
             form: LeafBlockForm::Paragraph,
             delimiter: None,
+            title: vec![],
             inlines,
             metadata: Some(ElementMetadata::new_with_id_and_roles(
                 definition_id,
diff --git a/src/graph/lists.rs b/src/graph/lists.rs
index af53948..e05409c 100644
--- a/src/graph/lists.rs
+++ b/src/graph/lists.rs
@@ -16,6 +16,8 @@ pub struct List {
     node_type: NodeTypes,
     marker: String,
     pub variant: ListVariant,
+    #[serde(skip_serializing_if = "Vec::is_empty")]
+    pub title: Vec<Inline>,
     pub items: Vec<Block>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub metadata: Option<ElementMetadata>,
@@ -42,6 +44,7 @@ impl List {
             node_type: NodeTypes::Block,
             marker: list_marker,
             variant,
+            title: vec![],
             items: vec![],
             metadata: None,
             location,
@@ -151,6 +154,8 @@ pub struct DList {
     #[serde(rename = "type")]
     node_type: NodeTypes,
     marker: String,
+    #[serde(skip_serializing_if = "Vec::is_empty")]
+    pub title: Vec<Inline>,
     pub items: Vec<Block>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub metadata: Option<ElementMetadata>,
@@ -170,6 +175,7 @@ impl DList {
             name: "dlist".to_string(),
             node_type: NodeTypes::Block,
             marker: "::".to_string(),
+            title: vec![],
             items: vec![],
             metadata: None,
             location,
diff --git a/src/parser.rs b/src/parser.rs
index dcfbe08..01d538b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -855,10 +855,6 @@ impl Parser {
             image_block = image_block.add_metadata(metadata);
             self.metadata = None;
         }
-        if let Some(caption) = &self.block_title {
-            image_block.caption = caption.clone();
-            self.block_title = None
-        }
         self.add_inlines_to_block_stack(asg)?;
         self.push_block_to_stack(Block::BlockMacro(image_block), asg)
     }
@@ -1034,7 +1030,7 @@ impl Parser {
         token: Token,
         asg: &mut Asg,
     ) -> Result<(), ParserError> {
-        let mut block = ParentBlock::new_from_token(token)?;
+        let block = ParentBlock::new_from_token(token)?;
         // close any dangling inlines BEFORE opening or closing the block
         self.add_inlines_to_block_stack(asg)?;
         // clear the dangling newline
@@ -1060,10 +1056,6 @@ impl Parser {
             }
         }
 
-        if self.block_title.is_some() {
-            block.title = self.block_title.as_ref().unwrap().clone();
-            self.block_title = None;
-        }
         self.push_block_to_stack(Block::ParentBlock(block), asg)?;
         // note that the block is open
         self.open_delimited_blocks.push(self.block_stack.len() - 1);
@@ -1111,6 +1103,9 @@ impl Parser {
         if let Some(metadata) = self.metadata.take() {
             block.add_metadata(metadata)?;
         }
+        if let Some(title) = self.block_title.take() {
+            block.add_title(title);
+        }
         self.block_stack.push(block);
         Ok(())
     }
diff --git a/templates/htmlbook/block.html.tera b/templates/htmlbook/block.html.tera
index d70f7f7..e34e912 100644
--- a/templates/htmlbook/block.html.tera
+++ b/templates/htmlbook/block.html.tera
@@ -72,12 +72,15 @@ this should work.
     {% else %}
     {%- set tag = "UNHANDLED" -%}
     {%- endif %}
+        {%- if block.title and block.name in ["list", "dlist"] -%}
+        <h5>{%- for inline in block.title -%}{{- inline_macros::process_inline(inline=inline) -}}{%- endfor -%}</h5>
+        {% endif -%}
         {%- if tag and not skip_tag -%}<{{tag}}
     {%- if block.metadata.roles and not block.name=="section" %} class="{{ block.metadata.roles | join(sep=" ")}}" {%- endif -%}
     {%- if code_language %} data-code-language="{{ code_language }}" {%- endif -%}
     {%- if id %} id="{{ id }}" {%- endif -%}
     {%- if data_type %} data-type="{{ data_type }}"{%- endif -%}>{%- endif -%}
-        {%- if block.title -%}
+        {%- if block.title and block.name not in ["list", "dlist"] -%}
             {%- if block.name in ["example", "sidebar"]-%}
                 {%- set title_heading_level = 5 -%}
             {%- else -%}
diff --git a/templates/htmlbook/leafblocks.html.tera b/templates/htmlbook/leafblocks.html.tera
index 484293f..1ace98b 100644
--- a/templates/htmlbook/leafblocks.html.tera
+++ b/templates/htmlbook/leafblocks.html.tera
@@ -23,6 +23,9 @@
         {%- set tag = "pre" -%}
     {% elif block.name == "pass" -%}
     {%- endif -%}
+{%- if block.title -%}
+<h5>{%- for inline in block.title -%}{{- inline_macros::process_inline(inline=inline) -}}{%- endfor -%}</h5>
+{% endif -%}
 {%- if tag -%}<{{tag}}
 {%- if block.metadata.roles %} class="{{ block.metadata.roles | join(sep=" ")}}" {%- endif -%}
 {%- if code_language %} data-code-language="{{ code_language }}" {%- endif -%}
-- 
2.43.0


From 5518c2cd53c49df179cb026a6638e1eb127bd8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:23 +0000
Subject: [PATCH 023/126] fix: keep inline styles apart from the attributes of
 the block they are in

---
 src/parser.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 01d538b..e29682c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -50,6 +50,8 @@ pub struct Parser {
     block_title: Option<Vec<Inline>>,
     /// holding ground for block metadata, to be applied to the subsequent block
     metadata: Option<ElementMetadata>,
+    /// holding ground for inline metadata, to be applied to the span that directly follows
+    inline_metadata: Option<ElementMetadata>,
     /// where in the block stack the delimited blocks that we have yet to close are
     open_delimited_blocks: Vec<usize>,
     /// appends text to block or inline regardless of markup, token, etc. (will need to change
@@ -102,6 +104,7 @@ impl Parser {
             file_stack: vec![],
             block_title: None,
             metadata: None,
+            inline_metadata: None,
             open_delimited_blocks: vec![],
             level_offset: 0,
             in_block_line: false,
@@ -418,8 +421,7 @@ impl Parser {
         Ok(())
     }
     fn parse_inline_element_attributes(&mut self, token: Token) -> Result<(), ParserError> {
-        self.metadata = Some(ElementMetadata::new_inline_meta_from_token(token));
-        self.force_new_block = true;
+        self.inline_metadata = Some(ElementMetadata::new_inline_meta_from_token(token));
         Ok(())
     }
 
@@ -824,8 +826,8 @@ impl Parser {
             }
         }
         // add any metadata to new inline
-        if self.metadata.is_some() {
-            span.metadata = self.metadata.take();
+        if self.inline_metadata.is_some() {
+            span.metadata = self.inline_metadata.take();
         }
         self.push_inline(Inline::InlineSpan(span));
         Ok(())
@@ -850,12 +852,12 @@ impl Parser {
         let (target, metadata) = target_and_attrs_from_token(&token);
         self.check_target(token.line, &target)?;
         let mut image_block = BlockMacro::new_image_block(target, metadata, token.locations());
+        self.add_inlines_to_block_stack(asg)?;
         if let Some(metadata) = &self.metadata {
             // TODO see if there is a cleaner way to manage the borrowing here.
             image_block = image_block.add_metadata(metadata);
             self.metadata = None;
         }
-        self.add_inlines_to_block_stack(asg)?;
         self.push_block_to_stack(Block::BlockMacro(image_block), asg)
     }
 
-- 
2.43.0


From 85490ffa6269fe13ef94246c749d8448b54e3d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:23 +0000
Subject: [PATCH 024/126] fix: match the whole of an admonition's attribute
 list and only style spans

---
 src/scanner/mod.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index c037e4c..0f5610d 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -222,15 +222,15 @@ impl<'a> Scanner<'a> {
                 {
                     self.add_block_anchor()
                 } else if self.starts_attribution_line() {
-                    match self.source.as_bytes()[self.start + 1] as char {
-                        'N' => self.add_token(TokenType::NotePara, true, 0),
-                        'T' => self.add_token(TokenType::TipPara, true, 0),
-                        'I' => self.add_token(TokenType::ImportantPara, true, 0),
-                        'C' => self.add_token(TokenType::CautionPara, true, 0),
-                        'W' => self.add_token(TokenType::WarningPara, true, 0),
+                    match &self.source[self.start..self.current] {
+                        "[NOTE]" => self.add_token(TokenType::NotePara, true, 0),
+                        "[TIP]" => self.add_token(TokenType::TipPara, true, 0),
+                        "[IMPORTANT]" => self.add_token(TokenType::ImportantPara, true, 0),
+                        "[CAUTION]" => self.add_token(TokenType::CautionPara, true, 0),
+                        "[WARNING]" => self.add_token(TokenType::WarningPara, true, 0),
                         _ => self.add_token(TokenType::ElementAttributes, true, 0),
                     }
-                } else if self.peek() == '.' && self.rest_of_line().contains(']') {
+                } else if self.starts_inline_style() {
                     self.add_inline_style()
                 } else {
                     self.add_text_until_next_markup()
@@ -699,6 +699,15 @@ impl<'a> Scanner<'a> {
         }
     }
 
+    /// Checks for an inline style, e.g., "[.foo]", that has a span directly after it to apply to
+    fn starts_inline_style(&self) -> bool {
+        self.peek() == '.'
+            && self
+                .rest_of_line()
+                .split_once(']')
+                .is_some_and(|(_, after)| after.starts_with(['#', '*', '_', '`']))
+    }
+
     fn starts_end_tag_line(&mut self) -> bool {
         self.expecting_tag_end
             && self
-- 
2.43.0


From eb137cc86d0f76c5f2e174bb09f0739ca731fd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:43 +0000
Subject: [PATCH 025/126] fix: only recognise admonitions and breaks at the
 start of a line

---
 src/scanner/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 0f5610d..bf88b5e 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -72,7 +72,7 @@ impl<'a> Scanner<'a> {
             '\'' => {
                 if self.starts_end_tag_line() {
                     self.add_tag()
-                } else if self.starts_repeated_char_line(c, 3) {
+                } else if self.starts_new_line() && self.starts_repeated_char_line(c, 3) {
                     self.current += 2;
                     self.add_token(TokenType::ThematicBreak, false, 0)
                 } else if ['\0', ' ', '\n'].contains(&self.peek_back()) && self.peek() == '`' {
@@ -90,7 +90,7 @@ impl<'a> Scanner<'a> {
             '<' => {
                 if self.starts_end_tag_line() {
                     self.add_tag()
-                } else if self.starts_repeated_char_line(c, 3) {
+                } else if self.starts_new_line() && self.starts_repeated_char_line(c, 3) {
                     self.current += 2;
                     self.add_token(TokenType::PageBreak, false, 0)
                 } else if ['-', '='].contains(&self.peek()) {
@@ -347,7 +347,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'N' => {
-                if self.peeks_ahead(5) == "OTE: " {
+                if self.starts_new_line() && self.peeks_ahead(5) == "OTE: " {
                     self.current += 5;
                     self.add_token(TokenType::NotePara, true, 0)
                 } else {
@@ -355,7 +355,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'T' => {
-                if self.peeks_ahead(4) == "IP: " {
+                if self.starts_new_line() && self.peeks_ahead(4) == "IP: " {
                     self.current += 4;
                     self.add_token(TokenType::TipPara, true, 0)
                 } else {
@@ -363,7 +363,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'I' => {
-                if self.peeks_ahead(10) == "MPORTANT: " {
+                if self.starts_new_line() && self.peeks_ahead(10) == "MPORTANT: " {
                     self.current += 10;
                     self.add_token(TokenType::ImportantPara, true, 0)
                 } else {
@@ -371,7 +371,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'C' => {
-                if self.peeks_ahead(8) == "AUTION: " {
+                if self.starts_new_line() && self.peeks_ahead(8) == "AUTION: " {
                     self.current += 8;
                     self.add_token(TokenType::CautionPara, true, 0)
                 } else {
@@ -379,7 +379,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'W' => {
-                if self.peeks_ahead(8) == "ARNING: " {
+                if self.starts_new_line() && self.peeks_ahead(8) == "ARNING: " {
                     self.current += 8;
                     self.add_token(TokenType::WarningPara, true, 0)
                 } else {
-- 
2.43.0


From a1cf025740b090e21c7988d87b4608e40fcb8cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:03 +0000
Subject: [PATCH 026/126] fix: treat every inline token as inline in document
 titles and verses

---
 src/parser.rs         |  5 ++++-
 src/scanner/tokens.rs | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e29682c..2899257 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -160,7 +160,10 @@ impl Parser {
         if let Some(token_type) = self.open_parse_after_as_text_type {
             match token_type {
                 TokenType::QuoteVerseBlock => {
-                    if token.token_type() == TokenType::QuoteVerseBlock || token.is_inline() {
+                    if token.token_type() == TokenType::QuoteVerseBlock
+                        || token.is_inline()
+                            && token.token_type() != TokenType::PassthroughInlineMacro
+                    {
                         self.open_parse_after_as_text_type = Some(token_type);
                     } else {
                         self.parse_text(token)?;
diff --git a/src/scanner/tokens.rs b/src/scanner/tokens.rs
index a8bbc4e..db0328c 100644
--- a/src/scanner/tokens.rs
+++ b/src/scanner/tokens.rs
@@ -138,6 +138,21 @@ impl Token {
             | TokenType::UnconstrainedStrong
             | TokenType::UnconstrainedMonospace
             | TokenType::UnconstrainedMark
+            | TokenType::Literal
+            | TokenType::UnconstrainedLiteral
+            | TokenType::Superscript
+            | TokenType::Subscript
+            | TokenType::OpenDoubleQuote
+            | TokenType::CloseDoubleQuote
+            | TokenType::OpenSingleQuote
+            | TokenType::CloseSingleQuote
+            | TokenType::AttributeReference
+            | TokenType::CrossReference
+            | TokenType::FootnoteMacro
+            | TokenType::LinkMacro
+            | TokenType::Hyperlink
+            | TokenType::InlineImageMacro
+            | TokenType::PassthroughInlineMacro
             | TokenType::CharRef
             | TokenType::InlineStyle
             | TokenType::InlineMacroClose)
-- 
2.43.0


From 5bb8ee2859f353cceaf4e2ab7d893f64fce7c27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:29 +0000
Subject: [PATCH 027/126] fix: keep blank lines inside of verse blocks

---
 src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2899257..f378763 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -461,7 +461,15 @@ impl Parser {
             }
         }
 
-        if [TokenType::NewLineChar, TokenType::Eof].contains(&self.last_token_type) {
+        if self.open_parse_after_as_text_type == Some(TokenType::QuoteVerseBlock)
+            && self.last_token_type == TokenType::NewLineChar
+        {
+            // blank lines separate stanzas, but don't end the verse
+            if !self.inline_stack.is_empty() {
+                self.add_dangling_newline();
+                self.dangling_newline = Some(token);
+            }
+        } else if [TokenType::NewLineChar, TokenType::Eof].contains(&self.last_token_type) {
             // clear any dangling newline
             self.dangling_newline = None;
             if self.document_header.is_some() {
-- 
2.43.0


From 651aeea0dba8901868ee627cb85bdd5493618c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:28 +0000
Subject: [PATCH 028/126] fix: work out the columns of every table

---
 src/graph/blocks.rs                 | 61 ++++++++---------------------
 src/graph/metadata.rs               | 32 +++++++++------
 src/parser.rs                       |  8 ++--
 templates/htmlbook/tables.html.tera |  5 ++-
 4 files changed, 43 insertions(+), 63 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index bb26e96..d248afc 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -1,4 +1,4 @@
-use log::{error, warn};
+use log::warn;
 use std::{collections::HashMap, fmt::Display};
 
 use serde::Serialize;
@@ -215,51 +215,24 @@ impl Block {
         let Block::ParentBlock(table) = self else {
             return Err(BlockError::IncorrectCall);
         };
-        // check if there is an implicit header
-        if table.blocks.len() >= 2 {
-            // if the cells in the first row are on the same line, either serves as cols
-            // designation
-            let first_cell_line = table.blocks[0].line()?;
-            if first_cell_line == table.blocks[1].line()? {
-                // check for an implicit header
-                if first_cell_line == table.location[0].line + 1 {
-                    if let Some(ref mut metadata) = table.metadata {
-                        metadata.options.push("header".to_string());
-                    } else {
-                        let mut metadata = ElementMetadata::default();
-                        metadata.options.push("header".to_string());
-                        table.metadata = Some(metadata)
-                    }
-                }
-                // count for implicit column designation
-                let cols = table
-                    .blocks
-                    .iter()
-                    .fold(0usize, |acc, block| match block.line() {
-                        Ok(line) => acc + (line == first_cell_line) as usize,
-                        Err(_) => acc, // shouldn't ever happen
-                    });
-                if let Some(ref mut metadata) = table.metadata {
-                    if !metadata.attributes.contains_key("cols") {
-                        metadata
-                            .attributes
-                            .insert("cols".to_string(), format!("{cols}"));
-                    }
-                } else {
-                    let mut metadata = ElementMetadata::default();
-                    metadata
-                        .attributes
-                        .insert("cols".to_string(), format!("{cols}"));
-                    table.metadata = Some(metadata)
-                }
+        let mut metadata = table.metadata.take().unwrap_or_default();
+        // count the cells on the first line for implicit column designation
+        let mut first_line_cells = 0;
+        if let Some(first_cell) = table.blocks.first() {
+            let first_cell_line = first_cell.line()?;
+            first_line_cells = table
+                .blocks
+                .iter()
+                .filter(|cell| cell.line() == Ok(first_cell_line))
+                .count();
+            // check for an implicit header, i.e., cells on the line following the delimiter
+            if first_line_cells > 1 && first_cell_line == table.location[0].line + 1 {
+                metadata.options.push("header".to_string());
             }
-            // FOR NOW, make the cols an integer for easier templating.
-            let Some(ref mut metadata) = table.metadata else {
-                error!("Error creating table at Line: {}", first_cell_line);
-                std::process::exit(1)
-            };
-            metadata.simplify_cols();
         }
+        // FOR NOW, make the cols an integer for easier templating.
+        metadata.simplify_cols(first_line_cells);
+        table.metadata = Some(metadata);
         Ok(())
     }
 
diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 9c8c99a..2c89809 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -233,19 +233,25 @@ impl ElementMetadata {
         }
     }
 
-    pub fn simplify_cols(&mut self) {
-        if let Some(cols_value) = self.attributes.get("cols") {
-            if cols_value.contains(',') {
-                // cols="1,2,1"
-                self.attributes.insert(
-                    "cols".to_string(),
-                    format!("{}", cols_value.split(',').collect::<Vec<&str>>().len()),
-                );
-            } else if cols_value.len() == 2 && cols_value[1..] == *"*" {
-                self.attributes
-                    .insert("cols".to_string(), cols_value[..1].to_string());
-            }
-        }
+    /// Makes the "cols" attribute the number of columns (there's always at least one), using the
+    /// implied number of columns where there is no such attribute
+    pub fn simplify_cols(&mut self, implied_cols: usize) {
+        let as_number = |value: &str| value.trim().parse::<u16>().ok().map(usize::from);
+        let cols = match self.attributes.get("cols") {
+            // cols="3", or cols="1,2,1", or cols="3*"
+            Some(value) => as_number(value).unwrap_or_else(|| {
+                value
+                    .split(',')
+                    .map(|col| match col.split_once('*') {
+                        Some((multiplier, _)) => as_number(multiplier).unwrap_or(1),
+                        None => 1,
+                    })
+                    .sum()
+            }),
+            None => implied_cols,
+        };
+        self.attributes
+            .insert("cols".to_string(), cols.max(1).to_string());
     }
 }
 
diff --git a/src/parser.rs b/src/parser.rs
index f378763..527b0f4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1060,11 +1060,6 @@ impl Parser {
                     // update the final location
                     open.location = Location::reconcile(open.location.clone(), block.location);
                 }
-                if let Some(open) = self.block_stack.last_mut() {
-                    if open.is_table() {
-                        open.consolidate_table_info()?;
-                    }
-                }
                 return self.close_last_block(asg);
             }
         }
@@ -1153,6 +1148,9 @@ impl Parser {
             return Err(ParserError::BlockStack);
         };
         block.consolidate_locations();
+        if block.is_table() {
+            block.consolidate_table_info()?;
+        }
         if self.open_delimited_blocks.last() == Some(&self.block_stack.len()) {
             self.open_delimited_blocks.pop();
         }
diff --git a/templates/htmlbook/tables.html.tera b/templates/htmlbook/tables.html.tera
index 9d3c056..759d5b0 100644
--- a/templates/htmlbook/tables.html.tera
+++ b/templates/htmlbook/tables.html.tera
@@ -6,6 +6,9 @@
 {%- if "header" in block.metadata.options -%}
 {%- set header = true -%}
 {%- set body_start = cols -%}
+{%- if body_start > block.blocks | length -%}
+{%- set body_start = block.blocks | length -%}
+{%- endif -%}
 {%- endif -%}
     <table>{% if header %}
     <thead>
@@ -22,7 +25,7 @@
         {% for idx in range(start=body_start, end=num_cells) -%}
             {%- set cell = block.blocks | nth(n=idx) -%}
                 {{ self::process_table_cell(cell=cell, tag="td") -}}
-        {% if idx > 0 and (idx + 1) % cols == 0 and idx+1 != num_cells %}
+        {% if (idx + 1) % cols == 0 and idx+1 != num_cells %}
         </tr>
         <tr>{%- endif %}
         {% endfor %}</tr>
-- 
2.43.0


From 1bdf7021d0c207b3255fa774e9aca8a6ad020f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:16 +0000
Subject: [PATCH 029/126] fix: only treat a pipe as a table cell inside of a
 table

---
 src/parser.rs | 45 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 527b0f4..f809884 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1076,27 +1076,58 @@ impl Parser {
         let cell_line = token.first_location().line;
         let cell_col = token.first_location().col;
 
+        let in_table = self
+            .open_delimited_blocks
+            .last()
+            .is_some_and(|&idx| self.block_stack[idx].is_table());
+        if !in_table {
+            // it's just a `|`
+            let mut pipe = token;
+            pipe.literal = Some("|".to_string());
+            pipe.endcol = pipe.startcol;
+            self.parse_text(pipe)?;
+            return self.parse_cell_contents(&cell_contents, cell_line, cell_col, asg);
+        }
+
         self.add_inlines_to_block_stack(asg)?;
         self.push_block_to_stack(Block::TableCell(TableCell::new_from_token(token)), asg)?;
 
         // create new inlines from the stack, clearing any dangling newlines
         self.dangling_newline = None;
-        for result in Scanner::new(&cell_contents) {
+        self.parse_cell_contents(&cell_contents, cell_line, cell_col, asg)?;
+        // clear all the things to ensure inlines get added appropriately
+        self.in_block_line = false;
+        self.force_new_block = false;
+        // then add them to the stack, i.e., to the recently added TableCell
+        self.add_inlines_to_block_stack(asg)?;
+        Ok(())
+    }
+
+    fn parse_cell_contents(
+        &mut self,
+        cell_contents: &str,
+        cell_line: usize,
+        cell_col: usize,
+        asg: &mut Asg,
+    ) -> Result<(), ParserError> {
+        for result in Scanner::new(cell_contents) {
             match result {
                 Ok(mut inline_token) => {
                     // update the line numbering for the token to match the table cell mathematically, in
                     // case my vague memory of multi-line cells is correct
                     inline_token.update_token_loc_offsets_by(cell_line, cell_col);
-                    self.token_into(inline_token, asg)?;
+                    match inline_token.token_type() {
+                        TokenType::Eof => {}
+                        // block markup has no meaning inside of a cell
+                        token_type if !inline_token.is_inline() || token_type == TokenType::Comment => {
+                            self.parse_text(inline_token)?
+                        }
+                        _ => self.token_into(inline_token, asg)?,
+                    }
                 }
                 Err(e) => return Err(ParserError::Scanner(e)),
             }
         }
-        // clear all the things to ensure inlines get added appropriately
-        self.in_block_line = false;
-        self.force_new_block = false;
-        // then add them to the stack, i.e., to the recently added TableCell
-        self.add_inlines_to_block_stack(asg)?;
         Ok(())
     }
 
-- 
2.43.0


From 55656593b3369cba84279947f93334f793341699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:53 +0000
Subject: [PATCH 030/126] fix: keep the whole value of a document attribute

---
 src/parser.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f809884..7861e7e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -360,19 +360,14 @@ impl Parser {
 
     fn parse_attribute(&mut self, token: Token) -> Result<(), ParserError> {
         let binding = token.text();
-        let mut attr_components: Vec<&str> = binding.split_terminator(':').collect();
-        attr_components.remove(0); // throw away initial "" in the list
-        if attr_components.is_empty() {
+        // ":key: value", where the value may itself have colons
+        let Some((key, value)) = binding[1..].split_once(':') else {
             warn!("Empty attributes list at line: {}", token.line);
             return Ok(());
-        }
-        let key = attr_components.first().unwrap();
+        };
         // values should be trimmed
-        let mut value = attr_components.last().unwrap().trim();
-        if key == &value {
-            value = ""
-        }
-        match *key {
+        let value = value.trim();
+        match key {
             "leveloffset" => self.parse_level_offset(value),
             _ => {
                 self.document_attributes
@@ -937,7 +932,7 @@ impl Parser {
             token.literal = Some(value.clone());
             // update the ending col, adding the new value and then subtracting one because of
             // indexing
-            token.endcol = token.startcol + value.len() - 1;
+            token.endcol = token.startcol + value.len().max(1) - 1;
         } else {
             warn!("Missing document attribute: {}", attribute_target);
         }
-- 
2.43.0


From 1466cc53962a1e1969beff11510f1f6093e15e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:58:24 +0000
Subject: [PATCH 031/126] fix: apply signed level offsets relatively and only
 to the include they're given for

---
 src/parser.rs | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7861e7e..877226a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -378,21 +378,20 @@ impl Parser {
     }
 
     fn parse_level_offset(&mut self, value: &str) -> Result<(), ParserError> {
-        if let Ok(value) = value.parse::<usize>() {
-            self.level_offset = value as i8;
-            Ok(())
+        // signed values are relative to the current offset, others are absolute
+        let current_offset = if value.starts_with(['+', '-']) {
+            self.level_offset
         } else {
-            match value.parse::<i8>() {
-                // absolute value
-                Ok(value) => {
-                    self.level_offset += value;
-                    Ok(())
-                }
-                // relative value, or error
-                Err(_) => Err(ParserError::InternalError(
-                    "Error parsing level offset".to_string(),
-                )),
+            0
+        };
+        match value.parse::<i8>().ok().and_then(|value| current_offset.checked_add(value)) {
+            Some(offset) => {
+                self.level_offset = offset;
+                Ok(())
             }
+            None => Err(ParserError::InternalError(
+                "Error parsing level offset".to_string(),
+            )),
         }
     }
 
@@ -523,6 +522,11 @@ impl Parser {
         let mut current_tag: Option<String> = None;
 
         let (target, meta) = target_and_attrs_from_token(&token);
+        // an offset given in the include only holds for what's included
+        let outer_level_offset = meta
+            .as_ref()
+            .and_then(|metadata| metadata.attributes.get("leveloffset"))
+            .map(|_| self.level_offset);
         // check for level offsets in the include
         if let Some(metadata) = meta {
             if let Some(value) = metadata.attributes.get("leveloffset") {
@@ -625,6 +629,9 @@ impl Parser {
         self.close_blocks_after(current_block_stack_len, asg)?;
         // ...then pop the file off the stack
         self.file_stack.pop();
+        if let Some(level_offset) = outer_level_offset {
+            self.level_offset = level_offset;
+        }
         Ok(())
     }
 
@@ -764,12 +771,12 @@ impl Parser {
 
     /// Returns a valid heading level for a given token
     fn get_heading_level(&self, token: &Token) -> Result<usize, ParserError> {
-        let level: i8 = match token.token_type() {
-            TokenType::Heading1 => self.level_offset,
-            TokenType::Heading2 => 1 + self.level_offset,
-            TokenType::Heading3 => 2 + self.level_offset,
-            TokenType::Heading4 => 3 + self.level_offset,
-            TokenType::Heading5 => 4 + self.level_offset,
+        let marker_level: i16 = match token.token_type() {
+            TokenType::Heading1 => 0,
+            TokenType::Heading2 => 1,
+            TokenType::Heading3 => 2,
+            TokenType::Heading4 => 3,
+            TokenType::Heading5 => 4,
             _ => {
                 return Err(ParserError::InternalError(
                     "Inavlid token given to parse_section_headings".to_string(),
@@ -777,7 +784,7 @@ impl Parser {
             }
         };
 
-        match level.try_into() {
+        match (marker_level + i16::from(self.level_offset)).try_into() {
             Ok(value) => {
                 if !(1..=4).contains(&value) {
                     Err(ParserError::HeadingOffsetError(
-- 
2.43.0


From 4855411d115ba420dfddce2be6e4d057deee8ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:16 +0000
Subject: [PATCH 032/126] fix: select included lines by their number and tags,
 and stop at recursive includes

---
 src/errors.rs      |   2 +
 src/parser.rs      | 116 ++++++++++++++++++++++++---------------------
 src/scanner/mod.rs |  24 ++++++----
 3 files changed, 80 insertions(+), 62 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 37bf587..62a9447 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -52,6 +52,8 @@ pub enum ParserError {
     HeadingOffsetError(usize, i8),
     #[error("Parse error line {0}: Unable to resolve target: {1:?}")]
     TargetResolution(usize, String),
+    #[error("Parse error line {0}: Includes are nested too deeply: {1:?}")]
+    IncludeDepth(usize, String),
     #[error("Parser error: Tried to add last block when block stack was empty.")]
     BlockStack,
     #[error("Parse error: invalid block continuation; no previous block")]
diff --git a/src/parser.rs b/src/parser.rs
index 877226a..c547903 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4,7 +4,7 @@ use std::{
     env,
     fmt::Debug,
     fs,
-    path::{Path, PathBuf},
+    path::PathBuf,
     str::FromStr,
 };
 
@@ -27,6 +27,9 @@ use crate::{
     utils::{extract_page_ranges, target_and_attrs_from_token},
 };
 
+/// How many files deep we follow includes, to guard against files that include themselves
+const MAX_INCLUDE_DEPTH: usize = 64;
+
 /// Parses a stream of tokens into an [`Asg`] (Abstract Syntax Graph), returning the graph once all
 /// tokens have been parsed.
 #[derive(Debug)]
@@ -259,8 +262,14 @@ impl Parser {
             TokenType::AttributeReference => self.parse_attribute_reference(token),
             TokenType::CrossReference => self.parse_cross_reference(token),
             TokenType::Include => self.parse_include(token, asg),
-            // we just check for the existence of these; we don't actually process them
-            TokenType::StartTag | TokenType::EndTag => {Ok(())}
+            // these only have a meaning in includes
+            TokenType::StartTag | TokenType::EndTag => {
+                if self.last_token_type == TokenType::Comment {
+                    Ok(())
+                } else {
+                    self.parse_text(token)
+                }
+            }
 
             // inline macros
             TokenType::FootnoteMacro => self.parse_footnote_macro(token),
@@ -516,10 +525,8 @@ impl Parser {
     fn parse_include(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         // placeholders
         let mut included_lines: Vec<i32> = vec![];
-        let mut include_to_end: bool = false;
         let mut included_tags: Vec<String> = vec![];
         let mut asciidoc_include: bool = false;
-        let mut current_tag: Option<String> = None;
 
         let (target, meta) = target_and_attrs_from_token(&token);
         // an offset given in the include only holds for what's included
@@ -537,12 +544,6 @@ impl Parser {
             }
             if let Some(value) = metadata.attributes.get("lines") {
                 included_lines = extract_page_ranges(value);
-                if let Some(line) = included_lines.last() {
-                    if *line == -1 {
-                        include_to_end = true;
-                        included_lines.pop();
-                    }
-                }
             }
             if let Some(value) = metadata.attributes.get("tag") {
                 included_tags.push(value.clone());
@@ -555,6 +556,13 @@ impl Parser {
         // calculate target, given that it's relative; if there is something on the stack, use
         // that, else use self.origin
         let resolved_target = self.resolve_target(token.line, &target)?;
+        if self.file_stack.len() >= MAX_INCLUDE_DEPTH {
+            return Err(ParserError::IncludeDepth(token.line, target));
+        }
+        let Ok(source) = fs::read_to_string(&resolved_target) else {
+            return Err(ParserError::TargetResolution(token.line, target));
+        };
+        let selected_lines = select_lines(&source, &included_lines, &included_tags);
         self.file_stack.push(target.clone());
 
         let current_block_stack_len = self.block_stack.len();
@@ -568,41 +576,14 @@ impl Parser {
         }
 
         // now parse the file
-        for result in Scanner::new_with_stack(&open_file(resolved_target), self.file_stack.clone())
-        {
+        let mut line_idx = 0;
+        for result in Scanner::new_with_stack(&source, self.file_stack.clone()) {
             match result {
                 Ok(token) => {
-                    // lines
-                    if !included_lines.is_empty() {
-                        if !included_lines.contains(&(token.line as i32)) {
-                            continue;
-                        } else if include_to_end
-                            && &(token.line as i32) >= included_lines.last().unwrap()
-                        {
-                            included_lines.clear()
-                        }
-                    }
-                    // tags
-                    if !included_tags.is_empty() {
-                        if token.token_type() == TokenType::StartTag {
-                            if let Some(tag) = token.tag() {
-                                if included_tags.contains(&tag) {
-                                    current_tag = Some(tag);
-                                    continue;
-                                }
-                            }
-                        }
-                        if token.token_type() == TokenType::EndTag {
-                            if let Some(tag) = token.tag() {
-                                if current_tag == Some(tag) {
-                                    current_tag = None;
-                                    continue;
-                                }
-                            }
-                        }
-                        if current_tag.is_none() {
-                            continue;
-                        }
+                    let selected = selected_lines.get(line_idx).unwrap_or(&false);
+                    line_idx += token.lexeme.matches('\n').count();
+                    if !selected {
+                        continue;
                     }
                     if asciidoc_include {
                         let token_type = token.token_type();
@@ -1437,15 +1418,42 @@ impl Parser {
     }
 }
 
-fn open_file<P>(filename: P) -> String
-where
-    P: AsRef<Path> + Into<PathBuf> + Debug,
-{
-    match fs::read_to_string(&filename) {
-        Ok(file_string) => file_string,
-        Err(e) => {
-            warn!("Unable to read file {:?}: {e}", filename);
-            std::process::exit(1)
-        }
+/// Determines, for each line in the source (including the end of the file), whether or not it is
+/// included, given lines (where -1 means that we include everything from the preceding number on)
+/// and tags; with neither, everything is included, save for the tag directives themselves
+fn select_lines(source: &str, lines: &[i32], tags: &[String]) -> Vec<bool> {
+    let mut open_tags: Vec<&str> = vec![];
+    source
+        .split('\n')
+        .enumerate()
+        .map(|(idx, line)| {
+            let number = idx as i32 + 1;
+            if let Some(tag) = tag_from_directive("tag::", line) {
+                if tags.iter().any(|included| included == tag) {
+                    open_tags.push(tag);
+                }
+                return false;
+            }
+            if let Some(tag) = tag_from_directive("end::", line) {
+                if let Some(tag_idx) = open_tags.iter().rposition(|open| *open == tag) {
+                    open_tags.remove(tag_idx);
+                }
+                return false;
+            }
+            let in_lines = lines.is_empty()
+                || lines.contains(&number)
+                || lines.windows(2).any(|pair| pair[1] == -1 && pair[0] <= number);
+            in_lines && (tags.is_empty() || !open_tags.is_empty())
+        })
+        .collect()
+}
+
+/// Returns the "foo" in, e.g., "// tag::foo[]"
+fn tag_from_directive<'a>(directive: &str, line: &'a str) -> Option<&'a str> {
+    let (before, after) = line.split_once(directive)?;
+    if before.ends_with(|c: char| c.is_alphanumeric()) {
+        return None;
     }
+    let (tag, _) = after.split_once("[]")?;
+    (!tag.is_empty() && !tag.contains(char::is_whitespace)).then_some(tag)
 }
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index bf88b5e..9977008 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -635,6 +635,7 @@ impl<'a> Scanner<'a> {
 
     fn add_tag(&mut self) -> Result<Token, ScannerError> {
         let tag_type: TokenType;
+        let end_of_context = self.expecting_tag_end;
         let rest = &self.source[self.start..];
         if !rest.starts_with("tag::") && !rest.starts_with("end::") {
             // skip any comment markup ahead of the directive
@@ -650,7 +651,8 @@ impl<'a> Scanner<'a> {
 
         if (self.source[self.start..self.current]).starts_with("tag::") {
             tag_type = TokenType::StartTag;
-            self.expecting_tag_end = true;
+            // outside of an include it's just text
+            self.expecting_tag_end = !self.file_stack.is_empty();
         } else if (self.source[self.start..self.current]).starts_with("end::") {
             tag_type = TokenType::EndTag;
             self.expecting_tag_end = false;
@@ -659,13 +661,11 @@ impl<'a> Scanner<'a> {
                 self.source[self.start..self.current].to_string(),
             ));
         }
-        let result = self.add_token(tag_type, true, 1);
-        // move to the end of the line
-        while self.peek() != '\n' && !self.is_at_end() {
-            self.current += 1
-        }
-        if self.peek() == '\n' {
-            self.current += 1
+        let result = self.add_token(tag_type, true, 0);
+        if end_of_context || self.in_comment() {
+            // move to the end of the line
+            self.startcol += self.rest_of_line().len();
+            self.current += self.rest_of_line().len();
         }
         result
     }
@@ -674,6 +674,14 @@ impl<'a> Scanner<'a> {
         self.start == 0 || self.source.as_bytes()[self.start - 1] == b'\n'
     }
 
+    /// Whether or not the token is on a line that began with a comment
+    fn in_comment(&self) -> bool {
+        self.source[..self.start]
+            .rsplit('\n')
+            .next()
+            .is_some_and(|line| line.starts_with("//"))
+    }
+
     fn starts_repeated_char_line(&self, c: char, delimiter_len: usize) -> bool {
         self.rest_of_line() == String::from(c).repeat(delimiter_len - 1)
     }
-- 
2.43.0


From 7f0d1914baa7f251f6100f0b394b320b1d396bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:56 +0000
Subject: [PATCH 033/126] fix: resolve cross references in description list
 terms and captions

---
 src/graph/blocks.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index d248afc..22b92b4 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -302,6 +302,7 @@ impl Block {
                 }
             }
             Block::DListItem(block) => {
+                inlines.extend(block.terms.clone());
                 inlines.extend(block.principal.clone());
                 for child in block.blocks.iter() {
                     inlines.extend(child.inlines())
@@ -311,6 +312,7 @@ impl Block {
                 inlines.extend(block.title.clone());
                 inlines.extend(block.inlines.clone())
             }
+            Block::BlockMacro(block) => inlines.extend(block.caption.clone()),
             Block::TableCell(block) => inlines.extend(block.inlines.clone()),
             _ => {} // remaining blocks don't have inlines
         }
@@ -352,6 +354,7 @@ impl Block {
                 }
             }
             Block::DListItem(block) => {
+                inlines.extend(block.terms.iter_mut());
                 inlines.extend(block.principal.iter_mut());
                 for child in block.blocks.iter_mut() {
                     inlines.extend(child.inlines_mut())
@@ -361,6 +364,7 @@ impl Block {
                 inlines.extend(block.title.iter_mut());
                 inlines.extend(block.inlines.iter_mut())
             }
+            Block::BlockMacro(block) => inlines.extend(block.caption.iter_mut()),
             Block::TableCell(block) => inlines.extend(block.inlines.iter_mut()),
             _ => {} // remaining blocks don't have inlines
         }
-- 
2.43.0


From 35188c99ba71379e99b02097fdec8c806fdcc574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:24 +0000
Subject: [PATCH 034/126] fix: number footnotes consecutively across blocks

---
 src/graph/blocks.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 22b92b4..63414a1 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -389,7 +389,7 @@ impl Block {
             Block::Section(block) => {
                 for child in block.blocks.iter_mut() {
                     let child_footnoes =
-                        child.extract_footnote_definitions(extracted.len(), document_id)?;
+                        child.extract_footnote_definitions(local_count, document_id)?;
                     local_count += child_footnoes.len();
                     extracted.extend(child_footnoes);
                 }
@@ -397,7 +397,7 @@ impl Block {
             Block::ParentBlock(block) => {
                 for child in block.blocks.iter_mut() {
                     let child_footnoes =
-                        child.extract_footnote_definitions(extracted.len(), document_id)?;
+                        child.extract_footnote_definitions(local_count, document_id)?;
                     local_count += child_footnoes.len();
                     extracted.extend(child_footnoes);
                 }
@@ -405,7 +405,7 @@ impl Block {
             Block::List(block) => {
                 for child in block.items.iter_mut() {
                     let child_footnoes =
-                        child.extract_footnote_definitions(extracted.len(), document_id)?;
+                        child.extract_footnote_definitions(local_count, document_id)?;
                     local_count += child_footnoes.len();
                     extracted.extend(child_footnoes);
                 }
@@ -413,16 +413,17 @@ impl Block {
             Block::DList(block) => {
                 for child in block.items.iter_mut() {
                     let child_footnoes =
-                        child.extract_footnote_definitions(extracted.len(), document_id)?;
+                        child.extract_footnote_definitions(local_count, document_id)?;
+                    local_count += child_footnoes.len();
                     extracted.extend(child_footnoes);
                 }
             }
             Block::ListItem(block) => {
-                let child_footnotes = block.extract_footnotes(extracted.len(), document_id)?;
+                let child_footnotes = block.extract_footnotes(local_count, document_id)?;
                 extracted.extend(child_footnotes);
             }
             Block::DListItem(block) => {
-                let child_footnotes = block.extract_footnotes(extracted.len(), document_id)?;
+                let child_footnotes = block.extract_footnotes(local_count, document_id)?;
                 extracted.extend(child_footnotes);
             }
             // nonparents
-- 
2.43.0


From 892d4439c09753006055c532f13d123290382099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:58 +0000
Subject: [PATCH 035/126] fix: find footnotes in titles, terms, cells, captions
 and other inlines

---
 src/graph/blocks.rs | 107 +++++++++++++++++++++++++++++++++-----------
 src/graph/lists.rs  |  59 +++++++-----------------
 2 files changed, 98 insertions(+), 68 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 63414a1..3c9bf9e 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -5,7 +5,7 @@ use serde::Serialize;
 
 use crate::errors::{BlockError, ParserError};
 use crate::graph::{
-    inlines::Inline,
+    inlines::{Inline, InlineSpanVariant},
     lists::{DList, DListItem, List, ListItem, ListVariant},
     metadata::ElementMetadata,
     nodes::{Location, NodeTypes},
@@ -387,6 +387,11 @@ impl Block {
         match self {
             // parents
             Block::Section(block) => {
+                extracted.extend(extract_footnotes(
+                    &mut block.inlines,
+                    &mut local_count,
+                    document_id,
+                ));
                 for child in block.blocks.iter_mut() {
                     let child_footnoes =
                         child.extract_footnote_definitions(local_count, document_id)?;
@@ -395,6 +400,11 @@ impl Block {
                 }
             }
             Block::ParentBlock(block) => {
+                extracted.extend(extract_footnotes(
+                    &mut block.title,
+                    &mut local_count,
+                    document_id,
+                ));
                 for child in block.blocks.iter_mut() {
                     let child_footnoes =
                         child.extract_footnote_definitions(local_count, document_id)?;
@@ -403,6 +413,11 @@ impl Block {
                 }
             }
             Block::List(block) => {
+                extracted.extend(extract_footnotes(
+                    &mut block.title,
+                    &mut local_count,
+                    document_id,
+                ));
                 for child in block.items.iter_mut() {
                     let child_footnoes =
                         child.extract_footnote_definitions(local_count, document_id)?;
@@ -411,6 +426,11 @@ impl Block {
                 }
             }
             Block::DList(block) => {
+                extracted.extend(extract_footnotes(
+                    &mut block.title,
+                    &mut local_count,
+                    document_id,
+                ));
                 for child in block.items.iter_mut() {
                     let child_footnoes =
                         child.extract_footnote_definitions(local_count, document_id)?;
@@ -428,30 +448,28 @@ impl Block {
             }
             // nonparents
             Block::LeafBlock(block) => {
-                for idx in 0..block.inlines.len() {
-                    if block.inlines[idx].is_footnote() {
-                        local_count += 1;
-                        let inline_span = block.inlines.remove(idx);
-                        let Inline::InlineSpan(mut footnote) = inline_span else {
-                            return Err(BlockError::Footnote("Bad is_footnote match".to_string()));
-                        };
-                        // deconstruct it
-                        let (definition_id, replacement_span, footnote_contents) =
-                            footnote.deconstruct_footnote(local_count, document_id);
-                        // add the relevant stuff to the return
-                        extracted.push(Block::LeafBlock(
-                            LeafBlock::new_footnote_def_from_id_and_inlines(
-                                definition_id,
-                                footnote_contents,
-                            ),
-                        ));
-                        // put the reference back where the span was
-                        block.inlines.insert(idx, replacement_span);
-                    }
-                }
-            }
-            _ => todo!(), // placeholder; probably this is a list of panics that should never be
-                          // reached
+                extracted.extend(extract_footnotes(
+                    &mut block.title,
+                    &mut local_count,
+                    document_id,
+                ));
+                extracted.extend(extract_footnotes(
+                    &mut block.inlines,
+                    &mut local_count,
+                    document_id,
+                ));
+            }
+            Block::TableCell(block) => extracted.extend(extract_footnotes(
+                &mut block.inlines,
+                &mut local_count,
+                document_id,
+            )),
+            Block::BlockMacro(block) => extracted.extend(extract_footnotes(
+                &mut block.caption,
+                &mut local_count,
+                document_id,
+            )),
+            _ => {} // remaining blocks don't have inlines
         }
 
         Ok(extracted)
@@ -1315,6 +1333,45 @@ impl TableCell {
     }
 }
 
+/// Replaces footnotes in a list of inlines, however deep in other inlines they are, with
+/// references to the definitions that are returned
+pub fn extract_footnotes(
+    inlines: &mut [Inline],
+    count: &mut usize,
+    document_id: &str,
+) -> Vec<Block> {
+    let mut extracted: Vec<Block> = Vec::new();
+    for inline in inlines.iter_mut() {
+        match inline {
+            Inline::InlineSpan(footnote) if footnote.variant == InlineSpanVariant::Footnote => {
+                *count += 1;
+                // deconstruct it
+                let (definition_id, replacement_span, footnote_contents) =
+                    footnote.deconstruct_footnote(*count, document_id);
+                // add the relevant stuff to the return
+                extracted.push(Block::LeafBlock(
+                    LeafBlock::new_footnote_def_from_id_and_inlines(
+                        definition_id,
+                        footnote_contents,
+                    ),
+                ));
+                // put the reference where the span was
+                *inline = replacement_span;
+            }
+            Inline::InlineSpan(span) => {
+                extracted.extend(extract_footnotes(&mut span.inlines, count, document_id))
+            }
+            Inline::InlineRef(inline_ref) => extracted.extend(extract_footnotes(
+                &mut inline_ref.inlines,
+                count,
+                document_id,
+            )),
+            _ => {}
+        }
+    }
+    extracted
+}
+
 #[cfg(test)]
 mod tests {
     use crate::graph::inlines::{
diff --git a/src/graph/lists.rs b/src/graph/lists.rs
index e05409c..154c58d 100644
--- a/src/graph/lists.rs
+++ b/src/graph/lists.rs
@@ -1,6 +1,6 @@
 use crate::errors::BlockError;
 use crate::graph::{
-    blocks::{Block, LeafBlock},
+    blocks::{extract_footnotes, Block},
     inlines::Inline,
     nodes::{Location, NodeTypes},
 };
@@ -117,27 +117,11 @@ impl ListItem {
     ) -> Result<Vec<Block>, BlockError> {
         let mut local_count = count;
         let mut extracted: Vec<Block> = Vec::new();
-        for idx in 0..self.principal.len() {
-            if self.principal[idx].is_footnote() {
-                local_count += 1;
-                let inline_span = self.principal.remove(idx);
-                let Inline::InlineSpan(mut footnote) = inline_span else {
-                    return Err(BlockError::Footnote("Bad is_footnote match".to_string()));
-                };
-                // deconstruct it
-                let (definition_id, replacement_span, footnote_contents) =
-                    footnote.deconstruct_footnote(local_count, document_id);
-                // add the relevant stuff to the return
-                extracted.push(Block::LeafBlock(
-                    LeafBlock::new_footnote_def_from_id_and_inlines(
-                        definition_id,
-                        footnote_contents,
-                    ),
-                ));
-                // put the reference back where the span was
-                self.principal.insert(idx, replacement_span);
-            }
-        }
+        extracted.extend(extract_footnotes(
+            &mut self.principal,
+            &mut local_count,
+            document_id,
+        ));
         for child in self.blocks.iter_mut() {
             let child_footnoes = child.extract_footnote_definitions(local_count, document_id)?;
             local_count += child_footnoes.len();
@@ -252,27 +236,16 @@ impl DListItem {
     ) -> Result<Vec<Block>, BlockError> {
         let mut local_count = count;
         let mut extracted: Vec<Block> = Vec::new();
-        for idx in 0..self.principal.len() {
-            if self.principal[idx].is_footnote() {
-                local_count += 1;
-                let inline_span = self.principal.remove(idx);
-                let Inline::InlineSpan(mut footnote) = inline_span else {
-                    return Err(BlockError::Footnote("Bad is_footnote match".to_string()));
-                };
-                // deconstruct it
-                let (definition_id, replacement_span, footnote_contents) =
-                    footnote.deconstruct_footnote(local_count, document_id);
-                // add the relevant stuff to the return
-                extracted.push(Block::LeafBlock(
-                    LeafBlock::new_footnote_def_from_id_and_inlines(
-                        definition_id,
-                        footnote_contents,
-                    ),
-                ));
-                // put the reference back where the span was
-                self.principal.insert(idx, replacement_span);
-            }
-        }
+        extracted.extend(extract_footnotes(
+            &mut self.terms,
+            &mut local_count,
+            document_id,
+        ));
+        extracted.extend(extract_footnotes(
+            &mut self.principal,
+            &mut local_count,
+            document_id,
+        ));
         for child in self.blocks.iter_mut() {
             let child_footnoes = child.extract_footnote_definitions(local_count, document_id)?;
             local_count += child_footnoes.len();
-- 
2.43.0


From 23b8a773267d1dc229cad2cc00178e77a7427fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:00 +0000
Subject: [PATCH 036/126] fix: keep the words of adjacent blocks apart when
 gathering text

---
 src/graph/blocks.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 3c9bf9e..5eb32cd 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -762,7 +762,7 @@ impl Block {
         }
     }
 
-    /// Returns all literal text in a block
+    /// Returns all literal text in a block, with each of the blocks in it on lines of its own
     pub fn block_text(&self) -> String {
         let mut block_text = String::new();
         match self {
@@ -770,12 +770,18 @@ impl Block {
                 for inline in block.title() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
+                block_text.push('\n');
 
                 for block in block.blocks.iter() {
                     block_text.push_str(&block.block_text())
                 }
             }
             Block::List(list) => {
+                for inline in list.title.iter() {
+                    block_text.push_str(&inline.extract_values_to_string())
+                }
+                block_text.push('\n');
+
                 for item in list.items.iter() {
                     block_text.push_str(&item.block_text())
                 }
@@ -784,20 +790,32 @@ impl Block {
                 for inline in block.principal.iter() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
+                block_text.push('\n');
 
                 for block in block.blocks.iter() {
                     block_text.push_str(&block.block_text())
                 }
             }
             Block::DList(list) => {
+                for inline in list.title.iter() {
+                    block_text.push_str(&inline.extract_values_to_string())
+                }
+                block_text.push('\n');
+
                 for item in list.items.iter() {
                     block_text.push_str(&item.block_text())
                 }
             }
             Block::DListItem(block) => {
+                for inline in block.terms.iter() {
+                    block_text.push_str(&inline.extract_values_to_string())
+                }
+                block_text.push('\n');
+
                 for inline in block.principal.iter() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
+                block_text.push('\n');
 
                 for block in block.blocks.iter() {
                     block_text.push_str(&block.block_text())
@@ -808,13 +826,25 @@ impl Block {
                 for inline in block.caption.iter() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
+                block_text.push('\n');
             }
             Block::LeafBlock(block) => {
+                for inline in block.title.iter() {
+                    block_text.push_str(&inline.extract_values_to_string())
+                }
+                block_text.push('\n');
+
                 for inline in block.inlines.iter() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
+                block_text.push('\n');
             }
             Block::ParentBlock(block) => {
+                for inline in block.title.iter() {
+                    block_text.push_str(&inline.extract_values_to_string())
+                }
+                block_text.push('\n');
+
                 for block in block.blocks.iter() {
                     block_text.push_str(&block.block_text())
                 }
@@ -824,8 +854,9 @@ impl Block {
                 for inline in block.inlines.iter() {
                     block_text.push_str(&inline.extract_values_to_string())
                 }
+                block_text.push('\n');
             }
-            _ => todo!(),
+            _ => {} // remaining blocks don't have literals
         }
         block_text
     }
-- 
2.43.0


From c91709a1234675c820578e3b8450bf0607134938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:35 +0000
Subject: [PATCH 037/126] fix: report conversion and write failures as errors

---
 src/backends/htmls.rs     |  6 ++----
 src/bin/asciidocr/main.rs | 13 ++++++-------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/backends/htmls.rs b/src/backends/htmls.rs
index 81ec4e8..a358982 100644
--- a/src/backends/htmls.rs
+++ b/src/backends/htmls.rs
@@ -21,10 +21,8 @@ fn render_from_templates(
 ) -> Result<String, ConversionError> {
     // from their docs
     let mut tera = Tera::default();
-    tera.add_raw_templates(templates).expect("failure");
-    Ok(tera
-        .render("htmlbook.html.tera", &Context::from_serialize(graph)?)
-        .expect("failure"))
+    tera.add_raw_templates(templates)?;
+    Ok(tera.render("htmlbook.html.tera", &Context::from_serialize(graph)?)?)
 }
 
 fn gather_htmlbook_templates() -> Vec<(&'static str, &'static str)> {
diff --git a/src/bin/asciidocr/main.rs b/src/bin/asciidocr/main.rs
index 87af86f..22b1c7c 100644
--- a/src/bin/asciidocr/main.rs
+++ b/src/bin/asciidocr/main.rs
@@ -45,12 +45,10 @@ fn run(args: Cli) -> Result<()> {
 
     match args.backend {
         Backends::Htmlbook => {
-            render_string(render_htmlbook(&graph)?, read_output(args));
-            Ok(())
+            render_string(render_htmlbook(&graph)?, read_output(args))
         }
         Backends::Json => {
-            render_string(serde_json::to_string_pretty(&graph)?, read_output(args));
-            Ok(())
+            render_string(serde_json::to_string_pretty(&graph)?, read_output(args))
         }
 
         #[cfg(feature = "docx")]
@@ -63,7 +61,7 @@ fn run(args: Cli) -> Result<()> {
             }
 
             if let Some(output_path) = read_output(args) {
-                render_docx(&graph, &output_path).expect("Error rendering docx");
+                render_docx(&graph, &output_path)?;
                 Ok(())
             } else {
                 eprintln!("Error: can't send docx backend to stdout");
@@ -73,9 +71,10 @@ fn run(args: Cli) -> Result<()> {
     }
 }
 
-fn render_string(result: String, output_destination: Option<PathBuf>) {
+fn render_string(result: String, output_destination: Option<PathBuf>) -> Result<()> {
     match output_destination {
-        Some(out_file) => fs::write(out_file, result).expect("Error writng file"),
+        Some(out_file) => fs::write(out_file, result)?,
         None => println!("{}", result),
     }
+    Ok(())
 }
-- 
2.43.0


From 8fb77362f7c8e20df3e9e4730fa4f3894307ff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:35 +0000
Subject: [PATCH 038/126] fix: write every row of a table to docx

---
 src/backends/docx/document.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 52b7353..c7588aa 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -313,12 +313,12 @@ impl DocxWriter {
     fn add_table(&mut self, mut docx: Docx, table: &ParentBlock) -> Result<Docx, DocxRenderError> {
         // TODO: headers on tables
         docx = self.set_style(docx, DocumentStyles::Table)?;
-        let mut cols: usize = 0;
+        let mut cols: usize = 1;
         if let Some(ref metadata) = table.metadata {
             if let Some(col_num) = metadata.attributes.get("cols") {
                 cols = match col_num.parse() {
-                    Ok(c) => c,
-                    Err(_) => return Err(DocxRenderError::ColumnError),
+                    Ok(c) if c > 0 => c,
+                    _ => return Err(DocxRenderError::ColumnError),
                 }
             }
         }
@@ -331,7 +331,7 @@ impl DocxWriter {
             let cell = TableCell::new().add_paragraph(para);
             current_row.push(cell);
             // see if we need a new row
-            if idx > 0 && (idx + 1) % cols == 0 && idx + 1 != num_cells {
+            if (idx + 1) % cols == 0 || idx + 1 == num_cells {
                 rows.push(TableRow::new(current_row.clone()));
                 current_row.clear()
             }
-- 
2.43.0


From 31871fddd18902c3321dd44e1bd9b9b1adf0c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:35 +0000
Subject: [PATCH 039/126] fix: only create the docx file once its contents are
 known

---
 src/backends/docx/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backends/docx/mod.rs b/src/backends/docx/mod.rs
index 1ae0ac2..17097c7 100644
--- a/src/backends/docx/mod.rs
+++ b/src/backends/docx/mod.rs
@@ -15,7 +15,6 @@ use self::document::DocxRenderError;
 
 /// !Experimental! Renders a Docx file. Some [`Asg`] blocks are still unsupported.
 pub fn render_docx(graph: &Asg, output_path: &Path) -> Result<(), ConversionError> {
-    let file = File::create(output_path).unwrap();
     let mut writer = document::DocxWriter::new();
     let mut docx = document::asciidocr_default_docx();
 
@@ -32,6 +31,7 @@ pub fn render_docx(graph: &Asg, output_path: &Path) -> Result<(), ConversionErro
     for block in graph.blocks.iter() {
         docx = writer.add_block_to_doc(docx, block)?
     }
+    let file = File::create(output_path).map_err(DocxRenderError::FileError)?;
     match docx.build().pack(file) {
         Ok(_) => Ok(()),
         Err(_) => Err(ConversionError::DocxRender(DocxRenderError::ZipFileError)),
-- 
2.43.0


From 9eabbc90cfa1975b37a5e813e523fb4266a789f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:35 +0000
Subject: [PATCH 040/126] fix: only format the inlines inside of a span in docx

---
 src/backends/docx/document.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index c7588aa..48f869c 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -2,7 +2,7 @@ use std::{fs::File, io::Read};
 
 use docx_rs::{
     BreakType, Docx, Header, IndentLevel, LineSpacing, Numbering, NumberingId, PageMargin, PageNum,
-    Paragraph, Pic, Run, RunFonts, RunProperty, Style, Table, TableCell, TableRow, VertAlignType,
+    Paragraph, Pic, Run, RunFonts, Style, Table, TableCell, TableRow, VertAlignType,
 };
 use once_cell::sync::Lazy;
 use regex::Regex;
@@ -444,11 +444,11 @@ impl DocxWriter {
                             InlineSpanVariant::Mark => run = run.highlight("yellow"),
                             InlineSpanVariant::Subscript => {
                                 run.run_property =
-                                    RunProperty::new().vert_align(VertAlignType::SubScript)
+                                    run.run_property.vert_align(VertAlignType::SubScript)
                             }
                             InlineSpanVariant::Superscript => {
                                 run.run_property =
-                                    RunProperty::new().vert_align(VertAlignType::SuperScript)
+                                    run.run_property.vert_align(VertAlignType::SuperScript)
                             }
                             InlineSpanVariant::Footnote => {
                                 eprintln!(
@@ -466,6 +466,8 @@ impl DocxWriter {
                 for inline in span.inlines.iter() {
                     runs.extend(self.runs_from_inline_with_variant(inline, variants))
                 }
+                // what follows isn't in the span
+                variants.pop();
             }
             Inline::InlineBreak(_) => {
                 runs.push(Run::new().add_break(BreakType::TextWrapping));
-- 
2.43.0


From 151bde4bd980c09d649ae15e0687c88875f453f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:35 +0000
Subject: [PATCH 041/126] fix: show the target of links without text in docx

---
 src/backends/docx/document.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 48f869c..abcf327 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -410,6 +410,9 @@ impl DocxWriter {
             Inline::InlineRef(iref) => {
                 // for now, just append the text; we can handle the actual linking later, as that's
                 // more complicated
+                if iref.inlines.is_empty() {
+                    runs.push(Run::new().add_text(iref.target.clone()))
+                }
                 for inline in iref.inlines.iter() {
                     runs.extend(self.runs_from_inline_with_variant(inline, &mut variants))
                 }
@@ -476,6 +479,9 @@ impl DocxWriter {
             Inline::InlineRef(iref) => {
                 // for now, just append the text; we can handle the actual linking later, as that's
                 // more complicated
+                if iref.inlines.is_empty() {
+                    runs.push(Run::new().add_text(iref.target.clone()))
+                }
                 for inline in iref.inlines.iter() {
                     runs.extend(self.runs_from_inline_with_variant(inline, variants))
                 }
-- 
2.43.0


From 04f50a21ae6ee7b10141db319bb016b0bf7bcfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:00 +0000
Subject: [PATCH 042/126] fix: write block titles and each block in a list item
 to docx

---
 src/backends/docx/document.rs | 44 ++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index abcf327..819a3c3 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -84,6 +84,15 @@ impl DocxWriter {
         }
     }
 
+    /// Adds a block's title, if it has one, as a paragraph of its own
+    fn add_title(&mut self, docx: Docx, title: &[Inline]) -> Result<Docx, DocxRenderError> {
+        if title.is_empty() {
+            return Ok(docx);
+        }
+        let para = self.add_inlines_to_para(Paragraph::new(), title.to_vec());
+        self.add_paragraph(docx, para)
+    }
+
     fn add_paragraph(&mut self, docx: Docx, mut para: Paragraph) -> Result<Docx, DocxRenderError> {
         if self.page_break_before {
             para = para.page_break_before(true);
@@ -106,6 +115,7 @@ impl DocxWriter {
             Block::List(list) => docx = self.add_list(docx, list)?,
             Block::ListItem(item) => docx = self.add_list_item(docx, item)?,
             Block::DList(list) => {
+                docx = self.add_title(docx, &list.title)?;
                 for item in list.items.iter() {
                     docx = self.add_block_to_doc(docx, item)?
                 }
@@ -122,6 +132,7 @@ impl DocxWriter {
                 }
             },
             Block::LeafBlock(block) => {
+                docx = self.add_title(docx, &block.title)?;
                 match block.name {
                     LeafBlockName::Verse => {
                         docx = self.set_style(docx, DocumentStyles::Verse)?;
@@ -146,6 +157,7 @@ impl DocxWriter {
                     docx = self.add_parent_block(docx, parent, "Sidebar")?
                 }
                 ParentBlockName::Open => {
+                    docx = self.add_title(docx, &parent.title)?;
                     for child in parent.blocks.iter() {
                         docx = self.add_block_to_doc(docx, child)?
                     }
@@ -165,6 +177,7 @@ impl DocxWriter {
     }
 
     fn add_list(&mut self, mut docx: Docx, list: &List) -> Result<Docx, DocxRenderError> {
+        docx = self.add_title(docx, &list.title)?;
         self.numbering += 1;
         match list.variant {
             ListVariant::Ordered | ListVariant::Callout => {
@@ -215,9 +228,31 @@ impl DocxWriter {
         mut docx: Docx,
         block: &Block,
     ) -> Result<Docx, DocxRenderError> {
-        let mut para = Paragraph::new().style(&self.current_style.style_id());
-        para = self.add_inlines_to_para(para, block.inlines());
-        docx = self.add_paragraph(docx, para)?;
+        let (inlines, children) = match block {
+            Block::ParentBlock(parent) => (parent.title.clone(), parent.blocks.clone()),
+            Block::List(list) => (list.title.clone(), list.items.clone()),
+            Block::DList(list) => (list.title.clone(), list.items.clone()),
+            Block::ListItem(item) => (item.principal(), item.blocks()),
+            Block::DListItem(item) => {
+                let mut para = Paragraph::new().style(&self.current_style.style_id());
+                para = self.add_inlines_to_para(para, item.terms());
+                docx = self.add_paragraph(docx, para)?;
+                (item.principal(), item.blocks.clone())
+            }
+            Block::LeafBlock(leaf) => {
+                docx = self.add_title(docx, &leaf.title)?;
+                (leaf.inlines(), vec![])
+            }
+            _ => (block.inlines(), vec![]),
+        };
+        if !inlines.is_empty() {
+            let mut para = Paragraph::new().style(&self.current_style.style_id());
+            para = self.add_inlines_to_para(para, inlines);
+            docx = self.add_paragraph(docx, para)?;
+        }
+        for child in children.iter() {
+            docx = self.add_block_to_list_item(docx, child)?
+        }
         Ok(docx)
     }
 
@@ -293,6 +328,7 @@ impl DocxWriter {
     }
 
     fn add_quote(&mut self, mut docx: Docx, parent: &ParentBlock) -> Result<Docx, DocxRenderError> {
+        docx = self.add_title(docx, &parent.title)?;
         docx = self.set_style(docx, DocumentStyles::Quote)?;
         for child in parent.blocks.iter() {
             docx = self.add_block_to_doc(docx, child)?
@@ -312,6 +348,7 @@ impl DocxWriter {
 
     fn add_table(&mut self, mut docx: Docx, table: &ParentBlock) -> Result<Docx, DocxRenderError> {
         // TODO: headers on tables
+        docx = self.add_title(docx, &table.title)?;
         docx = self.set_style(docx, DocumentStyles::Table)?;
         let mut cols: usize = 1;
         if let Some(ref metadata) = table.metadata {
@@ -350,6 +387,7 @@ impl DocxWriter {
             let _ = img.read_to_end(&mut buf)?;
             let pic = Pic::new(&buf);
             docx = docx.add_paragraph(Paragraph::new().add_run(Run::new().add_image(pic)));
+            docx = self.add_title(docx, &block.caption)?;
         } else {
             todo!()
         }
-- 
2.43.0


From bd69ed17d2cc8c9a7a7a4ec860bdb943b24de83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:02 +0000
Subject: [PATCH 043/126] fix: combine roles with roles when merging metadata

---
 src/graph/metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 2c89809..69f9f80 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -167,7 +167,7 @@ impl ElementMetadata {
         }
         // combine options and roles
         self.options.extend(incoming.options.clone());
-        self.roles.extend(incoming.options.clone());
+        self.roles.extend(incoming.roles.clone());
     }
 
     pub fn process_attributes(&mut self, mut attributes: Vec<String>) {
-- 
2.43.0


From 5c3b5d43a130591521b9eb25a44b4cf80efd8bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:15 +0000
Subject: [PATCH 044/126] fix: resolve targets against a directory given as the
 origin, and drop unreachable panics

---
 src/graph/inlines.rs |  3 +--
 src/parser.rs        | 21 ++++++++-------------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index e4c5ee5..640d90b 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -224,7 +224,6 @@ impl Inline {
     pub fn trim(&mut self) {
         if let Inline::InlineLiteral(inline) = self {
             inline.value = inline.value.trim().to_string();
-            println!("{:?}", inline.value)
         }
     }
 
@@ -233,7 +232,7 @@ impl Inline {
             Inline::InlineRef(inline) => inline.inlines.is_empty(),
             Inline::InlineSpan(inline) => inline.inlines.is_empty(),
             Inline::InlineLiteral(inline) => inline.value.is_empty(),
-            Inline::InlineBreak(_) => todo!(), // shouldn't ever be called
+            Inline::InlineBreak(_) => false
         }
     }
 
diff --git a/src/parser.rs b/src/parser.rs
index c547903..bf7d4b4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -93,10 +93,11 @@ impl Parser {
     /// of STDIN (`-`)) or the parent of the provided asciidoc file; this origin is required for
     /// correct `include::` directive resolution.
     pub fn new(origin: PathBuf) -> Self {
-        let origin_directory = origin
-            .parent()
-            .unwrap_or(&env::current_dir().unwrap())
-            .to_path_buf();
+        let origin_directory = if origin.is_dir() {
+            origin
+        } else {
+            origin.parent().map(|dir| dir.to_path_buf()).unwrap_or_default()
+        };
         Parser {
             origin_directory,
             last_token_type: TokenType::Eof,
@@ -363,7 +364,8 @@ impl Parser {
                 }
                 Ok(())
             }
-            TokenType::Email => todo!()
+            // not supported as such
+            TokenType::Email => self.parse_text(token),
         }
     }
 
@@ -936,14 +938,7 @@ impl Parser {
     }
 
     fn parse_code_callout(&mut self, token: Token) -> Result<(), ParserError> {
-        if let Some(value) = self.document_attributes.get("icons") {
-            if value == "true" {
-                if let Some(_last_inline) = self.inline_stack.back_mut() {
-                    // handle deleting comment markup, IF we're handling icons
-                    todo!();
-                }
-            }
-        }
+        // TK handle deleting comment markup, IF we're handling icons
         self.inline_stack
             .push_back(Inline::InlineSpan(InlineSpan::inline_span_from_token(
                 token,
-- 
2.43.0


From b429d26c1e8fb3b02709e49c6b293176bbe2c238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:15 +0000
Subject: [PATCH 045/126] fix: keep the role of a callout list that has
 attributes

---
 src/graph/blocks.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 5eb32cd..87074db 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -731,7 +731,11 @@ impl Block {
         }
         match self {
             Block::Section(block) => block.metadata = Some(metadata),
-            Block::List(block) => block.metadata = Some(metadata),
+            Block::List(block) => match block.metadata {
+                // code callout lists have a role to begin with
+                Some(ref mut extant) => extant.add_metadata_from_other(&metadata),
+                None => block.metadata = Some(metadata),
+            },
             Block::ListItem(block) => block.metadata = Some(metadata),
             Block::DList(block) => block.metadata = Some(metadata),
             Block::DListItem(block) => block.metadata = Some(metadata),
-- 
2.43.0


From 60b75de2bda001d43e45f79330b04dcf42808af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:39 +0000
Subject: [PATCH 046/126] fix: keep the contents of inline passthroughs apart
 from text

---
 src/graph/inlines.rs | 53 ++++++++++++++++++++++++++------------------
 src/parser.rs        | 15 ++++++++-----
 2 files changed, 41 insertions(+), 27 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 640d90b..e671c6b 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -478,10 +478,12 @@ impl InlineSpan {
             }
         } else {
             // combine literals if necessary
-            if matches!(inline, Inline::InlineLiteral(_)) {
+            if let Inline::InlineLiteral(ref literal) = inline {
                 if let Some(Inline::InlineLiteral(prior_literal)) = self.inlines.last_mut() {
-                    prior_literal.add_text_from_inline_literal(inline);
-                    return;
+                    if prior_literal.is_raw() == literal.is_raw() {
+                        prior_literal.add_text_from_inline_literal(inline);
+                        return;
+                    }
                 }
             }
             self.inlines.push(inline);
@@ -664,29 +666,23 @@ impl InlineRef {
     }
 
     pub fn add_text_from_token(&mut self, token: Token) {
-        self.text_from_token(token, false);
-    }
-
-    pub fn pass_text_from_token(&mut self, token: Token) {
-        self.text_from_token(token, true);
+        self.add_literal(InlineLiteral::new_text_from_token(&token));
     }
 
-    fn text_from_token(&mut self, token: Token, pass: bool) {
-        let inline_literal = Inline::InlineLiteral(match pass {
-            true => InlineLiteral::new_text_from_token_pass(&token),
-            false => InlineLiteral::new_text_from_token(&token),
-        });
+    pub fn add_literal(&mut self, literal: InlineLiteral) {
         if let Some(last_inline) = self.inlines.last_mut() {
             match last_inline {
-                Inline::InlineSpan(span) => span.add_inline(inline_literal),
-                Inline::InlineLiteral(prior_literal) if prior_literal.is_text() => match pass {
-                    true => prior_literal.pass_text_from_token(&token),
-                    false => prior_literal.add_text_from_token(&token),
-                },
-                _ => self.inlines.push(inline_literal),
+                Inline::InlineSpan(span) => span.add_inline(Inline::InlineLiteral(literal)),
+                Inline::InlineLiteral(prior_literal)
+                    if prior_literal.name == literal.name
+                        && literal.name != InlineLiteralName::Charref =>
+                {
+                    prior_literal.combine_literals(literal)
+                }
+                _ => self.inlines.push(Inline::InlineLiteral(literal)),
             }
         } else {
-            self.inlines.push(inline_literal)
+            self.inlines.push(Inline::InlineLiteral(literal))
         }
     }
 }
@@ -735,6 +731,15 @@ impl InlineLiteral {
         )
     }
 
+    /// The contents of an inline passthrough, which end up in the output as they are
+    pub fn new_raw_from_token(token: &Token) -> Self {
+        InlineLiteral::new(
+            InlineLiteralName::Raw,
+            token.lexeme.clone(),
+            token.locations(),
+        )
+    }
+
     /// Add text and reconcile location information from a given (text) token
     pub fn add_text_from_token(&mut self, token: &Token) {
         self.text_from_token(token, false);
@@ -783,10 +788,14 @@ impl InlineLiteral {
         self.value == *"\n"
     }
 
-    fn is_text(&self) -> bool {
+    pub fn is_text(&self) -> bool {
         matches!(self.name, InlineLiteralName::Text)
     }
 
+    fn is_raw(&self) -> bool {
+        matches!(self.name, InlineLiteralName::Raw)
+    }
+
     pub fn value_or_refd_char(&self) -> String {
         // In HTML these just get passed through, but for certain outputs we want to do replacements. This
         // is obviously an incomplete table.
@@ -802,7 +811,7 @@ impl InlineLiteral {
     }
 }
 
-#[derive(Serialize, Clone, Debug)]
+#[derive(Serialize, PartialEq, Clone, Debug)]
 #[serde(rename_all = "lowercase")]
 pub enum InlineLiteralName {
     Text,
diff --git a/src/parser.rs b/src/parser.rs
index bf7d4b4..01b2cad 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -19,7 +19,7 @@ use crate::{
     graph::{
         asg::Asg,
         blocks::{Block, BlockMacro, Break, LeafBlock, ParentBlock, ParentBlockName, Section, TableCell},
-        inlines::{Inline, InlineLiteral, InlineLiteralName, InlineRef, InlineSpan, LineBreak},
+        inlines::{Inline, InlineLiteral, InlineRef, InlineSpan, LineBreak},
         lists::{DList, DListItem, List, ListItem, ListVariant},
         metadata::{AttributeType, ElementMetadata},
         nodes::{Header, Location},
@@ -1241,7 +1241,7 @@ impl Parser {
                     }
                 }
                 Inline::InlineLiteral(prior_literal) => {
-                    if matches!(prior_literal.name, InlineLiteralName::Charref)
+                    if !prior_literal.is_text()
                         || (preserve_newline_text && prior_literal.is_newline())
                     {
                         self.inline_stack.push_back(inline_literal)
@@ -1267,7 +1267,12 @@ impl Parser {
     }
 
     fn pass_text_to_last_inline(&mut self, token: Token) {
-        let inline_literal = Inline::InlineLiteral(InlineLiteral::new_text_from_token_pass(&token));
+        // what's in a passthrough macro is for the output, rather than text
+        let literal = match self.open_parse_after_as_text_type {
+            Some(TokenType::PassthroughInlineMacro) => InlineLiteral::new_raw_from_token(&token),
+            _ => InlineLiteral::new_text_from_token_pass(&token),
+        };
+        let inline_literal = Inline::InlineLiteral(literal.clone());
         let preserve_newline_text = self.in_description_list();
         if let Some(last_inline) = self.inline_stack.back_mut() {
             match last_inline {
@@ -1279,7 +1284,7 @@ impl Parser {
                     }
                 }
                 Inline::InlineLiteral(prior_literal) => {
-                    if matches!(prior_literal.name, InlineLiteralName::Charref)
+                    if prior_literal.name != literal.name
                         || (preserve_newline_text && prior_literal.is_newline())
                     {
                         self.inline_stack.push_back(inline_literal)
@@ -1289,7 +1294,7 @@ impl Parser {
                 }
                 Inline::InlineRef(inline_ref) => {
                     if inline_ref.open {
-                        inline_ref.pass_text_from_token(token)
+                        inline_ref.add_literal(literal)
                     } else {
                         self.inline_stack.push_back(inline_literal)
                     }
-- 
2.43.0


From 6802846424289729ab2ff787068386bc8b141cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:48 +0000
Subject: [PATCH 047/126] fix: treat inline passthroughs that are never closed
 as text

---
 src/parser.rs | 60 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 01b2cad..4650694 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -60,6 +60,8 @@ pub struct Parser {
     /// appends text to block or inline regardless of markup, token, etc. (will need to change
     /// if/when we handle code callouts)
     open_parse_after_as_text_type: Option<TokenType>,
+    /// holds an inline passthrough and what's in it, until we know that it's closed
+    passthrough_tokens: Vec<Token>,
     /// tracks the document heading level offset
     level_offset: i8,
     /// designates whether we're in a heading or a block title, i.e., something that ends with the
@@ -113,6 +115,7 @@ impl Parser {
             level_offset: 0,
             in_block_line: false,
             open_parse_after_as_text_type: None,
+            passthrough_tokens: vec![],
             force_new_block: false,
             dangling_newline: None,
             resolve_targets: true,
@@ -175,16 +178,28 @@ impl Parser {
                     }
                 }
                 TokenType::PassthroughInlineMacro => {
-                    if [
-                        TokenType::PassthroughInlineMacro,
-                        TokenType::InlineMacroClose,
-                    ]
-                    .contains(&token.token_type())
-                    {
-                        self.open_parse_after_as_text_type = Some(token_type)
-                    } else {
-                        self.pass_text_through(token)?;
-                        return Ok(());
+                    let is_newline = |token: &Token| token.token_type() == TokenType::NewLineChar;
+                    match token.token_type() {
+                        TokenType::InlineMacroClose => {
+                            for passed in std::mem::take(&mut self.passthrough_tokens).drain(1..) {
+                                self.pass_text_through(passed)?
+                            }
+                        }
+                        // a macro that isn't closed in its paragraph isn't a macro
+                        TokenType::Eof => {
+                            self.abandon_passthrough(asg)?;
+                            return self.token_into(token, asg);
+                        }
+                        TokenType::NewLineChar
+                            if self.passthrough_tokens.last().is_some_and(is_newline) =>
+                        {
+                            self.abandon_passthrough(asg)?;
+                            return self.token_into(token, asg);
+                        }
+                        _ => {
+                            self.passthrough_tokens.push(token);
+                            return Ok(());
+                        }
                     }
                 }
                 TokenType::PassthroughBlock | TokenType::LiteralBlock | TokenType::CommentBlock => {
@@ -880,6 +895,22 @@ impl Parser {
 
     fn parse_passthrough_inline_macro(&mut self, token: Token) -> Result<(), ParserError> {
         self.open_parse_after_as_text_type = Some(token.token_type());
+        self.passthrough_tokens = vec![token];
+        Ok(())
+    }
+
+    /// Treats an inline passthrough that was never closed as text, and what's after it as usual
+    fn abandon_passthrough(&mut self, asg: &mut Asg) -> Result<(), ParserError> {
+        self.open_parse_after_as_text_type = None;
+        let mut tokens = std::mem::take(&mut self.passthrough_tokens).into_iter();
+        if let Some(opening) = tokens.next() {
+            self.parse_text(opening)?
+        }
+        for token in tokens {
+            let token_type = token.token_type();
+            self.token_into(token, asg)?;
+            self.last_token_type = token_type;
+        }
         Ok(())
     }
 
@@ -1095,7 +1126,14 @@ impl Parser {
                     // case my vague memory of multi-line cells is correct
                     inline_token.update_token_loc_offsets_by(cell_line, cell_col);
                     match inline_token.token_type() {
-                        TokenType::Eof => {}
+                        TokenType::Eof => {
+                            while !self.passthrough_tokens.is_empty() {
+                                self.abandon_passthrough(asg)?
+                            }
+                        }
+                        _ if !self.passthrough_tokens.is_empty() => {
+                            self.token_into(inline_token, asg)?
+                        }
                         // block markup has no meaning inside of a cell
                         token_type if !inline_token.is_inline() || token_type == TokenType::Comment => {
                             self.parse_text(inline_token)?
-- 
2.43.0


From 050b60476c7c87b7dae354096ff44ad44249a583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:41 +0000
Subject: [PATCH 048/126] fix: escape text and attribute values in html

---
 src/backends/htmls.rs                   | 46 ++++++++++++++++++++++++-
 templates/htmlbook/block.html.tera      | 14 ++++----
 templates/htmlbook/inline.html.tera     | 18 +++++++---
 templates/htmlbook/leafblocks.html.tera | 14 +++++---
 4 files changed, 75 insertions(+), 17 deletions(-)

diff --git a/src/backends/htmls.rs b/src/backends/htmls.rs
index a358982..b7f56df 100644
--- a/src/backends/htmls.rs
+++ b/src/backends/htmls.rs
@@ -1,4 +1,8 @@
-use tera::{Context, Tera};
+use std::collections::HashMap;
+
+use once_cell::sync::Lazy;
+use regex::Regex;
+use tera::{Context, Tera, Value};
 
 use crate::errors::ConversionError;
 use crate::graph::asg::Asg;
@@ -9,6 +13,10 @@ static LEAF_BLOCKS_TEMPLATE: &str = include_str!("../../templates/htmlbook/leafb
 static TABLES_TEMPLATE: &str = include_str!("../../templates/htmlbook/tables.html.tera");
 static INLINES_TEMPLATE: &str = include_str!("../../templates/htmlbook/inline.html.tera");
 
+/// A special character, or a character reference (which are kept)
+static RE_SPECIAL_CHARS: Lazy<Regex> =
+    Lazy::new(|| Regex::new(r"&(?:#\d+|#[xX][\da-fA-F]+|[a-zA-Z][\da-zA-Z]*);|[&<>]").unwrap());
+
 /// Renders HTMLBook, which is HTML5 compliant, and includes no styles and no extraneous `<div>`
 /// enclosure. Useful when you just want a "plain" HTML representation.
 pub fn render_htmlbook(graph: &Asg) -> Result<String, ConversionError> {
@@ -21,6 +29,9 @@ fn render_from_templates(
 ) -> Result<String, ConversionError> {
     // from their docs
     let mut tera = Tera::default();
+    tera.register_filter("escape_text", escape_text);
+    tera.register_filter("escape_verbatim", escape_verbatim);
+    tera.register_filter("escape_attribute", escape_attribute);
     tera.add_raw_templates(templates)?;
     Ok(tera.render("htmlbook.html.tera", &Context::from_serialize(graph)?)?)
 }
@@ -34,3 +45,36 @@ fn gather_htmlbook_templates() -> Vec<(&'static str, &'static str)> {
         ("inline.html.tera", INLINES_TEMPLATE),
     ]
 }
+
+fn escape_char(special: &str) -> String {
+    match special {
+        "&" => "&amp;".into(),
+        "<" => "&lt;".into(),
+        ">" => "&gt;".into(),
+        _ => special.into(),
+    }
+}
+
+/// Escapes what would otherwise be markup, apart from character references
+fn escape_text(value: &Value, _: &HashMap<String, Value>) -> tera::Result<Value> {
+    let text = value.as_str().unwrap_or_default();
+    Ok(RE_SPECIAL_CHARS
+        .replace_all(text, |special: &regex::Captures| escape_char(&special[0]))
+        .into())
+}
+
+/// Escapes everything that would otherwise be markup
+fn escape_verbatim(value: &Value, _: &HashMap<String, Value>) -> tera::Result<Value> {
+    let text = value.as_str().unwrap_or_default();
+    Ok(text
+        .replace('&', "&amp;")
+        .replace('<', "&lt;")
+        .replace('>', "&gt;")
+        .into())
+}
+
+/// Escapes a value between double quotes
+fn escape_attribute(value: &Value, args: &HashMap<String, Value>) -> tera::Result<Value> {
+    let escaped = escape_text(value, args)?;
+    Ok(escaped.as_str().unwrap_or_default().replace('"', "&quot;").into())
+}
diff --git a/templates/htmlbook/block.html.tera b/templates/htmlbook/block.html.tera
index e34e912..c416e55 100644
--- a/templates/htmlbook/block.html.tera
+++ b/templates/htmlbook/block.html.tera
@@ -28,8 +28,8 @@ this should work.
 {%- else -%}
 {%- if block.name == "section" -%}
 <section data-type="sect{{block.level}}"
-        {%- if block.metadata.roles %} class="{{ block.metadata.roles | join(sep=" ")}}" {%- endif -%}
-        {%- if block.metadata.attributes.id %} id="{{ block.metadata.attributes.id }}" {%- endif -%}>
+        {%- if block.metadata.roles %} class="{{ block.metadata.roles | join(sep=" ") | escape_attribute }}" {%- endif -%}
+        {%- if block.metadata.attributes.id %} id="{{ block.metadata.attributes.id | escape_attribute }}" {%- endif -%}>
     {%- elif block.name == "dlist" -%}
     {%- set tag = "dl" -%}
     {%- elif block.name == "list" -%}
@@ -76,9 +76,9 @@ this should work.
         <h5>{%- for inline in block.title -%}{{- inline_macros::process_inline(inline=inline) -}}{%- endfor -%}</h5>
         {% endif -%}
         {%- if tag and not skip_tag -%}<{{tag}}
-    {%- if block.metadata.roles and not block.name=="section" %} class="{{ block.metadata.roles | join(sep=" ")}}" {%- endif -%}
+    {%- if block.metadata.roles and not block.name=="section" %} class="{{ block.metadata.roles | join(sep=" ") | escape_attribute }}" {%- endif -%}
     {%- if code_language %} data-code-language="{{ code_language }}" {%- endif -%}
-    {%- if id %} id="{{ id }}" {%- endif -%}
+    {%- if id %} id="{{ id | escape_attribute }}" {%- endif -%}
     {%- if data_type %} data-type="{{ data_type }}"{%- endif -%}>{%- endif -%}
         {%- if block.title and block.name not in ["list", "dlist"] -%}
             {%- if block.name in ["example", "sidebar"]-%}
@@ -90,7 +90,7 @@ this should work.
         {%- endfor -%}</h{{title_heading_level}}>
         {% endif -%}
         {%- if block.name == "image" %}
-        <img src="{{block.target}}"{%- if alt_text %} alt="{{alt_text}}"{%- endif -%} />
+        <img src="{{block.target | escape_attribute}}"{%- if alt_text %} alt="{{alt_text | escape_attribute}}"{%- endif -%} />
         {%- if block.caption %}
         <figcaption>{%- for inline in block.caption -%}
             {{- inline_macros::process_inline(inline=inline) -}}
@@ -118,8 +118,8 @@ this should work.
         {%- endfor -%}
         {% endif -%}
     {%- if block.metadata.attributes.attribution -%}
-    <p data-type="attribution">{{block.metadata.attributes.attribution}}
-        {%- if block.metadata.attributes.citation -%}, {{block.metadata.attributes.citation}}
+    <p data-type="attribution">{{block.metadata.attributes.attribution | escape_text}}
+        {%- if block.metadata.attributes.citation -%}, {{block.metadata.attributes.citation | escape_text}}
         {%- endif -%}
     </p>
     {%- endif -%}
diff --git a/templates/htmlbook/inline.html.tera b/templates/htmlbook/inline.html.tera
index 468ec46..c1f4841 100644
--- a/templates/htmlbook/inline.html.tera
+++ b/templates/htmlbook/inline.html.tera
@@ -1,4 +1,5 @@
-{%- macro process_inline(inline) -%}
+{#- The mode is that of the text: "text", "verbatim" (listings, literals), or "pass" -#}
+{%- macro process_inline(inline, mode="text") -%}
 {%- if inline.name == "linebreak" -%}
     <br />
 {%- else -%}
@@ -32,10 +33,11 @@
             {%- set self_close = True -%}
             {%- set target_attr = "src" -%}
         {%- endif -%}
-        {%- set target = target_attr ~ '="' ~ ref ~ '"' -%}
+        {%- set escaped_ref = ref | escape_attribute -%}
+        {%- set target = target_attr ~ '="' ~ escaped_ref ~ '"' -%}
     {%- endif -%}
 {%- if inline_tag -%}<{{inline_tag}}
-    {%- if inline.metadata.roles %} class="{{inline.metadata.roles | join(sep=" ")}}"
+    {%- if inline.metadata.roles %} class="{{inline.metadata.roles | join(sep=" ") | escape_attribute}}"
     {%- endif -%}
     {%- if data_type %} data-type="{{data_type}}"
     {%- endif -%}
@@ -46,14 +48,20 @@
         {#- Handle recursion -#}
             {%- if inline.inlines -%}
                 {%- for child in inline.inlines -%}
-                    {{- self::process_inline(inline=child) -}}
+                    {{- self::process_inline(inline=child, mode=mode) -}}
                 {%- endfor -%}
     {%- elif inline.variant -%}
         {%- if inline.variant == "xref" or inline.variant == "link" -%}
-                {{ref}} {#- putting the ref in as text for now-#}
+                {{ref | escape_text}} {#- putting the ref in as text for now-#}
             {%- endif -%}
             {%- elif inline.value -%}
+                {%- if inline.name != "text" or mode == "pass" -%}
                 {{- inline.value -}}
+                {%- elif mode == "verbatim" -%}
+                {{- inline.value | escape_verbatim -}}
+                {%- else -%}
+                {{- inline.value | escape_text -}}
+                {%- endif -%}
             {%- endif -%}
     {%- if inline_tag -%}</{{inline_tag}}>{%- endif -%}
     {%- endif -%}
diff --git a/templates/htmlbook/leafblocks.html.tera b/templates/htmlbook/leafblocks.html.tera
index 1ace98b..1674da2 100644
--- a/templates/htmlbook/leafblocks.html.tera
+++ b/templates/htmlbook/leafblocks.html.tera
@@ -23,17 +23,23 @@
         {%- set tag = "pre" -%}
     {% elif block.name == "pass" -%}
     {%- endif -%}
+    {%- set mode = "text" -%}
+    {%- if block.name in ["listing", "literal"] -%}
+    {%- set mode = "verbatim" -%}
+    {%- elif block.name == "pass" -%}
+    {%- set mode = "pass" -%}
+    {%- endif -%}
 {%- if block.title -%}
 <h5>{%- for inline in block.title -%}{{- inline_macros::process_inline(inline=inline) -}}{%- endfor -%}</h5>
 {% endif -%}
 {%- if tag -%}<{{tag}}
-{%- if block.metadata.roles %} class="{{ block.metadata.roles | join(sep=" ")}}" {%- endif -%}
-{%- if code_language %} data-code-language="{{ code_language }}" {%- endif -%}
-{%- if id %} id="{{ id }}" {%- endif -%}
+{%- if block.metadata.roles %} class="{{ block.metadata.roles | join(sep=" ") | escape_attribute }}" {%- endif -%}
+{%- if code_language %} data-code-language="{{ code_language | escape_attribute }}" {%- endif -%}
+{%- if id %} id="{{ id | escape_attribute }}" {%- endif -%}
 {%- if data_type %} data-type="{{ data_type }}"{%- endif -%}>{%- endif -%}
     {% if block.inlines %}
     {%- for inline in block.inlines -%}
-    {{- inline_macros::process_inline(inline=inline) -}}
+    {{- inline_macros::process_inline(inline=inline, mode=mode) -}}
     {%- endfor -%}
     {%- endif -%}
 {%- if tag -%}</{{tag}}>{%- endif -%}
-- 
2.43.0


From 5ea890e769fb8e061c31ed4a02cdab156612aedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:12:57 +0000
Subject: [PATCH 049/126] fix: give every block its id, and tables their title
 and roles, in html

---
 templates/htmlbook/block.html.tera      | 5 +----
 templates/htmlbook/leafblocks.html.tera | 2 +-
 templates/htmlbook/tables.html.tera     | 8 +++++++-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/templates/htmlbook/block.html.tera b/templates/htmlbook/block.html.tera
index c416e55..9db0329 100644
--- a/templates/htmlbook/block.html.tera
+++ b/templates/htmlbook/block.html.tera
@@ -63,9 +63,6 @@ this should work.
         {%- if block.metadata.attributes.positional_1 -%}
         {%- set alt_text = block.metadata.attributes.positional_1 -%}
         {%- endif -%}
-        {%- if block.metadata.attributes.id -%}
-        {%- set id = block.metadata.attributes.id -%}
-        {%- endif -%}
     {% elif block.name == "sidebar" -%}
         {%- set tag = "aside" -%}
         {%- set data_type = "sidebar" -%}
@@ -78,7 +75,7 @@ this should work.
         {%- if tag and not skip_tag -%}<{{tag}}
     {%- if block.metadata.roles and not block.name=="section" %} class="{{ block.metadata.roles | join(sep=" ") | escape_attribute }}" {%- endif -%}
     {%- if code_language %} data-code-language="{{ code_language }}" {%- endif -%}
-    {%- if id %} id="{{ id | escape_attribute }}" {%- endif -%}
+    {%- if block.metadata.attributes.id and not block.name=="section" %} id="{{ block.metadata.attributes.id | escape_attribute }}" {%- endif -%}
     {%- if data_type %} data-type="{{ data_type }}"{%- endif -%}>{%- endif -%}
         {%- if block.title and block.name not in ["list", "dlist"] -%}
             {%- if block.name in ["example", "sidebar"]-%}
diff --git a/templates/htmlbook/leafblocks.html.tera b/templates/htmlbook/leafblocks.html.tera
index 1674da2..52ff173 100644
--- a/templates/htmlbook/leafblocks.html.tera
+++ b/templates/htmlbook/leafblocks.html.tera
@@ -35,7 +35,7 @@
 {%- if tag -%}<{{tag}}
 {%- if block.metadata.roles %} class="{{ block.metadata.roles | join(sep=" ") | escape_attribute }}" {%- endif -%}
 {%- if code_language %} data-code-language="{{ code_language | escape_attribute }}" {%- endif -%}
-{%- if id %} id="{{ id | escape_attribute }}" {%- endif -%}
+{%- if block.metadata.attributes.id %} id="{{ block.metadata.attributes.id | escape_attribute }}" {%- endif -%}
 {%- if data_type %} data-type="{{ data_type }}"{%- endif -%}>{%- endif -%}
     {% if block.inlines %}
     {%- for inline in block.inlines -%}
diff --git a/templates/htmlbook/tables.html.tera b/templates/htmlbook/tables.html.tera
index 759d5b0..68fcb48 100644
--- a/templates/htmlbook/tables.html.tera
+++ b/templates/htmlbook/tables.html.tera
@@ -10,7 +10,13 @@
 {%- set body_start = block.blocks | length -%}
 {%- endif -%}
 {%- endif -%}
-    <table>{% if header %}
+    <table
+    {%- if block.metadata.roles %} class="{{ block.metadata.roles | join(sep=" ") | escape_attribute }}" {%- endif -%}
+    {%- if block.metadata.attributes.id %} id="{{ block.metadata.attributes.id | escape_attribute }}" {%- endif -%}>
+    {%- if block.title %}
+    <caption>{%- for inline in block.title -%}{{- inline_macros::process_inline(inline=inline) -}}{%- endfor -%}</caption>
+    {%- endif -%}
+    {% if header %}
     <thead>
         {% for idx in range(start=0, end=body_start) -%}
             {%- set cell = block.blocks | nth(n=idx) -%}
-- 
2.43.0


From a981ec10a96e89aeaae25226eaad4536ec7a5991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:29 +0000
Subject: [PATCH 050/126] fix: only style the block a docx style is meant for

---
 src/backends/docx/document.rs | 3 +++
 src/backends/docx/styles.rs   | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 819a3c3..07c5950 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -110,6 +110,7 @@ impl DocxWriter {
         mut docx: Docx,
         block: &Block,
     ) -> Result<Docx, DocxRenderError> {
+        let outer_style = self.current_style.clone();
         match block {
             Block::Section(section) => docx = self.add_section(docx, section)?,
             Block::List(list) => docx = self.add_list(docx, list)?,
@@ -173,6 +174,8 @@ impl DocxWriter {
             Block::NonSectionBlockBody(_) => {} // not implemented by parser
             Block::DiscreteHeading => {} // not implemented by parser
         }
+        // what follows isn't styled as the block was
+        self.current_style = outer_style;
         Ok(docx)
     }
 
diff --git a/src/backends/docx/styles.rs b/src/backends/docx/styles.rs
index 2fdc4ef..166d63f 100644
--- a/src/backends/docx/styles.rs
+++ b/src/backends/docx/styles.rs
@@ -3,7 +3,7 @@ use docx_rs::{
     Style, StyleType, TableCellProperty, TableProperty,
 };
 
-#[derive(Debug)]
+#[derive(Clone, Debug)]
 pub enum DocumentStyles {
     Normal,
     NoSpacing,
-- 
2.43.0


From fbec89002abcdf97bbbe46b517d9d23ea83fe280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:13:56 +0000
Subject: [PATCH 051/126] fix: keep the lines of verbatim blocks and replace
 references inside of text in docx

---
 src/backends/docx/document.rs | 78 +++++++++++++++++++++++++----------
 src/graph/inlines.rs          | 35 ++++++++++++----
 2 files changed, 83 insertions(+), 30 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 07c5950..6d9cf45 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -9,10 +9,10 @@ use regex::Regex;
 
 use crate::graph::{
     blocks::{
-        Block, BlockMacro, BlockMacroName, BreakVariant, LeafBlockName, ParentBlock,
+        Block, BlockMacro, BlockMacroName, BreakVariant, LeafBlock, LeafBlockName, ParentBlock,
         ParentBlockName, Section,
     },
-    inlines::{Inline, InlineSpanVariant},
+    inlines::{Inline, InlineLiteral, InlineSpanVariant},
     lists::{DListItem, List, ListItem, ListVariant},
 };
 
@@ -62,6 +62,8 @@ pub enum DocxRenderError {
 pub struct DocxWriter {
     page_break_before: bool,
     line_break_before: bool,
+    preserve_lines: bool,
+    replace_charrefs: bool,
     abstract_numbering: usize,
     numbering: usize,
     current_style: DocumentStyles,
@@ -78,6 +80,8 @@ impl DocxWriter {
         DocxWriter {
             page_break_before: false,
             line_break_before: false,
+            preserve_lines: false,
+            replace_charrefs: true,
             abstract_numbering: 0,
             numbering: 0,
             current_style: DocumentStyles::Normal,
@@ -143,8 +147,7 @@ impl DocxWriter {
                     }
                     _ => {}
                 }
-                let mut para = Paragraph::new();
-                para = self.add_inlines_to_para(para, block.inlines());
+                let para = self.add_leaf_inlines_to_para(Paragraph::new(), block);
                 docx = self.add_paragraph(docx, para)?
             }
             Block::ParentBlock(parent) => match parent.name {
@@ -244,7 +247,10 @@ impl DocxWriter {
             }
             Block::LeafBlock(leaf) => {
                 docx = self.add_title(docx, &leaf.title)?;
-                (leaf.inlines(), vec![])
+                let mut para = Paragraph::new().style(&self.current_style.style_id());
+                para = self.add_leaf_inlines_to_para(para, leaf);
+                docx = self.add_paragraph(docx, para)?;
+                (vec![], vec![])
             }
             _ => (block.inlines(), vec![]),
         };
@@ -423,21 +429,34 @@ impl DocxWriter {
         para
     }
 
+    /// Adds the inlines of a leaf block to a given paragraph, keeping the lines of those blocks
+    /// where they have a meaning
+    fn add_leaf_inlines_to_para(&mut self, mut para: Paragraph, block: &LeafBlock) -> Paragraph {
+        let is_verbatim = matches!(block.name, LeafBlockName::Listing | LeafBlockName::Literal);
+        let mut inlines = block.inlines();
+        if is_verbatim {
+            // the lines of the delimiters themselves
+            if let Some(Inline::InlineLiteral(first)) = inlines.first_mut() {
+                first.trim_newline_start()
+            }
+            if let Some(Inline::InlineLiteral(last)) = inlines.last_mut() {
+                last.trim_newline_end()
+            }
+        }
+        self.preserve_lines = is_verbatim || matches!(block.name, LeafBlockName::Verse);
+        self.replace_charrefs = !is_verbatim;
+        para = self.add_inlines_to_para(para, inlines);
+        self.preserve_lines = false;
+        self.replace_charrefs = true;
+        para
+    }
+
     /// Creates runs from inlines, called from a block
     fn runs_from_inline(&mut self, inline: &Inline) -> Vec<Run> {
         let mut variants: Vec<&InlineSpanVariant> = vec![];
         let mut runs: Vec<Run> = vec![];
         match inline {
-            Inline::InlineLiteral(lit) => {
-                let mut literal_text = lit.value_or_refd_char();
-                if self.line_break_before {
-                    literal_text = literal_text.trim_start().into();
-                    self.line_break_before = false;
-                }
-                runs.push(
-                    Run::new().add_text(RE_WHITESPACE_NEWLINE.replace_all(&literal_text, " ")),
-                );
-            }
+            Inline::InlineLiteral(lit) => runs.push(self.run_from_literal(lit)),
             Inline::InlineSpan(span) => {
                 variants.push(&span.variant);
                 for inline in span.inlines.iter() {
@@ -462,6 +481,28 @@ impl DocxWriter {
         runs
     }
 
+    fn run_from_literal(&mut self, literal: &InlineLiteral) -> Run {
+        let mut text = match self.replace_charrefs {
+            true => literal.value_or_refd_char(),
+            false => literal.value(),
+        };
+        if self.line_break_before {
+            text = text.trim_start().into();
+            self.line_break_before = false;
+        }
+        if !self.preserve_lines {
+            return Run::new().add_text(RE_WHITESPACE_NEWLINE.replace_all(&text, " "));
+        }
+        let mut run = Run::new();
+        for (idx, line) in text.split('\n').enumerate() {
+            if idx > 0 {
+                run = run.add_break(BreakType::TextWrapping)
+            }
+            run = run.add_text(line)
+        }
+        run
+    }
+
     /// The version that allows for recursion, specifically nested inline spans
     fn runs_from_inline_with_variant<'a>(
         &mut self,
@@ -471,12 +512,7 @@ impl DocxWriter {
         let mut runs: Vec<Run> = Vec::new();
         match inline {
             Inline::InlineLiteral(lit) => {
-                let mut literal_text = lit.value_or_refd_char().replace("\n", " ");
-                if self.line_break_before {
-                    literal_text = literal_text.trim_start().into();
-                    self.line_break_before = false;
-                }
-                let mut run = Run::new().add_text(literal_text);
+                let mut run = self.run_from_literal(lit);
                 if !variants.is_empty() {
                     for variant in variants {
                         match variant {
diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index e671c6b..ac599b0 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -2,6 +2,8 @@ use core::panic;
 use std::{collections::HashMap, fmt::Display};
 
 use log::warn;
+use once_cell::sync::Lazy;
+use regex::{Captures, Regex};
 use serde::Serialize;
 
 use super::{
@@ -11,6 +13,8 @@ use super::{
 };
 use crate::scanner::tokens::{Token, TokenType};
 
+static RE_CHARREF: Lazy<Regex> = Lazy::new(|| Regex::new(r"&#?\w+;").unwrap());
+
 /// Inlines enum containing literals, spans, and references (the latter not implemented)
 #[derive(Serialize, Clone, Debug)]
 #[serde(untagged)]
@@ -788,6 +792,18 @@ impl InlineLiteral {
         self.value == *"\n"
     }
 
+    pub fn trim_newline_start(&mut self) {
+        if self.value.starts_with('\n') {
+            self.value.remove(0);
+        }
+    }
+
+    pub fn trim_newline_end(&mut self) {
+        if self.value.ends_with('\n') {
+            self.value.pop();
+        }
+    }
+
     pub fn is_text(&self) -> bool {
         matches!(self.name, InlineLiteralName::Text)
     }
@@ -799,15 +815,16 @@ impl InlineLiteral {
     pub fn value_or_refd_char(&self) -> String {
         // In HTML these just get passed through, but for certain outputs we want to do replacements. This
         // is obviously an incomplete table.
-        if matches!(self.name, InlineLiteralName::Charref) {
-            let charrefs = CHARREF_MAP.lock().unwrap();
-            match charrefs.get(&self.value) {
-                Some(entity) => entity.to_string(),
-                None => self.value.clone(),
-            }
-        } else {
-            self.value.clone()
-        }
+        // Note that text may have references in it, i.e., if it's text from inside of a span
+        let charrefs = CHARREF_MAP.lock().unwrap();
+        RE_CHARREF
+            .replace_all(&self.value, |reference: &Captures| {
+                match charrefs.get(&reference[0]) {
+                    Some(entity) => entity.to_string(),
+                    None => reference[0].to_string(),
+                }
+            })
+            .into()
     }
 }
 
-- 
2.43.0


From c924b6b6e6bf72424ce3068f031866145961e89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:16 +0000
Subject: [PATCH 052/126] fix: write attributes in the same order each time

---
 src/graph/asg.rs      |  6 +++++-
 src/graph/metadata.rs | 36 ++++++++++++++++++++++++++++++++++--
 2 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/graph/asg.rs b/src/graph/asg.rs
index e8009aa..2ab1159 100644
--- a/src/graph/asg.rs
+++ b/src/graph/asg.rs
@@ -9,6 +9,7 @@ use crate::scanner::Scanner;
 
 use super::blocks::{Block, ParentBlock};
 use super::inlines::Inline;
+use super::metadata::ordered_document_attributes;
 use super::nodes::{Header, Location, NodeTypes};
 
 /// Abstract Syntax Graph used to represent an asciidoc document
@@ -21,7 +22,10 @@ pub struct Asg {
     #[serde(rename = "type")]
     /// This is always "block"
     pub node_type: NodeTypes,
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(
+        skip_serializing_if = "Option::is_none",
+        serialize_with = "ordered_document_attributes"
+    )]
     pub attributes: Option<HashMap<String, String>>, // the value can also be a bool; deal with this later
     #[serde(skip_serializing_if = "Option::is_none")]
     pub header: Option<Header>,
diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 69f9f80..205641d 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -1,8 +1,11 @@
-use std::{collections::HashMap, fmt::Debug};
+use std::{
+    collections::{BTreeMap, HashMap},
+    fmt::Debug,
+};
 
 use once_cell::sync::Lazy;
 use regex::Regex;
-use serde::Serialize;
+use serde::{Serialize, Serializer};
 
 use crate::graph::nodes::Location;
 use crate::scanner::tokens::{Token, TokenType};
@@ -33,8 +36,37 @@ impl AttributeType {
     }
 }
 
+/// Writes the attributes in the same order each time, such that the output is reproducible
+fn ordered_attributes<S>(
+    attributes: &HashMap<String, String>,
+    serializer: S,
+) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    attributes
+        .iter()
+        .collect::<BTreeMap<_, _>>()
+        .serialize(serializer)
+}
+
+/// As [`ordered_attributes`], but for those of the document as a whole
+pub fn ordered_document_attributes<S>(
+    attributes: &Option<HashMap<String, String>>,
+    serializer: S,
+) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    attributes
+        .as_ref()
+        .map(|attributes| attributes.iter().collect::<BTreeMap<_, _>>())
+        .serialize(serializer)
+}
+
 #[derive(Serialize, PartialEq, Default, Clone, Debug)]
 pub struct ElementMetadata {
+    #[serde(serialize_with = "ordered_attributes")]
     pub attributes: HashMap<String, String>,
     pub options: Vec<String>,
     pub roles: Vec<String>,
-- 
2.43.0


From f237ff329cf3ad15e4d18506a2e830d950de17b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:17 +0000
Subject: [PATCH 053/126] fix: only the text on the marker's line is a
 description list term

---
 src/graph/inlines.rs | 30 ++++++++++++++++++++++++++++++
 src/parser.rs        | 14 ++++++++++++++
 2 files changed, 44 insertions(+)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index ac599b0..aafcd38 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -181,6 +181,36 @@ impl Inline {
         }
     }
 
+    /// Splits text that's on more than one line into that on the last line and all that precedes
+    pub fn split_at_last_newline(&self) -> Option<(Option<Inline>, Option<Inline>)> {
+        let Inline::InlineLiteral(literal) = self else {
+            return None;
+        };
+        let (preceding, last_line) = literal.value.rsplit_once('\n')?;
+        let (start, end) = (literal.location.first()?, literal.location.last()?);
+        let mut preceding_end = end.clone();
+        preceding_end.line = end.line.saturating_sub(1);
+        preceding_end.col = match preceding.rsplit_once('\n') {
+            Some((_, line)) => line.chars().count(),
+            None => start.col + preceding.chars().count().saturating_sub(1),
+        };
+        let mut last_line_start = end.clone();
+        last_line_start.col = 1;
+        let as_inline = |value: &str, location: Vec<Location>| {
+            (!value.is_empty()).then(|| {
+                Inline::InlineLiteral(InlineLiteral::new(
+                    literal.name.clone(),
+                    value.to_string(),
+                    location,
+                ))
+            })
+        };
+        Some((
+            as_inline(preceding, vec![start.clone(), preceding_end]),
+            as_inline(last_line, vec![last_line_start, end.clone()]),
+        ))
+    }
+
     pub fn is_footnote(&self) -> bool {
         match self {
             Inline::InlineSpan(span) => span.variant == InlineSpanVariant::Footnote,
diff --git a/src/parser.rs b/src/parser.rs
index 4650694..3aa8566 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -657,6 +657,20 @@ impl Parser {
             self.add_inlines_to_block_stack(asg)?;
             // then add the next terms back
             self.inline_stack.append(&mut next_terms);
+        } else if let Some((idx, (preceding, term))) = self
+            .inline_stack
+            .iter()
+            .enumerate()
+            .rev()
+            .find_map(|(idx, inline)| Some((idx, inline.split_at_last_newline()?)))
+        {
+            // only what is on the same line is the term
+            let mut next_terms = self.inline_stack.split_off(idx);
+            next_terms.pop_front();
+            self.inline_stack.extend(preceding);
+            self.add_inlines_to_block_stack(asg)?;
+            self.inline_stack.extend(term);
+            self.inline_stack.append(&mut next_terms);
         }
         // collect the inlines
         self.handle_dangling_spans();
-- 
2.43.0


From f08a26c439fe558d278430462a7315a1ea60ae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:20 +0000
Subject: [PATCH 054/126] fix: keep the newline ahead of a verbatim block out
 of its contents

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 3aa8566..04a21be 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1053,6 +1053,8 @@ impl Parser {
             }
         } else {
             self.open_parse_after_as_text_type = Some(token.token_type());
+            // the newline ahead of the delimiter isn't part of the block
+            self.dangling_newline = None;
             let block = LeafBlock::new_from_token(token)?;
             self.push_block_to_stack(Block::LeafBlock(block), asg)?;
             // note that we're to just add
-- 
2.43.0


From d1500665ef14cf1a562c0e4ae36e776c3c65dd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:56 +0000
Subject: [PATCH 055/126] fix: a callout has a number, and looking for one
 consumes nothing

---
 src/scanner/mod.rs | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 9977008..f617628 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -809,28 +809,28 @@ impl<'a> Scanner<'a> {
         }
     }
 
-    fn starts_code_callout_list_item(&mut self) -> bool {
-        while self.peek() != '>' {
-            if self.peek().is_ascii_digit() {
-                self.current += 1;
-            } else {
-                return false;
-            }
+    /// Consumes a callout number if there is one, and `next` follows it
+    fn consume_callout_before(&mut self, next: char) -> bool {
+        let rest = self.rest_of_line();
+        let digits = rest.bytes().take_while(|b| b.is_ascii_digit()).count();
+        if digits == 0 || !rest[digits..].starts_with('>') {
+            return false;
         }
-        self.current += 1;
-        self.peek() == ' ' // next must be a space
+        let callout_end = self.current + digits + 1;
+        if self.source[callout_end..].starts_with(next) {
+            self.current = callout_end;
+            true
+        } else {
+            false
+        }
+    }
+
+    fn starts_code_callout_list_item(&mut self) -> bool {
+        self.consume_callout_before(' ') // next must be a space
     }
 
     fn starts_code_callout(&mut self) -> bool {
-        while self.peek() != '>' {
-            if self.peek().is_ascii_digit() {
-                self.current += 1;
-            } else {
-                return false;
-            }
-        }
-        self.current += 1;
-        self.peek() == '\n' // callouts MUST be last chars in line
+        self.consume_callout_before('\n') // callouts MUST be last chars in line
     }
 
     fn starts_text_symbol_replace_parens(&mut self) -> bool {
-- 
2.43.0


From 09d9b0a7d9b8cc51f6de8e2b961928f75eaf0220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:36:59 +0000
Subject: [PATCH 056/126] fix: keep the newline ahead of a callout

---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index 04a21be..804e665 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -984,6 +984,7 @@ impl Parser {
 
     fn parse_code_callout(&mut self, token: Token) -> Result<(), ParserError> {
         // TK handle deleting comment markup, IF we're handling icons
+        self.add_dangling_newline();
         self.inline_stack
             .push_back(Inline::InlineSpan(InlineSpan::inline_span_from_token(
                 token,
-- 
2.43.0


From 79a8b30797b56d5ceec7523171152a1d0daadece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:43 +0000
Subject: [PATCH 057/126] fix: allow comments, attributes and blank lines ahead
 of the document title

---
 src/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 804e665..6513ad0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -745,7 +745,14 @@ impl Parser {
             return self.parse_section_headings(token, asg);
         }
 
-        if token.first_location() == Location::default() {
+        // only attribute entries, comments and blank lines can be ahead of the title
+        let nothing_precedes = self.file_stack.is_empty()
+            && self.document_header.is_none()
+            && asg.header.is_none()
+            && asg.blocks.is_empty()
+            && self.block_stack.is_empty()
+            && self.inline_stack.is_empty();
+        if nothing_precedes {
             self.in_block_line = true;
             let mut header = Header::new();
             header.location.extend(token.locations());
-- 
2.43.0


From b13072be384dca77398d46ec8b4e5785b77221d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:45 +0000
Subject: [PATCH 058/126] fix: a comment doesn't end the document header

---
 src/scanner/tokens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner/tokens.rs b/src/scanner/tokens.rs
index db0328c..9805f31 100644
--- a/src/scanner/tokens.rs
+++ b/src/scanner/tokens.rs
@@ -161,7 +161,7 @@ impl Token {
     pub fn can_be_in_document_header(&self) -> bool {
         matches!(
             self.token_type(),
-            TokenType::Heading1 | TokenType::Attribute
+            TokenType::Heading1 | TokenType::Attribute | TokenType::Comment
         ) || self.is_inline()
     }
 
-- 
2.43.0


From 3a2436b7c1b10f7633a4556e5761eeaf78165444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:38:48 +0000
Subject: [PATCH 059/126] fix: leave out comment blocks that are never closed

---
 src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 6513ad0..a930c69 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -149,6 +149,11 @@ impl Parser {
             }
         }
 
+        // a comment that's never closed goes on to the end
+        if self.open_parse_after_as_text_type == Some(TokenType::CommentBlock) {
+            self.inline_stack.clear();
+            self.block_stack.pop();
+        }
         // add any dangling inlines
         self.add_inlines_to_block_stack(&mut asg)?;
         // add any dangling blocks (most often sections)
-- 
2.43.0


From 48c86ff2fa6198b73d40805a9c6ecff0605c43ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:39:34 +0000
Subject: [PATCH 060/126] fix: a block title isn't followed by the document
 title

---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index a930c69..2be5b0f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -755,6 +755,7 @@ impl Parser {
             && self.document_header.is_none()
             && asg.header.is_none()
             && asg.blocks.is_empty()
+            && self.block_title.is_none()
             && self.block_stack.is_empty()
             && self.inline_stack.is_empty();
         if nothing_precedes {
-- 
2.43.0


From 6e6991a1c80e84c356feba1d2c1d931cb2aed90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:14 +0000
Subject: [PATCH 061/126] fix: a line that starts with an inline style isn't an
 attribute list

---
 src/scanner/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index f617628..81fc301 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -221,6 +221,8 @@ impl<'a> Scanner<'a> {
                     && self.rest_of_line().ends_with("]]")
                 {
                     self.add_block_anchor()
+                } else if self.starts_inline_style() {
+                    self.add_inline_style()
                 } else if self.starts_attribution_line() {
                     match &self.source[self.start..self.current] {
                         "[NOTE]" => self.add_token(TokenType::NotePara, true, 0),
@@ -230,8 +232,6 @@ impl<'a> Scanner<'a> {
                         "[WARNING]" => self.add_token(TokenType::WarningPara, true, 0),
                         _ => self.add_token(TokenType::ElementAttributes, true, 0),
                     }
-                } else if self.starts_inline_style() {
-                    self.add_inline_style()
                 } else {
                     self.add_text_until_next_markup()
                 }
-- 
2.43.0


From 4f7b740b1df69e6154afced49bbddc5092ac0ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:19 +0000
Subject: [PATCH 062/126] fix: let inline markup start after any character that
 isn't part of a word

---
 src/scanner/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 81fc301..b063714 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -762,9 +762,10 @@ impl<'a> Scanner<'a> {
             ' ', '\0', '.', ',', ';', ':', '\n', ')', '"', '!', '?', '\'', ']', '…', '“', '”', '‘',
             '’',
         ];
-        let mut beginning_of_inline_markers = vec![' ', '\n', '\0', ']', '(', '"', '['];
         end_of_inline_markers.extend_from_slice(&inline_markup_chars);
-        beginning_of_inline_markers.extend_from_slice(&inline_markup_chars);
+        // anything but a word character, and what would be at the end of an attribute or charref
+        let previous = self.peek_back();
+        let can_begin = !previous.is_alphanumeric() && ![';', ':', '}'].contains(&previous);
         // guard clause against dangling markup
         if self.peek() == ' ' && self.peek_back() == ' ' {
             self.add_text_until_next_markup()
@@ -777,7 +778,7 @@ impl<'a> Scanner<'a> {
         // we're at the end of a span, or are butted up against another inline marker
         else if end_of_inline_markers.contains(&self.peek()) ||
         // or we're at the beginning, or butted up against another inline marker
-        beginning_of_inline_markers.contains(&self.peek_back()) && self.peek() != c
+        can_begin && self.peek() != c
         {
             self.add_token(constrained, false, 0)
         } else {
-- 
2.43.0


From 74f908c2b52ed60d440830f30ad08ee08c97d21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:56 +0000
Subject: [PATCH 063/126] fix: look at whole characters around inline markup

---
 src/scanner/mod.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index b063714..0bafd29 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -855,14 +855,11 @@ impl<'a> Scanner<'a> {
         if self.is_at_end() || !self.source.is_char_boundary(self.current) {
             return '\0';
         }
-        self.source.as_bytes()[self.current] as char
+        self.source[self.current..].chars().next().unwrap_or('\0')
     }
 
     fn peek_back(&self) -> char {
-        if self.start == 0 || !self.source.is_char_boundary(self.start - 1) {
-            return '\0';
-        }
-        self.source.as_bytes()[self.start - 1] as char
+        self.source[..self.start].chars().next_back().unwrap_or('\0')
     }
 
     fn peeks_ahead(&self, count: usize) -> &str {
-- 
2.43.0


From d766700f9a179609b6d2e987c66046d91deb974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:18 +0000
Subject: [PATCH 064/126] fix: constrained markup doesn't start or end inside
 of a word or next to a space

---
 src/graph/inlines.rs | 92 ++++++++++++++++++++++++++++++++++++++++++--
 src/parser.rs        | 24 ++++++++++++
 2 files changed, 113 insertions(+), 3 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index aafcd38..881ea1a 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -157,9 +157,30 @@ impl Inline {
                 _ => flattened.push(inline),
             }
         }
-        // combine any text that is now adjacent
+        Inline::combine_adjacent_text(flattened)
+    }
+
+    /// Turns a span that isn't one after all, because its marker is followed by whitespace, back
+    /// into text
+    pub fn flatten_not_opened(mut inlines: Vec<Inline>) -> Vec<Inline> {
+        match inlines.pop() {
+            Some(Inline::InlineSpan(mut span)) if span.open => {
+                span.inlines = Inline::flatten_not_opened(std::mem::take(&mut span.inlines));
+                if span.starts_with_whitespace() {
+                    inlines.push(Inline::InlineLiteral(span.marker_literal()));
+                    inlines.extend(span.inlines);
+                    return Inline::combine_adjacent_text(inlines);
+                }
+                inlines.push(Inline::InlineSpan(span));
+            }
+            last => inlines.extend(last),
+        }
+        inlines
+    }
+
+    fn combine_adjacent_text(inlines: Vec<Inline>) -> Vec<Inline> {
         let mut combined: Vec<Inline> = vec![];
-        for inline in flattened {
+        for inline in inlines {
             if let Inline::InlineLiteral(literal) = &inline {
                 if let Some(Inline::InlineLiteral(last)) = combined.last_mut() {
                     if last.is_text() && literal.is_text() {
@@ -478,7 +499,10 @@ impl InlineSpan {
         if !self.open {
             return false;
         }
-        let closed = if self.same_kind(marker) && !self.inlines.is_empty() {
+        let closed = if self.same_kind(marker)
+            && !self.inlines.is_empty()
+            && !self.ends_with_whitespace()
+        {
             // anything still open inside can't be closed hereafter
             self.inlines = Inline::flatten_open(std::mem::take(&mut self.inlines));
             self.open = false;
@@ -494,6 +518,68 @@ impl InlineSpan {
         closed
     }
 
+    fn is_constrained_markup(&self) -> bool {
+        self.node_form == InlineSpanForm::Constrained
+            && self.variant != InlineSpanVariant::Footnote
+    }
+
+    /// Constrained markup can't start in the middle of a word
+    pub fn cannot_open_after(&self, last_inline: Option<&Inline>) -> bool {
+        match last_inline {
+            Some(Inline::InlineSpan(span)) if span.open => {
+                self.cannot_open_after(span.inlines.last())
+            }
+            Some(Inline::InlineLiteral(literal)) => {
+                self.is_constrained_markup()
+                    && !matches!(
+                        self.variant,
+                        InlineSpanVariant::Superscript | InlineSpanVariant::Subscript
+                    )
+                    && literal.is_text()
+                    && literal.value.ends_with(char::is_alphanumeric)
+            }
+            _ => false,
+        }
+    }
+
+    /// Constrained markup can't end in the middle of a word either
+    pub fn reopen_last(&mut self) {
+        if self.open {
+            if let Some(Inline::InlineSpan(span)) = self.inlines.last_mut() {
+                span.reopen_last();
+            }
+        } else if self.is_constrained_markup() {
+            let location = self.location.last().cloned();
+            self.open = true;
+            self.add_inline(Inline::InlineLiteral(InlineLiteral::new(
+                InlineLiteralName::Text,
+                self.marker.clone(),
+                location.clone().into_iter().chain(location).collect(),
+            )));
+        }
+    }
+
+    /// Constrained markup has to be right next to what it applies to
+    fn starts_with_whitespace(&self) -> bool {
+        self.is_constrained_markup()
+            && matches!(self.inlines.first(), Some(Inline::InlineLiteral(literal))
+                if literal.is_text() && literal.value.starts_with([' ', '\n']))
+    }
+
+    fn ends_with_whitespace(&self) -> bool {
+        // any spans still open inside may turn out to be text as well
+        let mut inlines = &self.inlines;
+        while let Some(Inline::InlineSpan(span)) = inlines.last() {
+            if !span.open || span.inlines.is_empty() {
+                break;
+            }
+            inlines = &span.inlines;
+        }
+        self.is_constrained_markup()
+            && matches!(inlines.last(), Some(Inline::InlineLiteral(literal))
+                if literal.is_text() && literal.value.ends_with([' ', '\n']))
+    }
+
     /// Checks for an open span of the same kind, either this one or one nested inside of it
     pub fn has_open(&self, marker: &InlineSpan) -> bool {
         self.open
diff --git a/src/parser.rs b/src/parser.rs
index 2be5b0f..dc4ab5a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -853,6 +853,10 @@ impl Parser {
     fn parse_inline_span(&mut self, mut span: InlineSpan) -> Result<(), ParserError> {
         // handle newline tokens prior to constrained spans
         self.add_dangling_newline();
+        if self.inline_stack.back().is_some_and(|last| last.is_open()) {
+            let inlines: Vec<Inline> = self.inline_stack.drain(..).collect();
+            self.inline_stack = Inline::flatten_not_opened(inlines).into();
+        }
         if let Some(Inline::InlineSpan(last_span)) = self.inline_stack.back_mut() {
             if last_span.close_matching(&span) {
                 return Ok(());
@@ -863,6 +867,10 @@ impl Parser {
                 return Ok(());
             }
         }
+        if span.cannot_open_after(self.inline_stack.back()) {
+            self.push_inline_literal(span.marker_literal());
+            return Ok(());
+        }
         // add any metadata to new inline
         if self.inline_metadata.is_some() {
             span.metadata = self.inline_metadata.take();
@@ -1007,6 +1015,15 @@ impl Parser {
 
     fn parse_text(&mut self, token: Token) -> Result<(), ParserError> {
         self.add_dangling_newline();
+        let after_constrained_mark = matches!(
+            self.last_token_type,
+            TokenType::Strong | TokenType::Emphasis | TokenType::Mark | TokenType::Monospace
+        );
+        if after_constrained_mark && token.text().starts_with(char::is_alphanumeric) {
+            if let Some(Inline::InlineSpan(span)) = self.inline_stack.back_mut() {
+                span.reopen_last();
+            }
+        }
         self.add_text_to_last_inline(token);
         Ok(())
     }
@@ -1259,6 +1276,13 @@ impl Parser {
     }
 
     /// Adds an inline to the span we're in the midst of, if any, otherwise to the stack
+    fn push_inline_literal(&mut self, literal: InlineLiteral) {
+        match self.inline_stack.back_mut() {
+            Some(Inline::InlineLiteral(last)) if last.is_text() => last.combine_literals(literal),
+            _ => self.push_inline(Inline::InlineLiteral(literal)),
+        }
+    }
+
     fn push_inline(&mut self, inline: Inline) {
         match self.inline_stack.back_mut() {
             Some(Inline::InlineSpan(last_span)) if last_span.open => last_span.add_inline(inline),
-- 
2.43.0


From 91a6e2985e2d5acda9904f1fd8b76572519353bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:00 +0000
Subject: [PATCH 065/126] fix: let inline markup end ahead of any character
 that isn't part of a word

---
 src/scanner/mod.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 0bafd29..5eda8e6 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -757,15 +757,10 @@ impl<'a> Scanner<'a> {
         constrained: TokenType,
         unconstrained: TokenType,
     ) -> Result<Token, ScannerError> {
-        let inline_markup_chars = ['*', '_', '`', '+', '^', '~', '#'];
-        let mut end_of_inline_markers = vec![
-            ' ', '\0', '.', ',', ';', ':', '\n', ')', '"', '!', '?', '\'', ']', '…', '“', '”', '‘',
-            '’',
-        ];
-        end_of_inline_markers.extend_from_slice(&inline_markup_chars);
         // anything but a word character, and what would be at the end of an attribute or charref
         let previous = self.peek_back();
         let can_begin = !previous.is_alphanumeric() && ![';', ':', '}'].contains(&previous);
+        let can_end = !self.peek().is_alphanumeric();
         // guard clause against dangling markup
         if self.peek() == ' ' && self.peek_back() == ' ' {
             self.add_text_until_next_markup()
@@ -776,7 +771,7 @@ impl<'a> Scanner<'a> {
             self.add_token(unconstrained, false, 0)
         }
         // we're at the end of a span, or are butted up against another inline marker
-        else if end_of_inline_markers.contains(&self.peek()) ||
+        else if can_end ||
         // or we're at the beginning, or butted up against another inline marker
         can_begin && self.peek() != c
         {
-- 
2.43.0


From 485a6e2b15888d979cf1ebb12c184e06cd8f2d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:22 +0000
Subject: [PATCH 066/126] fix: inline markup after more than one pipe

---
 src/parser.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index dc4ab5a..edf9bf8 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1137,12 +1137,7 @@ impl Parser {
             .last()
             .is_some_and(|&idx| self.block_stack[idx].is_table());
         if !in_table {
-            // it's just a `|`
-            let mut pipe = token;
-            pipe.literal = Some("|".to_string());
-            pipe.endcol = pipe.startcol;
-            self.parse_text(pipe)?;
-            return self.parse_cell_contents(&cell_contents, cell_line, cell_col, asg);
+            return self.parse_pipe_as_text(token, asg);
         }
 
         self.add_inlines_to_block_stack(asg)?;
@@ -1159,6 +1154,20 @@ impl Parser {
         Ok(())
     }
 
+    /// One or more `|` that don't start a cell
+    fn parse_pipe_as_text(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
+        let text = token.text();
+        let contents = text.trim_start_matches('|').to_string();
+        let pipes = text.len() - contents.len();
+        let mut location = token.first_location();
+        location.col += pipes - 1;
+        let mut pipe = token;
+        pipe.literal = Some("|".repeat(pipes));
+        pipe.endcol = location.col;
+        self.parse_text(pipe)?;
+        self.parse_cell_contents(&contents, location.line, location.col, asg)
+    }
+
     fn parse_cell_contents(
         &mut self,
         cell_contents: &str,
@@ -1172,6 +1181,7 @@ impl Parser {
                     // update the line numbering for the token to match the table cell mathematically, in
                     // case my vague memory of multi-line cells is correct
                     inline_token.update_token_loc_offsets_by(cell_line, cell_col);
+                    let inline_token_type = inline_token.token_type();
                     match inline_token.token_type() {
                         TokenType::Eof => {
                             while !self.passthrough_tokens.is_empty() {
@@ -1181,12 +1191,14 @@ impl Parser {
                         _ if !self.passthrough_tokens.is_empty() => {
                             self.token_into(inline_token, asg)?
                         }
+                        TokenType::TableCell => self.parse_pipe_as_text(inline_token, asg)?,
                         // block markup has no meaning inside of a cell
                         token_type if !inline_token.is_inline() || token_type == TokenType::Comment => {
                             self.parse_text(inline_token)?
                         }
                         _ => self.token_into(inline_token, asg)?,
                     }
+                    self.last_token_type = inline_token_type;
                 }
                 Err(e) => return Err(ParserError::Scanner(e)),
             }
-- 
2.43.0


From 162315bdaab2d031a01c1b096a15560361eae498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:02 +0000
Subject: [PATCH 067/126] fix: recognise references to attributes with
 underscores or multi-byte letters in their name

---
 src/scanner/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 5eda8e6..66e798e 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -404,8 +404,7 @@ impl<'a> Scanner<'a> {
             }
             '{' => {
                 if self.starts_attribute_reference() {
-                    while (self.peek().is_alphanumeric() || self.peek() == '-') && !self.is_at_end()
-                    {
+                    while self.peek() != '}' {
                         self.current += 1
                     }
                     self.current += 1; // add the "}" at the end
@@ -731,8 +730,8 @@ impl<'a> Scanner<'a> {
     /// * only contain word characters and hyphens.
     fn starts_attribute_reference(&mut self) -> bool {
         let current_placeholder = self.current;
-        while (self.peek().is_alphanumeric() || self.peek() == '-') && !self.is_at_end() {
-            self.current += 1
+        while self.peek().is_alphanumeric() || ['-', '_'].contains(&self.peek()) {
+            self.current += self.peek().len_utf8()
         }
         let check = self.peek() == '}';
         self.current = current_placeholder;
-- 
2.43.0


From c4b81d71e21cb9ec3bc7f1cf0a9c2c1fdfda39fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:23 +0000
Subject: [PATCH 068/126] fix: locate the contents of table cells in the file
 they are in

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index edf9bf8..3f85798 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1175,7 +1175,7 @@ impl Parser {
         cell_col: usize,
         asg: &mut Asg,
     ) -> Result<(), ParserError> {
-        for result in Scanner::new(cell_contents) {
+        for result in Scanner::new_with_stack(cell_contents, self.file_stack.clone()) {
             match result {
                 Ok(mut inline_token) => {
                     // update the line numbering for the token to match the table cell mathematically, in
-- 
2.43.0


From 17aaad3b26f5a884e8478951da25a55edf2b9d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:35 +0000
Subject: [PATCH 069/126] fix: keep included code as it is, save for callouts

---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3f85798..6284dbd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -618,7 +618,12 @@ impl Parser {
                         } else {
                             self.last_token_type = TokenType::Text;
                         }
-                        self.parse_text(token)?;
+                        // code stays as it is, save for callouts
+                        match (self.open_parse_after_as_text_type, token.token_type()) {
+                            (Some(_), TokenType::CodeCallout) => self.parse_code_callout(token)?,
+                            (Some(_), _) => self.pass_text_through(token)?,
+                            (None, _) => self.parse_text(token)?,
+                        }
                     }
                 }
                 Err(e) => return Err(ParserError::Scanner(e)),
-- 
2.43.0


From 642ed59edfa38156aae63b80f3924e04b1bd9974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:24 +0000
Subject: [PATCH 070/126] fix: take line ranges of any length, and ones without
 an end that aren't the last

---
 src/parser.rs | 13 ++++++-------
 src/utils.rs  | 36 +++++++++++-------------------------
 2 files changed, 17 insertions(+), 32 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6284dbd..85cda80 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4,6 +4,7 @@ use std::{
     env,
     fmt::Debug,
     fs,
+    ops::RangeInclusive,
     path::PathBuf,
     str::FromStr,
 };
@@ -546,7 +547,7 @@ impl Parser {
 
     fn parse_include(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         // placeholders
-        let mut included_lines: Vec<i32> = vec![];
+        let mut included_lines: Vec<RangeInclusive<i32>> = vec![];
         let mut included_tags: Vec<String> = vec![];
         let mut asciidoc_include: bool = false;
 
@@ -1528,9 +1529,9 @@ impl Parser {
 }
 
 /// Determines, for each line in the source (including the end of the file), whether or not it is
-/// included, given lines (where -1 means that we include everything from the preceding number on)
-/// and tags; with neither, everything is included, save for the tag directives themselves
-fn select_lines(source: &str, lines: &[i32], tags: &[String]) -> Vec<bool> {
+/// included, given lines and tags; with neither, everything is included, save for the tag
+/// directives themselves
+fn select_lines(source: &str, lines: &[RangeInclusive<i32>], tags: &[String]) -> Vec<bool> {
     let mut open_tags: Vec<&str> = vec![];
     source
         .split('\n')
@@ -1549,9 +1550,7 @@ fn select_lines(source: &str, lines: &[i32], tags: &[String]) -> Vec<bool> {
                 }
                 return false;
             }
-            let in_lines = lines.is_empty()
-                || lines.contains(&number)
-                || lines.windows(2).any(|pair| pair[1] == -1 && pair[0] <= number);
+            let in_lines = lines.is_empty() || lines.iter().any(|range| range.contains(&number));
             in_lines && (tags.is_empty() || !open_tags.is_empty())
         })
         .collect()
diff --git a/src/utils.rs b/src/utils.rs
index a78f140..207a98d 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -2,6 +2,7 @@ use core::panic;
 use once_cell::sync::Lazy;
 use regex::Regex;
 use std::collections::HashMap;
+use std::ops::RangeInclusive;
 
 use crate::errors::ParserError;
 use crate::graph::metadata::{ElementMetadata, RE_NAMED, RE_NAMED_QUOTED};
@@ -66,34 +67,19 @@ pub fn target_and_attrs_from_token(token: &Token) -> (String, Option<ElementMeta
 }
 
 /// Extracts included page ranges from the "lines=" attribute of an include directive
-pub fn extract_page_ranges(ranges_str: &str) -> Vec<i32> {
-    let mut ranges: Vec<i32> = vec![];
+pub fn extract_page_ranges(ranges_str: &str) -> Vec<RangeInclusive<i32>> {
+    let mut ranges: Vec<RangeInclusive<i32>> = vec![];
 
-    let mut captured_ranges = RE_LINE_RANGES.captures_iter(ranges_str).peekable();
-    while let Some(range) = captured_ranges.next() {
+    for range in RE_LINE_RANGES.captures_iter(ranges_str) {
         let (range_str, [_]) = range.extract();
         let parts: Vec<&str> = range_str.split("..").collect();
-        if !parts.is_empty() {
-            let start = parts[0].parse::<i32>().unwrap_or(0);
-            if parts.len() == 2 {
-                // if there is an end value
-                if let Ok(mut end) = parts[1].parse::<i32>() {
-                    if end == -1 {
-                        // if we're reading to the end, read to the end
-                        ranges.push(start);
-                        ranges.push(-1);
-                    } else {
-                        end += 1; // because we want an inclusive range 
-                        ranges.extend(start..end)
-                    }
-                } else if captured_ranges.peek().is_none() {
-                    ranges.push(start);
-                    ranges.push(-1); // signals that we read to the end
-                }
-            } else {
-                ranges.push(start);
-            }
-        }
+        let start = parts[0].parse::<i32>().unwrap_or(0);
+        let end = match parts.get(1) {
+            // if there is an end value, note that -1 means that we read to the end
+            Some(end) => end.parse::<i32>().ok().filter(|end| *end != -1),
+            None => Some(start),
+        };
+        ranges.push(start..=end.unwrap_or(i32::MAX));
     }
     ranges
 }
-- 
2.43.0


From 7c42ab8b928b3bfe03718c920fdf493d300d38e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:45 +0000
Subject: [PATCH 071/126] fix: recognise a callout that ends the file

---
 src/scanner/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 66e798e..94e4075 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -812,7 +812,8 @@ impl<'a> Scanner<'a> {
             return false;
         }
         let callout_end = self.current + digits + 1;
-        if self.source[callout_end..].starts_with(next) {
+        // the end of the file ends the line, too
+        if self.source[callout_end..].chars().next().unwrap_or('\n') == next {
             self.current = callout_end;
             true
         } else {
-- 
2.43.0


From 1ef9da0dd8ad2533f09a9f5983b42c3b869539b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:21 +0000
Subject: [PATCH 072/126] fix: only take tag directives, rather than what looks
 like them, as tags

---
 src/parser.rs      | 12 +-----------
 src/scanner/mod.rs | 18 +++++++++++-------
 src/utils.rs       | 10 ++++++++++
 3 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 85cda80..0f8e87c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -25,7 +25,7 @@ use crate::{
         metadata::{AttributeType, ElementMetadata},
         nodes::{Header, Location},
     },
-    utils::{extract_page_ranges, target_and_attrs_from_token},
+    utils::{extract_page_ranges, tag_from_directive, target_and_attrs_from_token},
 };
 
 /// How many files deep we follow includes, to guard against files that include themselves
@@ -1555,13 +1555,3 @@ fn select_lines(source: &str, lines: &[RangeInclusive<i32>], tags: &[String]) ->
         })
         .collect()
 }
-
-/// Returns the "foo" in, e.g., "// tag::foo[]"
-fn tag_from_directive<'a>(directive: &str, line: &'a str) -> Option<&'a str> {
-    let (before, after) = line.split_once(directive)?;
-    if before.ends_with(|c: char| c.is_alphanumeric()) {
-        return None;
-    }
-    let (tag, _) = after.split_once("[]")?;
-    (!tag.is_empty() && !tag.contains(char::is_whitespace)).then_some(tag)
-}
diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 94e4075..a98ea72 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -5,6 +5,7 @@ use core::str;
 use tokens::{Token, TokenType};
 
 use crate::errors::ScannerError;
+use crate::utils::tag_from_directive;
 
 #[derive(Debug)]
 /// Scans an asciidoc `&str` into [`Token`]s to be consumed by the Parser.
@@ -333,14 +334,14 @@ impl<'a> Scanner<'a> {
                 }
             }
             't' => {
-                if self.peeks_ahead(4) == "ag::" && self.closes_attr_list_on_line() {
+                if self.peeks_ahead(4) == "ag::" && self.in_line_with_directive("tag::") {
                     self.add_tag()
                 } else {
                     self.add_text_until_next_markup()
                 }
             }
             'e' => {
-                if self.peeks_ahead(4) == "nd::" && self.closes_attr_list_on_line() {
+                if self.peeks_ahead(4) == "nd::" && self.in_line_with_directive("end::") {
                     self.add_tag()
                 } else {
                     self.add_text_until_next_markup()
@@ -716,11 +717,14 @@ impl<'a> Scanner<'a> {
     }
 
     fn starts_end_tag_line(&mut self) -> bool {
-        self.expecting_tag_end
-            && self
-                .rest_of_line()
-                .split_once("end::")
-                .is_some_and(|(_, tag)| tag.contains("[]"))
+        self.expecting_tag_end && tag_from_directive("end::", self.rest_of_line()).is_some()
+    }
+
+    /// Checks for a tag directive in the line that the current token starts in
+    fn in_line_with_directive(&mut self, directive: &str) -> bool {
+        let line_start = self.source[..self.start].rfind('\n').map_or(0, |idx| idx + 1);
+        let line = self.source[line_start..].lines().next().unwrap_or("");
+        tag_from_directive(directive, line).is_some() && self.closes_attr_list_on_line()
     }
 
     /// Checks for document attribute references, e.g., {my-thing}
diff --git a/src/utils.rs b/src/utils.rs
index 207a98d..0231a34 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -84,6 +84,16 @@ pub fn extract_page_ranges(ranges_str: &str) -> Vec<RangeInclusive<i32>> {
     ranges
 }
 
+/// Returns the "foo" in, e.g., "// tag::foo[]"
+pub fn tag_from_directive<'a>(directive: &str, line: &'a str) -> Option<&'a str> {
+    let (before, after) = line.split_once(directive)?;
+    if before.ends_with(|c: char| c.is_alphanumeric()) {
+        return None;
+    }
+    let (tag, _) = after.split_once("[]")?;
+    (!tag.is_empty() && !tag.contains(char::is_whitespace)).then_some(tag)
+}
+
 pub fn extract_attributes(attribute_list: &str) -> Vec<String> {
     let mut attributes: Vec<String> = vec![];
     let mut non_quoted_key_values = attribute_list.to_owned();
-- 
2.43.0


From cd46a0a6cfd75899b55ee5de06a313141a1e6a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:23:29 +0000
Subject: [PATCH 073/126] fix: keep the positions of attributes next to quoted
 ones

---
 src/graph/metadata.rs |  2 --
 src/utils.rs          | 26 ++++++++++++++++++--------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 205641d..d5a7c42 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -11,8 +11,6 @@ use crate::graph::nodes::Location;
 use crate::scanner::tokens::{Token, TokenType};
 use crate::utils::{extract_attributes, key_values_from_named_attribute};
 
-// just make this quoted, and then pull everything else out
-pub static RE_NAMED_QUOTED: Lazy<Regex> = Lazy::new(|| Regex::new(r#"(\w*=".*?")"#).unwrap());
 pub static RE_NAMED: Lazy<Regex> = Lazy::new(|| Regex::new(r#"(.*?)[=|,](.*)"#).unwrap());
 
 #[derive(PartialEq, Clone, Debug)]
diff --git a/src/utils.rs b/src/utils.rs
index 0231a34..cf1756c 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -5,7 +5,7 @@ use std::collections::HashMap;
 use std::ops::RangeInclusive;
 
 use crate::errors::ParserError;
-use crate::graph::metadata::{ElementMetadata, RE_NAMED, RE_NAMED_QUOTED};
+use crate::graph::metadata::{ElementMetadata, RE_NAMED};
 use crate::scanner::tokens::{Token, TokenType};
 
 pub static RE_LINE_RANGES: Lazy<Regex> = Lazy::new(|| Regex::new(r#"([^,;]*)"#).unwrap());
@@ -94,15 +94,25 @@ pub fn tag_from_directive<'a>(directive: &str, line: &'a str) -> Option<&'a str>
     (!tag.is_empty() && !tag.contains(char::is_whitespace)).then_some(tag)
 }
 
+/// Splits an attribute list at its commas, save for those inside of quoted values
 pub fn extract_attributes(attribute_list: &str) -> Vec<String> {
     let mut attributes: Vec<String> = vec![];
-    let mut non_quoted_key_values = attribute_list.to_owned();
-    // TK "1,2,4" should be a single attribute, not "1,", 2, 4"
-    for quoted_attr in RE_NAMED_QUOTED.captures_iter(attribute_list) {
-        let (total, [_]) = quoted_attr.extract();
-        attributes.push(total.to_owned());
-        non_quoted_key_values = non_quoted_key_values.replace(total, "");
+    let mut start = 0;
+    let mut in_quotes = false;
+    for (idx, c) in attribute_list.char_indices() {
+        let attribute = attribute_list[start..idx].trim();
+        match c {
+            '"' if in_quotes => in_quotes = false,
+            '"' if attribute.is_empty() || attribute.ends_with('=') => {
+                in_quotes = attribute_list[idx + 1..].contains('"')
+            }
+            ',' if !in_quotes => {
+                attributes.push(attribute.to_string());
+                start = idx + 1;
+            }
+            _ => {}
+        }
     }
-    attributes.extend(non_quoted_key_values.split(',').map(|s| s.to_string()));
+    attributes.push(attribute_list[start..].trim().to_string());
     attributes
 }
-- 
2.43.0


From eea5b0cd0f64e4bced1f0e8e20e1e750032dc414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:02 +0000
Subject: [PATCH 074/126] fix: take quoted positional attributes, and text with
 a pipe or an equals sign in it, as they are

---
 src/graph/metadata.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index d5a7c42..2b5db6c 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -11,7 +11,7 @@ use crate::graph::nodes::Location;
 use crate::scanner::tokens::{Token, TokenType};
 use crate::utils::{extract_attributes, key_values_from_named_attribute};
 
-pub static RE_NAMED: Lazy<Regex> = Lazy::new(|| Regex::new(r#"(.*?)[=|,](.*)"#).unwrap());
+pub static RE_NAMED: Lazy<Regex> = Lazy::new(|| Regex::new(r#"^([\w-]+)\s*=\s*(.*)"#).unwrap());
 
 #[derive(PartialEq, Clone, Debug)]
 pub enum AttributeType {
@@ -202,6 +202,15 @@ impl ElementMetadata {
 
     pub fn process_attributes(&mut self, mut attributes: Vec<String>) {
         for (idx, attribute) in attributes.iter_mut().enumerate() {
+            // as opposed to name="value"
+            let quoted = attribute.strip_prefix('"').and_then(|rest| rest.strip_suffix('"'));
+            if let Some(quoted) = quoted {
+                *attribute = quoted.to_string();
+                if !attribute.is_empty() {
+                    self.process_attribute(idx, attribute);
+                }
+                continue;
+            }
             match key_values_from_named_attribute(attribute) {
                 Ok((key, values)) => {
                     if key == *"role" {
-- 
2.43.0


From 4e6f446879e7f80eb31b1b28c25272068bb36111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:37 +0000
Subject: [PATCH 075/126] fix: keep image text that starts like the name of a
 block type

---
 src/graph/metadata.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 2b5db6c..7a84c31 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -222,16 +222,13 @@ impl ElementMetadata {
                     }
                 }
                 Err(_) => {
-                    if idx == 0 && attribute.len() >= 2 {
-                        match attribute.get(..2) {
-                            Some("so" | "qu" | "ve") => {
-                                self.declared_type = AttributeType::from_str(attribute);
-                                continue;
-                            }
-                            _ => self.process_attribute(idx, attribute),
+                    match AttributeType::from_str(attribute) {
+                        // macros don't have types; their first attribute is text
+                        Some(declared_type) if idx == 0 && !self.inline_metadata => {
+                            self.declared_type = Some(declared_type)
                         }
-                    } else if !attribute.is_empty() {
-                        self.process_attribute(idx, attribute);
+                        _ if !attribute.is_empty() => self.process_attribute(idx, attribute),
+                        _ => {}
                     }
                 }
             }
-- 
2.43.0


From 8a8803e3fb7167f58e4ef2f240d4c40727c28f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:40 +0000
Subject: [PATCH 076/126] fix: leave out roles without a name

---
 src/graph/metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 7a84c31..b364294 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -214,7 +214,7 @@ impl ElementMetadata {
             match key_values_from_named_attribute(attribute) {
                 Ok((key, values)) => {
                     if key == *"role" {
-                        for role in values {
+                        for role in values.iter().filter(|role| !role.is_empty()) {
                             self.roles.push(role.to_string());
                         }
                     } else {
-- 
2.43.0


From 584b00ed62f05649721ead714df73801c01783d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:30:47 +0000
Subject: [PATCH 077/126] fix: don't let a title or attributes left over in a
 block out of it

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 0f8e87c..1bfc769 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1122,6 +1122,9 @@ impl Parser {
                     // update the final location
                     open.location = Location::reconcile(open.location.clone(), block.location);
                 }
+                // what was meant for a block that didn't follow isn't for what's outside
+                self.metadata = None;
+                self.block_title = None;
                 return self.close_last_block(asg);
             }
         }
-- 
2.43.0


From 69ffad2bf80c33dbed4c15123e911bf58dccd32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:21 +0000
Subject: [PATCH 078/126] fix: keep a title or attributes between an
 admonition's name and its text on the admonition

---
 src/graph/blocks.rs | 21 ++++++++++++++++++++-
 src/parser.rs       |  9 +++++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 87074db..46e9b04 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -211,6 +211,21 @@ impl Block {
         }
     }
 
+    /// Whether the block is an admonition that has been named, but doesn't have its text yet
+    pub fn is_empty_admonition(&self) -> bool {
+        matches!(self, Block::ParentBlock(block)
+            if block.name == ParentBlockName::Admonition && block.blocks.is_empty())
+    }
+
+    /// Whether the block, after the name of an admonition, is merely its text
+    pub fn is_admonition_text(&self) -> bool {
+        match self {
+            Block::ParentBlock(block) => block.name == ParentBlockName::Example,
+            Block::LeafBlock(block) => block.name == LeafBlockName::Paragraph,
+            _ => false,
+        }
+    }
+
     pub fn consolidate_table_info(&mut self) -> Result<(), BlockError> {
         let Block::ParentBlock(table) = self else {
             return Err(BlockError::IncorrectCall);
@@ -742,7 +757,11 @@ impl Block {
             Block::Break(block) => block.metadata = Some(metadata),
             Block::BlockMacro(block) => block.metadata = Some(metadata),
             Block::LeafBlock(block) => block.metadata = Some(metadata),
-            Block::ParentBlock(block) => block.metadata = Some(metadata),
+            Block::ParentBlock(block) => match block.metadata {
+                // admonitions have what's ahead of their name, if anything, to begin with
+                Some(ref mut extant) => extant.add_metadata_from_other(&metadata),
+                None => block.metadata = Some(metadata),
+            },
             Block::TableCell(block) => block.metadata = Some(metadata),
             _ => {
                 return Err(ParserError::InternalError(format!(
diff --git a/src/parser.rs b/src/parser.rs
index 1bfc769..6bfc19c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1223,11 +1223,16 @@ impl Parser {
             }
             self.close_last_block(asg)?;
         }
+        let target = match self.block_stack.last_mut() {
+            // what's between the name of an admonition and its text is about the admonition
+            Some(last) if last.is_empty_admonition() && block.is_admonition_text() => last,
+            _ => &mut block,
+        };
         if let Some(metadata) = self.metadata.take() {
-            block.add_metadata(metadata)?;
+            target.add_metadata(metadata)?;
         }
         if let Some(title) = self.block_title.take() {
-            block.add_title(title);
+            target.add_title(title);
         }
         self.block_stack.push(block);
         Ok(())
-- 
2.43.0


From ac7a598890c3542e5124cb9be5fe68079be73b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:58 +0000
Subject: [PATCH 079/126] fix: keep the elements of lists and other blocks that
 are admonitions in HTML

---
 templates/htmlbook/block.html.tera | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/templates/htmlbook/block.html.tera b/templates/htmlbook/block.html.tera
index 9db0329..17e82e9 100644
--- a/templates/htmlbook/block.html.tera
+++ b/templates/htmlbook/block.html.tera
@@ -111,7 +111,9 @@ this should work.
         {%- endif -%}
         {%- if block.blocks and block.name != "section" %}
         {%- for child_block in block.blocks %}
-        {{- self::process_block(block=child_block, skip_tag=local_skip_tag )-}}
+        {#- an example is only there to delimit the admonition -#}
+        {%- set skip_child_tag = local_skip_tag and child_block.name == "example" -%}
+        {{- self::process_block(block=child_block, skip_tag=skip_child_tag )-}}
         {%- endfor -%}
         {% endif -%}
     {%- if block.metadata.attributes.attribution -%}
-- 
2.43.0


From b9096240506626b56c0076c2dc0b86862e253afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:18 +0000
Subject: [PATCH 080/126] fix: leave elements out of the title of the HTML page

---
 templates/htmlbook/htmlbook.html.tera | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/htmlbook/htmlbook.html.tera b/templates/htmlbook/htmlbook.html.tera
index a8c0c17..e19c2f1 100644
--- a/templates/htmlbook/htmlbook.html.tera
+++ b/templates/htmlbook/htmlbook.html.tera
@@ -8,7 +8,7 @@
     <meta name="viewport" content="width=device-width, initial-scale=1">
     <title>{%- if header %}
         {%- for inline in header.title %}
-        {{- inline_macros::process_inline(inline=inline) -}}
+        {{- inline_macros::process_inline(inline=inline) | striptags -}}
         {% endfor -%}
         {% endif -%}</title>
 </head>
-- 
2.43.0


From 59cc0d685557666141f1a6d9785d5645daf7fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:12 +0000
Subject: [PATCH 081/126] fix: give inline images their alt text in HTML

---
 templates/htmlbook/inline.html.tera | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/htmlbook/inline.html.tera b/templates/htmlbook/inline.html.tera
index c1f4841..33d40c9 100644
--- a/templates/htmlbook/inline.html.tera
+++ b/templates/htmlbook/inline.html.tera
@@ -42,6 +42,8 @@
     {%- if data_type %} data-type="{{data_type}}"
     {%- endif -%}
     {%- if target %} {{target}}
+    {%- endif -%}
+    {%- if self_close and inline.metadata.attributes.positional_1 %} alt="{{inline.metadata.attributes.positional_1 | escape_attribute}}"
     {%- endif -%}{%-if self_close%} /{%-endif-%}>
 {%- endif -%}
     {%- if not self_close -%}
-- 
2.43.0


From 197124d4ffc1c0b206e7619d06d85148971aa95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:37 +0000
Subject: [PATCH 082/126] fix: render who a verse is by in HTML

---
 templates/htmlbook/leafblocks.html.tera | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/templates/htmlbook/leafblocks.html.tera b/templates/htmlbook/leafblocks.html.tera
index 52ff173..2831183 100644
--- a/templates/htmlbook/leafblocks.html.tera
+++ b/templates/htmlbook/leafblocks.html.tera
@@ -43,4 +43,10 @@
     {%- endfor -%}
     {%- endif -%}
 {%- if tag -%}</{{tag}}>{%- endif -%}
+{%- if block.name == "verse" and block.metadata.attributes.attribution %}
+<p data-type="attribution">{{block.metadata.attributes.attribution | escape_text}}
+    {%- if block.metadata.attributes.citation -%}, {{block.metadata.attributes.citation | escape_text}}
+    {%- endif -%}
+</p>
+{%- endif -%}
 {%- endmacro process_leaf_block -%}
-- 
2.43.0


From cd53d1cac320e0bd1b8ec1d84b3a539157cbee5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:33 +0000
Subject: [PATCH 083/126] fix: let a quoted paragraph's location go on to the
 end of its text

---
 src/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser.rs b/src/parser.rs
index 6bfc19c..c7f4d33 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1486,6 +1486,7 @@ impl Parser {
                     vec![],
                     vec![],
                 ));
+                para_block.consolidate_locations();
                 quote_block.push_block(para_block)?;
                 return self.push_block_to_stack(quote_block, asg);
             }
-- 
2.43.0


From f6a219726859c6d046a938e72025ee35f873fcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:18 +0000
Subject: [PATCH 084/126] fix: say where the text of a link that was never
 closed is

---
 src/graph/inlines.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 881ea1a..57ed16c 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -144,10 +144,15 @@ impl Inline {
                 Inline::InlineRef(ref mut iref) => {
                     // the link itself is fine, it's only the text that wasn't closed
                     let text = std::mem::take(&mut iref.inlines);
+                    let mut bracket_location: Vec<Location> = vec![];
+                    if let Some(end) = iref.location.last_mut() {
+                        bracket_location = vec![end.clone(), end.clone()];
+                        end.col -= 1;
+                    }
                     let bracket = InlineLiteral::new(
                         InlineLiteralName::Text,
                         "[".to_string(),
-                        iref.location.clone(),
+                        bracket_location,
                     );
                     inline.close();
                     flattened.push(inline);
-- 
2.43.0


From 823091da71925ef35877421f278320965c96ba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:04 +0000
Subject: [PATCH 085/126] fix: don't take the end of the file as text of a
 verse that was never closed

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index c7f4d33..6a3527e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -172,6 +172,9 @@ impl Parser {
 
         if let Some(token_type) = self.open_parse_after_as_text_type {
             match token_type {
+                // the end of the file isn't text, wherever we are
+                _ if token.token_type() == TokenType::Eof
+                    && token_type != TokenType::PassthroughInlineMacro => {}
                 TokenType::QuoteVerseBlock => {
                     if token.token_type() == TokenType::QuoteVerseBlock
                         || token.is_inline()
-- 
2.43.0


From 8ffe011aee30faa4e670332015e1aa0890433433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:46 +0000
Subject: [PATCH 086/126] fix: only take a number in angle brackets as a
 callout where there is code

---
 src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6a3527e..6fbea1c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -342,7 +342,13 @@ impl Parser {
                 self.parse_delimited_leaf_block(token, asg)
             }
             TokenType::SourceBlock => self.parse_delimited_leaf_block(token, asg),
-            TokenType::CodeCallout => self.parse_code_callout(token),
+            TokenType::CodeCallout
+                if self.open_parse_after_as_text_type == Some(TokenType::SourceBlock) =>
+            {
+                self.parse_code_callout(token)
+            }
+            // there's no code to call out
+            TokenType::CodeCallout => self.parse_text(token),
 
             // block macros
             TokenType::BlockImageMacro => self.parse_block_image(token, asg),
-- 
2.43.0


From 1699cc6080af68f8d09905040deabc45efa95086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:00 +0000
Subject: [PATCH 087/126] fix: keep the line break after a line of a verse that
 looks like a delimiter

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6fbea1c..d2557e5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -517,7 +517,10 @@ impl Parser {
                 // and then force a new block hereafter
                 self.force_new_block = true;
             }
-        } else if self.last_token_type.clears_newline_after() {
+        } else if self.last_token_type.clears_newline_after()
+            && (self.open_parse_after_as_text_type != Some(TokenType::QuoteVerseBlock)
+                || self.inline_stack.is_empty())
+        {
             // don't add a newline ahead of text in these cases
             self.dangling_newline = None;
         } else {
-- 
2.43.0


From b21571c48b5d2c8e1f7f37a2496da22bc1a9b69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:39 +0000
Subject: [PATCH 088/126] fix: count bytes in the location of text ahead of a
 term, as everywhere else

---
 src/graph/inlines.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 57ed16c..1ae379d 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -217,8 +217,8 @@ impl Inline {
         let mut preceding_end = end.clone();
         preceding_end.line = end.line.saturating_sub(1);
         preceding_end.col = match preceding.rsplit_once('\n') {
-            Some((_, line)) => line.chars().count(),
-            None => start.col + preceding.chars().count().saturating_sub(1),
+            Some((_, line)) => line.len(),
+            None => start.col + preceding.len().saturating_sub(1),
         };
         let mut last_line_start = end.clone();
         last_line_start.col = 1;
-- 
2.43.0


From d16940aada82906e28e89b77b2b80fcb4d1cc542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:06 +0000
Subject: [PATCH 089/126] fix: give the thematic break's docx paragraph the
 style it defines

---
 src/backends/docx/styles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backends/docx/styles.rs b/src/backends/docx/styles.rs
index 166d63f..d0c6e72 100644
--- a/src/backends/docx/styles.rs
+++ b/src/backends/docx/styles.rs
@@ -40,7 +40,7 @@ impl DocumentStyles {
             DocumentStyles::OrderedListParagraph(id) => format!("NumberedListParagraph_{}", id),
             DocumentStyles::DefinitionTerm => "Definition Term".into(),
             DocumentStyles::Definition => "Definition".into(),
-            DocumentStyles::ThematicBreak => "ThematicBreak".into(),
+            DocumentStyles::ThematicBreak => "Thematic Break".into(),
             DocumentStyles::Table => "Table".into(),
         }
     }
-- 
2.43.0


From f4fe53687ab7164462bb199b767d130e995a5af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:23 +0000
Subject: [PATCH 090/126] fix: number every list in docx, starting over for
 each, and bullet unordered ones

---
 src/backends/docx/document.rs  | 34 +++++++++++++++++-----------------
 src/backends/docx/numbering.rs | 10 ++++++++++
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 6d9cf45..5fdd83b 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -16,7 +16,7 @@ use crate::graph::{
     lists::{DListItem, List, ListItem, ListVariant},
 };
 
-use super::numbering::add_bullet_abstract_numbering;
+use super::numbering::{add_bullet_abstract_numbering, add_decimal_abstract_numbering};
 use super::styles::DocumentStyles;
 use super::units::{DXA_INCH, inches};
 
@@ -64,8 +64,8 @@ pub struct DocxWriter {
     line_break_before: bool,
     preserve_lines: bool,
     replace_charrefs: bool,
-    abstract_numbering: usize,
     numbering: usize,
+    list_numbering: usize,
     current_style: DocumentStyles,
 }
 
@@ -82,8 +82,8 @@ impl DocxWriter {
             line_break_before: false,
             preserve_lines: false,
             replace_charrefs: true,
-            abstract_numbering: 0,
-            numbering: 0,
+            numbering: 1, // docx_rs has a numbering 1 of its own
+            list_numbering: 1,
             current_style: DocumentStyles::Normal,
         }
     }
@@ -184,27 +184,27 @@ impl DocxWriter {
 
     fn add_list(&mut self, mut docx: Docx, list: &List) -> Result<Docx, DocxRenderError> {
         docx = self.add_title(docx, &list.title)?;
+        // each list has a numbering of its own, so that it starts over
         self.numbering += 1;
-        match list.variant {
+        let outer_numbering = self.list_numbering;
+        self.list_numbering = self.numbering;
+        let abstract_numbering = match list.variant {
             ListVariant::Ordered | ListVariant::Callout => {
-                docx = self.set_style(docx, DocumentStyles::OrderedListParagraph(self.numbering))?
+                docx = self.set_style(docx, DocumentStyles::OrderedListParagraph(self.numbering))?;
+                add_decimal_abstract_numbering(self.numbering)
             }
             ListVariant::Unordered => {
                 docx = self.set_style(docx, DocumentStyles::ListParagraph)?;
-                if self.abstract_numbering == 0 {
-                    // really only do this once
-                    self.abstract_numbering += 1;
-                    docx = docx
-                        .add_abstract_numbering(add_bullet_abstract_numbering(
-                            self.abstract_numbering,
-                        ))
-                        .add_numbering(Numbering::new(self.numbering, self.abstract_numbering))
-                }
+                add_bullet_abstract_numbering(self.numbering)
             }
-        }
+        };
+        docx = docx
+            .add_abstract_numbering(abstract_numbering)
+            .add_numbering(Numbering::new(self.numbering, self.numbering));
         for item in list.items.iter() {
             docx = self.add_block_to_doc(docx, item)?
         }
+        self.list_numbering = outer_numbering;
         Ok(docx)
     }
 
@@ -214,7 +214,7 @@ impl DocxWriter {
 
         para = para
             .style(&self.current_style.style_id())
-            .numbering(NumberingId::new(self.numbering), IndentLevel::new(0));
+            .numbering(NumberingId::new(self.list_numbering), IndentLevel::new(0));
         para = self.add_inlines_to_para(para, item.principal());
         docx = self.add_paragraph(docx, para)?;
         // add any children -- TODO style them as list continues
diff --git a/src/backends/docx/numbering.rs b/src/backends/docx/numbering.rs
index 9759e54..e5903d5 100644
--- a/src/backends/docx/numbering.rs
+++ b/src/backends/docx/numbering.rs
@@ -12,6 +12,16 @@ pub fn add_bullet_abstract_numbering(id: usize) -> AbstractNumbering {
     ))
 }
 
+pub fn add_decimal_abstract_numbering(id: usize) -> AbstractNumbering {
+    AbstractNumbering::new(id).add_level(Level::new(
+        0,
+        Start::new(1),
+        NumberFormat::new("decimal"),
+        LevelText::new("%1."),
+        LevelJc::new("start"),
+    ))
+}
+
 // // Add the concrete numbering instance that references the abstract numbering.
 // // The id (1 in this case) links this specific numbering to the abstract definition.
 // docx = docx.add_numbering(docx_rs::Numbering::new(1, 1));
-- 
2.43.0


From ef376afc6683b5bc171428dc757c18df7c528344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:47 +0000
Subject: [PATCH 091/126] fix: break the page before tables and images in docx,
 not after them

---
 src/backends/docx/document.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 5fdd83b..d3e1259 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -358,6 +358,10 @@ impl DocxWriter {
     fn add_table(&mut self, mut docx: Docx, table: &ParentBlock) -> Result<Docx, DocxRenderError> {
         // TODO: headers on tables
         docx = self.add_title(docx, &table.title)?;
+        if self.page_break_before {
+            // only a paragraph can start a page
+            docx = self.add_paragraph(docx, Paragraph::new())?;
+        }
         docx = self.set_style(docx, DocumentStyles::Table)?;
         let mut cols: usize = 1;
         if let Some(ref metadata) = table.metadata {
@@ -395,7 +399,8 @@ impl DocxWriter {
             let mut buf = vec![];
             let _ = img.read_to_end(&mut buf)?;
             let pic = Pic::new(&buf);
-            docx = docx.add_paragraph(Paragraph::new().add_run(Run::new().add_image(pic)));
+            let para = Paragraph::new().add_run(Run::new().add_image(pic));
+            docx = self.add_paragraph(docx, para)?;
             docx = self.add_title(docx, &block.caption)?;
         } else {
             todo!()
-- 
2.43.0


From 144daac75f61bc618bb0fdf4d2e1b2bce43fd404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:49 +0000
Subject: [PATCH 092/126] fix: use less of the stack for blocks nested in docx

---
 src/backends/docx/document.rs | 144 ++++++++++++++++++----------------
 1 file changed, 77 insertions(+), 67 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index d3e1259..7109dec 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -9,8 +9,8 @@ use regex::Regex;
 
 use crate::graph::{
     blocks::{
-        Block, BlockMacro, BlockMacroName, BreakVariant, LeafBlock, LeafBlockName, ParentBlock,
-        ParentBlockName, Section,
+        Block, BlockMacro, BlockMacroName, Break, BreakVariant, LeafBlock, LeafBlockName,
+        ParentBlock, ParentBlockName, Section,
     },
     inlines::{Inline, InlineLiteral, InlineSpanVariant},
     lists::{DListItem, List, ListItem, ListVariant},
@@ -109,77 +109,86 @@ impl DocxWriter {
         Ok(docx.add_paragraph(para))
     }
 
-    pub fn add_block_to_doc(
-        &mut self,
-        mut docx: Docx,
-        block: &Block,
-    ) -> Result<Docx, DocxRenderError> {
+    pub fn add_block_to_doc(&mut self, docx: Docx, block: &Block) -> Result<Docx, DocxRenderError> {
         let outer_style = self.current_style.clone();
-        match block {
-            Block::Section(section) => docx = self.add_section(docx, section)?,
-            Block::List(list) => docx = self.add_list(docx, list)?,
-            Block::ListItem(item) => docx = self.add_list_item(docx, item)?,
-            Block::DList(list) => {
-                docx = self.add_title(docx, &list.title)?;
-                for item in list.items.iter() {
-                    docx = self.add_block_to_doc(docx, item)?
-                }
-            }
-            Block::DListItem(item) => docx = self.add_dlist_item(docx, item)?,
-            Block::Break(block) => match block.variant {
-                BreakVariant::Page => {
-                    self.page_break_before = true;
-                }
-                BreakVariant::Thematic => {
-                    docx = self.set_style(docx, DocumentStyles::ThematicBreak)?;
-                    docx = self
-                        .add_paragraph(docx, Paragraph::new().add_run(Run::new().add_text("#")))?
-                }
-            },
-            Block::LeafBlock(block) => {
-                docx = self.add_title(docx, &block.title)?;
-                match block.name {
-                    LeafBlockName::Verse => {
-                        docx = self.set_style(docx, DocumentStyles::Verse)?;
-                    }
-                    LeafBlockName::Listing | LeafBlockName::Literal => {
-                        docx = self.set_style(docx, DocumentStyles::Monospace)?;
-                    }
-                    _ => {}
-                }
-                let para = self.add_leaf_inlines_to_para(Paragraph::new(), block);
-                docx = self.add_paragraph(docx, para)?
-            }
+        // the document is large, and blocks can be nested, so there's only one of it here
+        let result = match block {
+            Block::Section(section) => self.add_section(docx, section),
+            Block::List(list) => self.add_list(docx, list),
+            Block::ListItem(item) => self.add_list_item(docx, item),
+            Block::DList(list) => self.add_titled_blocks(docx, &list.title, &list.items),
+            Block::DListItem(item) => self.add_dlist_item(docx, item),
+            Block::Break(block) => self.add_break(docx, block),
+            Block::LeafBlock(block) => self.add_leaf_block(docx, block),
             Block::ParentBlock(parent) => match parent.name {
-                ParentBlockName::Admonition => {
-                    docx = self.add_parent_block(docx, parent, "Admonition")?
-                }
-                ParentBlockName::Example => {
-                    docx = self.add_parent_block(docx, parent, "Example")?
-                }
-                ParentBlockName::Sidebar => {
-                    docx = self.add_parent_block(docx, parent, "Sidebar")?
-                }
+                ParentBlockName::Admonition => self.add_parent_block(docx, parent, "Admonition"),
+                ParentBlockName::Example => self.add_parent_block(docx, parent, "Example"),
+                ParentBlockName::Sidebar => self.add_parent_block(docx, parent, "Sidebar"),
                 ParentBlockName::Open => {
-                    docx = self.add_title(docx, &parent.title)?;
-                    for child in parent.blocks.iter() {
-                        docx = self.add_block_to_doc(docx, child)?
-                    }
+                    self.add_titled_blocks(docx, &parent.title, &parent.blocks)
                 }
-                ParentBlockName::Quote => docx = self.add_quote(docx, parent)?,
-                ParentBlockName::Table => docx = self.add_table(docx, parent)?,
-                ParentBlockName::FootnoteContainer => {} // should never appear in this context
+                ParentBlockName::Quote => self.add_quote(docx, parent),
+                ParentBlockName::Table => self.add_table(docx, parent),
+                ParentBlockName::FootnoteContainer => Ok(docx), // should never appear in this context
             },
-            Block::BlockMacro(block) => docx = self.add_block_macro(docx, block)?,
-            Block::TableCell(_) => {} // handled directly in the parent block
-            Block::BlockMetadata(_) => {} // not implemented by parser
-            Block::SectionBody => {}  // not implemented by parser
-            Block::NonSectionBlockBody(_) => {} // not implemented by parser
-            Block::DiscreteHeading => {} // not implemented by parser
-        }
+            Block::BlockMacro(block) => self.add_block_macro(docx, block),
+            Block::TableCell(_) => Ok(docx), // handled directly in the parent block
+            Block::BlockMetadata(_) => Ok(docx), // not implemented by parser
+            Block::SectionBody => Ok(docx),  // not implemented by parser
+            Block::NonSectionBlockBody(_) => Ok(docx), // not implemented by parser
+            Block::DiscreteHeading => Ok(docx), // not implemented by parser
+        };
         // what follows isn't styled as the block was
         self.current_style = outer_style;
-        Ok(docx)
+        result
+    }
+
+    fn add_titled_blocks(
+        &mut self,
+        docx: Docx,
+        title: &[Inline],
+        blocks: &[Block],
+    ) -> Result<Docx, DocxRenderError> {
+        let docx = self.add_title(docx, title)?;
+        self.add_blocks(docx, blocks)
+    }
+
+    fn add_blocks(&mut self, docx: Docx, blocks: &[Block]) -> Result<Docx, DocxRenderError> {
+        blocks
+            .iter()
+            .try_fold(docx, |docx, block| self.add_block_to_doc(docx, block))
+    }
+
+    fn add_break(&mut self, mut docx: Docx, block: &Break) -> Result<Docx, DocxRenderError> {
+        match block.variant {
+            BreakVariant::Page => {
+                self.page_break_before = true;
+                Ok(docx)
+            }
+            BreakVariant::Thematic => {
+                docx = self.set_style(docx, DocumentStyles::ThematicBreak)?;
+                self.add_paragraph(docx, Paragraph::new().add_run(Run::new().add_text("#")))
+            }
+        }
+    }
+
+    fn add_leaf_block(
+        &mut self,
+        mut docx: Docx,
+        block: &LeafBlock,
+    ) -> Result<Docx, DocxRenderError> {
+        docx = self.add_title(docx, &block.title)?;
+        match block.name {
+            LeafBlockName::Verse => {
+                docx = self.set_style(docx, DocumentStyles::Verse)?;
+            }
+            LeafBlockName::Listing | LeafBlockName::Literal => {
+                docx = self.set_style(docx, DocumentStyles::Monospace)?;
+            }
+            _ => {}
+        }
+        let para = self.add_leaf_inlines_to_para(Paragraph::new(), block);
+        self.add_paragraph(docx, para)
     }
 
     fn add_list(&mut self, mut docx: Docx, list: &List) -> Result<Docx, DocxRenderError> {
@@ -190,7 +199,8 @@ impl DocxWriter {
         self.list_numbering = self.numbering;
         let abstract_numbering = match list.variant {
             ListVariant::Ordered | ListVariant::Callout => {
-                docx = self.set_style(docx, DocumentStyles::OrderedListParagraph(self.numbering))?;
+                docx =
+                    self.set_style(docx, DocumentStyles::OrderedListParagraph(self.numbering))?;
                 add_decimal_abstract_numbering(self.numbering)
             }
             ListVariant::Unordered => {
-- 
2.43.0


From 7d0a25483ae26fb3de7ada54359dae9bd1a01497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:57 +0000
Subject: [PATCH 093/126] fix: write images, breaks, tables and labels of
 blocks in list items to docx

---
 src/backends/docx/document.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 7109dec..14e4376 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -245,7 +245,10 @@ impl DocxWriter {
         block: &Block,
     ) -> Result<Docx, DocxRenderError> {
         let (inlines, children) = match block {
-            Block::ParentBlock(parent) => (parent.title.clone(), parent.blocks.clone()),
+            // these are more than their inlines
+            Block::ParentBlock(_) | Block::BlockMacro(_) | Block::Break(_) => {
+                return self.add_block_to_doc(docx, block);
+            }
             Block::List(list) => (list.title.clone(), list.items.clone()),
             Block::DList(list) => (list.title.clone(), list.items.clone()),
             Block::ListItem(item) => (item.principal(), item.blocks()),
-- 
2.43.0


From be6aa59120624346c9ed3bdc739b1d9f0a47b1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:50 +0000
Subject: [PATCH 094/126] fix: write who said a verse, and where a quote is
 from, to docx

---
 src/backends/docx/document.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 14e4376..ec42331 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -14,6 +14,7 @@ use crate::graph::{
     },
     inlines::{Inline, InlineLiteral, InlineSpanVariant},
     lists::{DListItem, List, ListItem, ListVariant},
+    metadata::ElementMetadata,
 };
 
 use super::numbering::{add_bullet_abstract_numbering, add_decimal_abstract_numbering};
@@ -188,7 +189,11 @@ impl DocxWriter {
             _ => {}
         }
         let para = self.add_leaf_inlines_to_para(Paragraph::new(), block);
-        self.add_paragraph(docx, para)
+        docx = self.add_paragraph(docx, para)?;
+        match block.name {
+            LeafBlockName::Verse => self.add_attribution(docx, &block.metadata),
+            _ => Ok(docx),
+        }
     }
 
     fn add_list(&mut self, mut docx: Docx, list: &List) -> Result<Docx, DocxRenderError> {
@@ -263,6 +268,9 @@ impl DocxWriter {
                 let mut para = Paragraph::new().style(&self.current_style.style_id());
                 para = self.add_leaf_inlines_to_para(para, leaf);
                 docx = self.add_paragraph(docx, para)?;
+                if matches!(leaf.name, LeafBlockName::Verse) {
+                    docx = self.add_attribution(docx, &leaf.metadata)?;
+                }
                 (vec![], vec![])
             }
             _ => (block.inlines(), vec![]),
@@ -355,16 +363,30 @@ impl DocxWriter {
         for child in parent.blocks.iter() {
             docx = self.add_block_to_doc(docx, child)?
         }
-        if let Some(metadata) = &parent.metadata {
+        docx = self.add_attribution(docx, &parent.metadata)?;
+        self.reset_style();
+        Ok(docx)
+    }
+
+    /// Adds who is quoted, and from what, if that's known
+    fn add_attribution(
+        &mut self,
+        mut docx: Docx,
+        metadata: &Option<ElementMetadata>,
+    ) -> Result<Docx, DocxRenderError> {
+        if let Some(metadata) = metadata {
             if let Some(attribution) = metadata.attributes.get("attribution") {
+                let mut text = format!("— {}", attribution);
+                if let Some(citation) = metadata.attributes.get("citation") {
+                    text.push_str(&format!(", {}", citation));
+                }
                 let para = Paragraph::new()
                     .line_spacing(LineSpacing::new().after(480))
-                    .add_run(Run::new().add_text(format!("— {}\n", attribution)));
+                    .add_run(Run::new().add_text(text));
 
                 docx = self.add_paragraph(docx, para)?
             }
         }
-        self.reset_style();
         Ok(docx)
     }
 
-- 
2.43.0


From bd5143cc7d4d81b1ba1694a134cf6ab10e590f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:26 +0000
Subject: [PATCH 095/126] fix: reject images that docx can't have instead of
 panicking

---
 src/backends/docx/document.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index ec42331..0adf391 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -1,4 +1,4 @@
-use std::{fs::File, io::Read};
+use std::{fs::File, io::Read, panic::catch_unwind};
 
 use docx_rs::{
     BreakType, Docx, Header, IndentLevel, LineSpacing, Numbering, NumberingId, PageMargin, PageNum,
@@ -55,6 +55,8 @@ pub enum DocxRenderError {
     FileError(#[from] std::io::Error),
     #[error("Docx error: Invalid column designation")]
     ColumnError,
+    #[error("Docx error: unsupported image: {0}")]
+    ImageError(String),
     #[error("Docx error: error writing file")]
     ZipFileError,
 }
@@ -433,7 +435,9 @@ impl DocxWriter {
             let mut img = File::open(block.target.clone())?;
             let mut buf = vec![];
             let _ = img.read_to_end(&mut buf)?;
-            let pic = Pic::new(&buf);
+            // panics on what isn't an image it knows
+            let pic = catch_unwind(|| Pic::new(&buf))
+                .map_err(|_| DocxRenderError::ImageError(block.target.clone()))?;
             let para = Paragraph::new().add_run(Run::new().add_image(pic));
             docx = self.add_paragraph(docx, para)?;
             docx = self.add_title(docx, &block.caption)?;
-- 
2.43.0


From f5c7312878d89067e065f8b65f60c221be41cb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:29 +0000
Subject: [PATCH 096/126] fix: don't overwrite the document with its output

---
 src/bin/asciidocr/main.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/bin/asciidocr/main.rs b/src/bin/asciidocr/main.rs
index 22b1c7c..e8994f4 100644
--- a/src/bin/asciidocr/main.rs
+++ b/src/bin/asciidocr/main.rs
@@ -1,6 +1,6 @@
 mod cli;
 
-use anyhow::Result;
+use anyhow::{Result, bail};
 use clap::Parser;
 use simple_logger::SimpleLogger;
 use std::{fs, path::PathBuf};
@@ -45,10 +45,10 @@ fn run(args: Cli) -> Result<()> {
 
     match args.backend {
         Backends::Htmlbook => {
-            render_string(render_htmlbook(&graph)?, read_output(args))
+            render_string(render_htmlbook(&graph)?, output_destination(args)?)
         }
         Backends::Json => {
-            render_string(serde_json::to_string_pretty(&graph)?, read_output(args))
+            render_string(serde_json::to_string_pretty(&graph)?, output_destination(args)?)
         }
 
         #[cfg(feature = "docx")]
@@ -60,7 +60,7 @@ fn run(args: Cli) -> Result<()> {
                 std::process::exit(1)
             }
 
-            if let Some(output_path) = read_output(args) {
+            if let Some(output_path) = output_destination(args)? {
                 render_docx(&graph, &output_path)?;
                 Ok(())
             } else {
@@ -71,6 +71,18 @@ fn run(args: Cli) -> Result<()> {
     }
 }
 
+/// Where to put the output, which is never the document itself
+fn output_destination(args: Cli) -> Result<Option<PathBuf>> {
+    let input = fs::canonicalize(&args.file);
+    let destination = read_output(args);
+    if let (Ok(input), Some(output)) = (input, &destination) {
+        if fs::canonicalize(output).is_ok_and(|output| output == input) {
+            bail!("{} is both the input and the output", output.display())
+        }
+    }
+    Ok(destination)
+}
+
 fn render_string(result: String, output_destination: Option<PathBuf>) -> Result<()> {
     match output_destination {
         Some(out_file) => fs::write(out_file, result)?,
-- 
2.43.0


From 98926fb45f66c9adfca168c044c41dfea44cc296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:13 +0000
Subject: [PATCH 097/126] fix: log to stderr, so that output sent to stdout has
 nothing else in it

---
 src/bin/asciidocr/main.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/bin/asciidocr/main.rs b/src/bin/asciidocr/main.rs
index e8994f4..6d924cb 100644
--- a/src/bin/asciidocr/main.rs
+++ b/src/bin/asciidocr/main.rs
@@ -2,7 +2,6 @@ mod cli;
 
 use anyhow::{Result, bail};
 use clap::Parser;
-use simple_logger::SimpleLogger;
 use std::{fs, path::PathBuf};
 
 use asciidocr::{
@@ -16,13 +15,26 @@ use asciidocr::backends::docx::render_docx;
 
 use cli::{Cli, read_input, read_output};
 
+/// Keeps what is logged apart from output sent to stdout
+struct StderrLogger;
+
+impl log::Log for StderrLogger {
+    fn enabled(&self, metadata: &log::Metadata) -> bool {
+        metadata.level() <= log::LevelFilter::Warn
+    }
+
+    fn log(&self, record: &log::Record) {
+        if self.enabled(record.metadata()) {
+            eprintln!("{} [{}] {}", record.level(), record.target(), record.args());
+        }
+    }
+
+    fn flush(&self) {}
+}
+
 fn main() {
-    SimpleLogger::new()
-        .with_level(log::LevelFilter::Warn)
-        .with_colors(true)
-        .without_timestamps()
-        .init()
-        .unwrap();
+    log::set_logger(&StderrLogger).unwrap();
+    log::set_max_level(log::LevelFilter::Warn);
     let args = Cli::parse();
 
     if let Err(e) = run(args) {
-- 
2.43.0


From 05732ed76646ca88306ef65976b461f9cd477df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:33 +0000
Subject: [PATCH 098/126] fix: fail on stdin that isn't text as on such a file,
 instead of panicking

---
 src/bin/asciidocr/cli.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/bin/asciidocr/cli.rs b/src/bin/asciidocr/cli.rs
index a4f759e..8d6bf56 100644
--- a/src/bin/asciidocr/cli.rs
+++ b/src/bin/asciidocr/cli.rs
@@ -31,15 +31,16 @@ pub struct Cli {
 }
 
 pub fn read_input(args: &Cli) -> String {
-    match args.file.as_str() {
-        "-" => io::read_to_string(io::stdin()).expect("Error reading from stdin"),
-        _ => match fs::read_to_string(args.file.as_str()) {
-            Ok(file_string) => file_string,
-            Err(e) => {
-                warn!("Unable to read file {:?}: {e}", &args.file.as_str());
-                std::process::exit(1)
-            }
-        },
+    let input = match args.file.as_str() {
+        "-" => io::read_to_string(io::stdin()),
+        _ => fs::read_to_string(args.file.as_str()),
+    };
+    match input {
+        Ok(file_string) => file_string,
+        Err(e) => {
+            warn!("Unable to read file {:?}: {e}", &args.file.as_str());
+            std::process::exit(1)
+        }
     }
 }
 
-- 
2.43.0


From 0d319a7aca2d81fa3b84b77f65146504b6c7de3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:06 +0000
Subject: [PATCH 099/126] fix: fail when stdout can't be written to, instead of
 panicking

---
 src/bin/asciidocr/main.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/bin/asciidocr/main.rs b/src/bin/asciidocr/main.rs
index 6d924cb..c1a4019 100644
--- a/src/bin/asciidocr/main.rs
+++ b/src/bin/asciidocr/main.rs
@@ -2,7 +2,11 @@ mod cli;
 
 use anyhow::{Result, bail};
 use clap::Parser;
-use std::{fs, path::PathBuf};
+use std::{
+    fs,
+    io::{self, Write},
+    path::PathBuf,
+};
 
 use asciidocr::{
     backends::{Backends, htmls::render_htmlbook},
@@ -52,7 +56,12 @@ fn run(args: Cli) -> Result<()> {
         }
     };
     if args.count {
-        println!("{} words in {}", graph.word_count(), args.file)
+        writeln!(
+            io::stdout(),
+            "{} words in {}",
+            graph.word_count(),
+            args.file
+        )?
     }
 
     match args.backend {
@@ -98,7 +107,7 @@ fn output_destination(args: Cli) -> Result<Option<PathBuf>> {
 fn render_string(result: String, output_destination: Option<PathBuf>) -> Result<()> {
     match output_destination {
         Some(out_file) => fs::write(out_file, result)?,
-        None => println!("{}", result),
+        None => writeln!(io::stdout(), "{}", result)?,
     }
     Ok(())
 }
-- 
2.43.0


From e03b3a07f3c2ce9d089e9b9dc2a8d4dfe2d328b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:31:25 +0000
Subject: [PATCH 100/126] fix: count the first word of a footnote apart from
 the word it is on

---
 src/graph/inlines.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 1ae379d..365a778 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -249,6 +249,10 @@ impl Inline {
             Inline::InlineLiteral(literal) => literal.value.clone(),
             Inline::InlineSpan(span) => {
                 let mut values = String::new();
+                // a note is not a part of the word it is attached to
+                if self.is_footnote() {
+                    values.push(' ');
+                }
                 for inline in &span.inlines {
                     values.push_str(&inline.extract_values_to_string())
                 }
-- 
2.43.0


From 4ea98f7575081021a61be02003fca36c2a7d954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:30 +0000
Subject: [PATCH 101/126] fix: links have all of their target, and only start
 with http:// or https://

---
 src/scanner/mod.rs | 60 +++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index a98ea72..51b02e7 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -305,7 +305,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             'h' => {
-                if self.peeks_ahead(3) == "ttp" {
+                if self.starts_link() {
                     self.add_link()
                 } else {
                     self.add_text_until_next_markup()
@@ -561,37 +561,37 @@ impl<'a> Scanner<'a> {
 
     /// Adds the link, consuming the target but not any attributes
     fn add_link(&mut self) -> Result<Token, ScannerError> {
-        let hyperlink_allowed_punctuation = ['.', '#', ':', '/', '?', '=', '&'];
-        while ![' ', '\n'].contains(&self.peek())
-            && !self.peek().is_ascii_punctuation()
-            && !self.is_at_end()
-        {
-            self.current += 1
-        }
+        let rest = &self.source[self.start..];
+        let target = &rest[..Self::link_len(rest)];
         // it's an attribute-styled link
-        if self.peek() == '[' {
-            self.current += 1; // consume the '[' char
-            self.add_token(TokenType::LinkMacro, true, 0)
-        } else if ['\0', ' ', '\n'].contains(&self.peek()) {
-            self.add_token(TokenType::Hyperlink, true, 0)
-        } else if hyperlink_allowed_punctuation.contains(&self.peek()) {
-            // if it's at the end of a sentence
-            if let Some(second_char) = self.peeks_ahead(2).chars().last() {
-                if ['\0', ' ', '\n'].contains(&second_char) {
-                    self.add_token(TokenType::Hyperlink, true, 0)
-                } else {
-                    // otherwise it contains an allowed url punctuation character
-                    self.current += 1; // consume the allowed character
-                    self.add_link()
-                }
-            } else {
-                // otherwise it contains an allowed url punctuation character
-                self.current += 1; // consume the allowed character
-                self.add_link()
-            }
-        } else {
-            self.add_token(TokenType::Hyperlink, true, 0)
+        if rest[target.len()..].starts_with('[') {
+            self.current = self.start + target.len() + 1; // consume the '[' char
+            return self.add_token(TokenType::LinkMacro, true, 0);
         }
+        // otherwise markup isn't a part of it, nor is punctuation at the end of it
+        let markup = ["**", "__", "##", "~~", "++"];
+        let end = markup.iter().filter_map(|mark| target.find(mark)).min();
+        let target = target[..end.unwrap_or(target.len())]
+            .trim_end_matches(|c: char| c.is_ascii_punctuation());
+        self.current = self.start + target.len();
+        self.add_token(TokenType::Hyperlink, true, 0)
+    }
+
+    /// Checks for "http://" or "https://" with something to link to after it
+    fn starts_link(&self) -> bool {
+        let rest = &self.source[self.start..];
+        ["http://", "https://"].iter().any(|scheme| {
+            rest.strip_prefix(scheme)
+                .and_then(|target| target.chars().next())
+                .is_some_and(char::is_alphanumeric)
+        })
+    }
+
+    /// How far a link at the start of the text goes, at most
+    fn link_len(text: &str) -> usize {
+        let outside = ['[', ']', '<', '>', '"', '`', '{', '}', '|', '^', '\\'];
+        text.find(|c: char| c.is_whitespace() || outside.contains(&c))
+            .unwrap_or(text.len())
     }
 
     fn add_inline_style(&mut self) -> Result<Token, ScannerError> {
-- 
2.43.0


From d253a32f2ec3533db9d1b9d3be8ec028be47fc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:36:04 +0000
Subject: [PATCH 102/126] fix: show the alternative text of an image that is
 given by name

---
 templates/htmlbook/block.html.tera  | 4 +++-
 templates/htmlbook/inline.html.tera | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/templates/htmlbook/block.html.tera b/templates/htmlbook/block.html.tera
index 17e82e9..11cea81 100644
--- a/templates/htmlbook/block.html.tera
+++ b/templates/htmlbook/block.html.tera
@@ -60,7 +60,9 @@ this should work.
     {%- set tag = "blockquote" -%}
     {% elif block.name == "image" -%}
     {%- set tag = "figure" -%}
-        {%- if block.metadata.attributes.positional_1 -%}
+        {%- if block.metadata.attributes.alt -%}
+        {%- set alt_text = block.metadata.attributes.alt -%}
+        {%- elif block.metadata.attributes.positional_1 -%}
         {%- set alt_text = block.metadata.attributes.positional_1 -%}
         {%- endif -%}
     {% elif block.name == "sidebar" -%}
diff --git a/templates/htmlbook/inline.html.tera b/templates/htmlbook/inline.html.tera
index 33d40c9..b07ba09 100644
--- a/templates/htmlbook/inline.html.tera
+++ b/templates/htmlbook/inline.html.tera
@@ -43,7 +43,8 @@
     {%- endif -%}
     {%- if target %} {{target}}
     {%- endif -%}
-    {%- if self_close and inline.metadata.attributes.positional_1 %} alt="{{inline.metadata.attributes.positional_1 | escape_attribute}}"
+    {%- if self_close and inline.metadata.attributes.alt %} alt="{{inline.metadata.attributes.alt | escape_attribute}}"
+    {%- elif self_close and inline.metadata.attributes.positional_1 %} alt="{{inline.metadata.attributes.positional_1 | escape_attribute}}"
     {%- endif -%}{%-if self_close%} /{%-endif-%}>
 {%- endif -%}
     {%- if not self_close -%}
-- 
2.43.0


From 4038863f0e87d62d877b07d927866a28173ed40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:04 +0000
Subject: [PATCH 103/126] fix: format links without a text of their own in
 docx, too

---
 src/backends/docx/document.rs | 62 +++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 0adf391..538c74f 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -556,34 +556,8 @@ impl DocxWriter {
         let mut runs: Vec<Run> = Vec::new();
         match inline {
             Inline::InlineLiteral(lit) => {
-                let mut run = self.run_from_literal(lit);
-                if !variants.is_empty() {
-                    for variant in variants {
-                        match variant {
-                            InlineSpanVariant::Strong => run = run.bold(),
-                            InlineSpanVariant::Emphasis => run = run.italic(),
-                            InlineSpanVariant::Code => {
-                                run = run.fonts(RunFonts::new().ascii("Courier New"))
-                            }
-                            InlineSpanVariant::Mark => run = run.highlight("yellow"),
-                            InlineSpanVariant::Subscript => {
-                                run.run_property =
-                                    run.run_property.vert_align(VertAlignType::SubScript)
-                            }
-                            InlineSpanVariant::Superscript => {
-                                run.run_property =
-                                    run.run_property.vert_align(VertAlignType::SuperScript)
-                            }
-                            InlineSpanVariant::Footnote => {
-                                eprintln!(
-                                    "Footnotes are not well supported; footnote text will be included in-line and higlighted for the time being."
-                                );
-                                run = run.highlight("blue")
-                            }
-                        }
-                    }
-                }
-                runs.push(run)
+                let run = self.run_from_literal(lit);
+                runs.push(Self::add_variants_to_run(run, variants))
             }
             Inline::InlineSpan(span) => {
                 variants.push(&span.variant);
@@ -601,7 +575,8 @@ impl DocxWriter {
                 // for now, just append the text; we can handle the actual linking later, as that's
                 // more complicated
                 if iref.inlines.is_empty() {
-                    runs.push(Run::new().add_text(iref.target.clone()))
+                    let run = Run::new().add_text(iref.target.clone());
+                    runs.push(Self::add_variants_to_run(run, variants))
                 }
                 for inline in iref.inlines.iter() {
                     runs.extend(self.runs_from_inline_with_variant(inline, variants))
@@ -610,4 +585,33 @@ impl DocxWriter {
         }
         runs
     }
+
+    /// Formats a run as what is in the given spans
+    fn add_variants_to_run(mut run: Run, variants: &[&InlineSpanVariant]) -> Run {
+        for variant in variants {
+            match variant {
+                InlineSpanVariant::Strong => run = run.bold(),
+                InlineSpanVariant::Emphasis => run = run.italic(),
+                InlineSpanVariant::Code => {
+                    run = run.fonts(RunFonts::new().ascii("Courier New"))
+                }
+                InlineSpanVariant::Mark => run = run.highlight("yellow"),
+                InlineSpanVariant::Subscript => {
+                    run.run_property =
+                        run.run_property.vert_align(VertAlignType::SubScript)
+                }
+                InlineSpanVariant::Superscript => {
+                    run.run_property =
+                        run.run_property.vert_align(VertAlignType::SuperScript)
+                }
+                InlineSpanVariant::Footnote => {
+                    eprintln!(
+                        "Footnotes are not well supported; footnote text will be included in-line and higlighted for the time being."
+                    );
+                    run = run.highlight("blue")
+                }
+            }
+        }
+        run
+    }
 }
-- 
2.43.0


From 6cb1fb45e338984524394052d4ffd50a435bdc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:22 +0000
Subject: [PATCH 104/126] fix: replace (C), (R), (TM) and => anywhere in the
 text

---
 src/scanner/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 51b02e7..97160bd 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -627,12 +627,20 @@ impl<'a> Scanner<'a> {
         ]
         .contains(&self.peek())
             && !self.is_at_end()
+            && !self.peeks_text_symbol()
         {
             self.current += 1;
         }
         self.add_token(TokenType::Text, true, 0)
     }
 
+    /// Checks for symbols to replace that don't begin with one of the characters above
+    fn peeks_text_symbol(&self) -> bool {
+        ["(C)", "(R)", "(TM)", "=>"]
+            .iter()
+            .any(|symbol| self.source.as_bytes()[self.current..].starts_with(symbol.as_bytes()))
+    }
+
     fn add_tag(&mut self) -> Result<Token, ScannerError> {
         let tag_type: TokenType;
         let end_of_context = self.expecting_tag_end;
-- 
2.43.0


From 5cb4d2b3bded76a27d09f7582190c80e372d82cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:54 +0000
Subject: [PATCH 105/126] fix: pair up typographic quotes, also next to
 punctuation

---
 src/scanner/mod.rs | 54 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 97160bd..ba49413 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -76,7 +76,7 @@ impl<'a> Scanner<'a> {
                 } else if self.starts_new_line() && self.starts_repeated_char_line(c, 3) {
                     self.current += 2;
                     self.add_token(TokenType::ThematicBreak, false, 0)
-                } else if ['\0', ' ', '\n'].contains(&self.peek_back()) && self.peek() == '`' {
+                } else if self.peek() == '`' && self.starts_quoted_text(c) {
                     self.current += 1;
                     self.add_token(TokenType::OpenSingleQuote, true, 0)
                 } else if ["s ", "s\n"].contains(&self.peeks_ahead(2))
@@ -239,14 +239,10 @@ impl<'a> Scanner<'a> {
             }
 
             '`' => {
-                if ["' ", "'\n"].contains(&self.peeks_ahead(2))
-                    || (self.peeks_ahead(2) == "\0" && self.peek() == '\'')
-                {
+                if self.peek() == '\'' && self.ends_quoted_text('\'') {
                     self.current += 1;
                     self.add_token(TokenType::CloseSingleQuote, true, 0)
-                } else if ["\" ", "\"\n"].contains(&self.peeks_ahead(2))
-                    || (self.peeks_ahead(2) == "\0" && self.peek() == '\"')
-                {
+                } else if self.peek() == '\"' && self.ends_quoted_text('\"') {
                     self.current += 1;
                     self.add_token(TokenType::CloseDoubleQuote, true, 0)
                 } else {
@@ -431,7 +427,7 @@ impl<'a> Scanner<'a> {
                 }
             }
             '\"' => {
-                if ['\0', ' ', '\n'].contains(&self.peek_back()) && self.peek() == '`' {
+                if self.peek() == '`' && self.starts_quoted_text(c) {
                     self.current += 1;
                     self.add_token(TokenType::OpenDoubleQuote, true, 0)
                 } else {
@@ -854,6 +850,48 @@ impl<'a> Scanner<'a> {
         self.peek() == '-' && (after_char.is_alphanumeric() || [' ', '\0'].contains(&after_char))
     }
 
+    fn starts_quoted_text(&self, quote: char) -> bool {
+        self.quoted_text(quote)
+            .is_some_and(|(start, _)| start == self.start)
+    }
+
+    fn ends_quoted_text(&self, quote: char) -> bool {
+        self.quoted_text(quote)
+            .is_some_and(|(_, end)| end == self.start)
+    }
+
+    /// Finds where the text in typographic quotes, such as "`foo`", that the scanner is at starts
+    /// and ends; the quotes are neither in the middle of a word nor next to a space on the inside
+    fn quoted_text(&self, quote: char) -> Option<(usize, usize)> {
+        let (open, close) = (format!("{quote}`"), format!("`{quote}"));
+        let paragraph = self.source[..self.start]
+            .rfind("\n\n")
+            .map_or(0, |blank| blank + 2);
+        let end_paragraph = self.source[self.start..]
+            .find("\n\n")
+            .map_or(self.source.len(), |blank| self.start + blank);
+        let text = &self.source[..end_paragraph];
+        let before = |at: usize| text[paragraph..at].chars().next_back();
+        let after = |at: usize| text[at + 2..].chars().next();
+        let mut from = paragraph;
+        loop {
+            let start = text[from..].match_indices(&open).map(|(at, _)| from + at).find(|at| {
+                !before(*at).is_some_and(char::is_alphanumeric)
+                    && after(*at).is_some_and(|c| !c.is_whitespace())
+            })?;
+            let inside = start + 2;
+            let end = text[inside..].match_indices(&close).map(|(at, _)| inside + at).find(|at| {
+                *at > inside
+                    && !after(*at).is_some_and(char::is_alphanumeric)
+                    && before(*at).is_some_and(|c| !c.is_whitespace())
+            })?;
+            if end >= self.start {
+                return Some((start, end));
+            }
+            from = end + 2;
+        }
+    }
+
     fn is_at_end(&self) -> bool {
         self.current >= self.source.len()
     }
-- 
2.43.0


From 2a9727fc5b10f56f19c6c5310011fedece36054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:52:31 +0000
Subject: [PATCH 106/126] fix: replace dashes at the end of a line

---
 src/scanner/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index ba49413..67e13e6 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -847,7 +847,11 @@ impl<'a> Scanner<'a> {
             return false;
         }
         let after_char = self.peeks_ahead(2).chars().last().unwrap();
-        self.peek() == '-' && (after_char.is_alphanumeric() || [' ', '\0'].contains(&after_char))
+        self.peek() == '-'
+            && (after_char.is_alphanumeric()
+                || [' ', '\0'].contains(&after_char)
+                // at the end of a line of text
+                || after_char == '\n' && !self.starts_new_line())
     }
 
     fn starts_quoted_text(&self, quote: char) -> bool {
-- 
2.43.0


From ccdb0cbf2d92497de82d143e135cedef0928e585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:10:31 +0000
Subject: [PATCH 107/126] fix: keep lines of a paragraph that start with a dot

---
 src/parser.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d2557e5..30666d1 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -242,6 +242,10 @@ impl Parser {
             TokenType::Attribute => self.parse_attribute(token),
 
             // block titles, metadata, etc.
+            // a line of a paragraph can start with a dot
+            TokenType::BlockLabel if self.dangling_newline.is_some() && self.in_text() => {
+                self.parse_text(token)
+            }
             TokenType::BlockLabel => {
                 // whatever we were in the middle of isn't part of the title
                 self.add_inlines_to_block_stack(asg)?;
@@ -1338,13 +1342,18 @@ impl Parser {
     }
 
     /// Adds any newline we've been holding on to ahead of whatever inline follows it
+    /// There is text that the next line can be a part of
+    fn in_text(&self) -> bool {
+        !self.inline_stack.is_empty()
+            || self.open_parse_after_as_text_type.is_some()
+            || (!self.force_new_block
+                && self.block_stack.last().is_some_and(|b| b.takes_inlines()))
+    }
+
     fn add_dangling_newline(&mut self) {
         if let Some(newline_token) = self.dangling_newline.take() {
             // there's nothing to put on a new line
-            if self.inline_stack.is_empty()
-                && self.open_parse_after_as_text_type.is_none()
-                && (self.force_new_block || !self.block_stack.last().is_some_and(|b| b.takes_inlines()))
-            {
+            if !self.in_text() {
                 return;
             }
             let in_open_inline = self.inline_stack.back().is_some_and(|last| last.is_open());
-- 
2.43.0


From 16f61c01d81c685a6ccd8292134cbe4934530a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:13:37 +0000
Subject: [PATCH 108/126] fix: locate headings without a title

---
 src/graph/blocks.rs | 4 ++--
 src/parser.rs       | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 46e9b04..bcc86af 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -911,7 +911,7 @@ impl PartialEq for Section {
 
 impl Section {
     // generated as a result of a heading
-    pub fn new(id: String, level: usize, first_location: Location) -> Self {
+    pub fn new(id: String, level: usize, location: Vec<Location>) -> Self {
         Section {
             name: "section".to_string(),
             node_type: NodeTypes::Block,
@@ -921,7 +921,7 @@ impl Section {
             metadata: None,
             level,
             blocks: vec![],
-            location: vec![first_location],
+            location,
         }
     }
 
diff --git a/src/parser.rs b/src/parser.rs
index 30666d1..e15e8d4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -803,7 +803,7 @@ impl Parser {
             Block::Section(Section::new(
                 "".to_string(),
                 level,
-                token.first_location(),
+                token.locations(),
             )),
             asg,
         )?;
-- 
2.43.0


From 28e4025848c6cee85b19b21352f96f4d10580483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:14:01 +0000
Subject: [PATCH 109/126] fix: locate the paragraph ahead of a term that starts
 with markup

---
 src/graph/inlines.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 365a778..7490117 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -215,7 +215,10 @@ impl Inline {
         let (preceding, last_line) = literal.value.rsplit_once('\n')?;
         let (start, end) = (literal.location.first()?, literal.location.last()?);
         let mut preceding_end = end.clone();
-        preceding_end.line = end.line.saturating_sub(1);
+        // a newline is at the end of its line
+        if !last_line.is_empty() {
+            preceding_end.line = end.line.saturating_sub(1);
+        }
         preceding_end.col = match preceding.rsplit_once('\n') {
             Some((_, line)) => line.len(),
             None => start.col + preceding.len().saturating_sub(1),
-- 
2.43.0


From ad82a6c9a8d743dcd1c473b506b1e18ca43a3896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:50 +0000
Subject: [PATCH 110/126] fix: keep lists of callouts apart from ordered lists

---
 src/graph/lists.rs | 9 +++++++++
 src/parser.rs      | 5 +++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/graph/lists.rs b/src/graph/lists.rs
index 154c58d..a872cf2 100644
--- a/src/graph/lists.rs
+++ b/src/graph/lists.rs
@@ -21,6 +21,9 @@ pub struct List {
     pub items: Vec<Block>,
     #[serde(skip_serializing_if = "Option::is_none")]
     pub metadata: Option<ElementMetadata>,
+    /// the items explain code callouts
+    #[serde(skip)]
+    pub explains_callouts: bool,
     pub location: Vec<Location>,
 }
 
@@ -47,10 +50,16 @@ impl List {
             title: vec![],
             items: vec![],
             metadata: None,
+            explains_callouts: false,
             location,
         }
     }
 
+    /// Whether the items of the other list could as well be this one's
+    pub fn is_same_kind(&self, other: &List) -> bool {
+        self.variant == other.variant && self.explains_callouts == other.explains_callouts
+    }
+
     pub fn add_item(&mut self, item: Block) {
         self.items.push(item)
     }
diff --git a/src/parser.rs b/src/parser.rs
index e15e8d4..61ad599 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -726,6 +726,7 @@ impl Parser {
         let mut list = List::new(ListVariant::Ordered, token.locations().clone());
         if token.token_type() == TokenType::CodeCalloutListItem {
             list.metadata = Some(ElementMetadata::new_with_role("colist".to_string()));
+            list.explains_callouts = true;
         }
         self.parse_list_item(token, list, asg)
     }
@@ -752,7 +753,7 @@ impl Parser {
         self.dangling_newline = None;
         let list_item = ListItem::new(token.lexeme.clone(), token.locations());
         if let Some(list_idx) = self.position_in_context(
-            |block| matches!(block, Block::List(list) if list.variant == new_list.variant),
+            |block| matches!(block, Block::List(list) if list.is_same_kind(&new_list)),
         ) {
             self.close_blocks_after(list_idx + 1, asg)?;
         } else {
@@ -1341,7 +1342,6 @@ impl Parser {
                 .is_some()
     }
 
-    /// Adds any newline we've been holding on to ahead of whatever inline follows it
     /// There is text that the next line can be a part of
     fn in_text(&self) -> bool {
         !self.inline_stack.is_empty()
@@ -1350,6 +1350,7 @@ impl Parser {
                 && self.block_stack.last().is_some_and(|b| b.takes_inlines()))
     }
 
+    /// Adds any newline we've been holding on to ahead of whatever inline follows it
     fn add_dangling_newline(&mut self) {
         if let Some(newline_token) = self.dangling_newline.take() {
             // there's nothing to put on a new line
-- 
2.43.0


From 1d969eb1005f0471a44ee74176b29aa2c20d3e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:09:54 +0000
Subject: [PATCH 111/126] fix: recognise numeric character references, whose #
 is not a mark

---
 src/scanner/mod.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 67e13e6..a2c687e 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -390,7 +390,7 @@ impl<'a> Scanner<'a> {
             // the spec
             '&' => {
                 if self.starts_charref() {
-                    while self.peek().is_alphanumeric() && !self.is_at_end() {
+                    while self.peek() != ';' {
                         self.current += 1
                     }
                     self.current += 1; // add the ";" at the end
@@ -746,8 +746,11 @@ impl<'a> Scanner<'a> {
         check
     }
 
-    /// Checks for CharRefs, i.e., &plus; type things
+    /// Checks for CharRefs, i.e., &plus; or &#43; type things
     fn starts_charref(&mut self) -> bool {
+        if self.peek() == '#' {
+            return self.starts_numeric_charref();
+        }
         let current_placeholder = self.current;
         while self.peek().is_alphanumeric() && !self.is_at_end() {
             self.current += 1
@@ -757,6 +760,19 @@ impl<'a> Scanner<'a> {
         check
     }
 
+    /// Checks for the number of a CharRef, i.e., #43; or #x2B;
+    fn starts_numeric_charref(&self) -> bool {
+        let number = &self.source[self.current + 1..];
+        let (digits, radix) = match number.strip_prefix(['x', 'X']) {
+            Some(digits) => (digits, 16),
+            None => (number, 10),
+        };
+        match digits.find(|c: char| !c.is_digit(radix)) {
+            Some(end) => end > 0 && digits[end..].starts_with(';'),
+            None => false,
+        }
+    }
+
     /// Handles inline formatting, constrained or not
     fn handle_inline_formatting(
         &mut self,
-- 
2.43.0


From 64f74cd193d3bae04297b365be709e64ba6eddc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:10:06 +0000
Subject: [PATCH 112/126] fix: put the characters that numeric references and
 &sect; stand for into docx

---
 src/graph/inlines.rs       | 15 ++++++++++++++-
 src/graph/substitutions.rs |  2 +-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 7490117..a818073 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -949,13 +949,26 @@ impl InlineLiteral {
             .replace_all(&self.value, |reference: &Captures| {
                 match charrefs.get(&reference[0]) {
                     Some(entity) => entity.to_string(),
-                    None => reference[0].to_string(),
+                    None => match char_from_reference(&reference[0]) {
+                        Some(char) => char.to_string(),
+                        None => reference[0].to_string(),
+                    },
                 }
             })
             .into()
     }
 }
 
+/// The character a numeric reference such as &#43; or &#x2B; stands for
+fn char_from_reference(reference: &str) -> Option<char> {
+    let number = reference.strip_prefix("&#")?.strip_suffix(';')?;
+    let code = match number.strip_prefix(['x', 'X']) {
+        Some(hex) => u32::from_str_radix(hex, 16).ok()?,
+        None => number.parse().ok()?,
+    };
+    char::from_u32(code).filter(|char| !char.is_control())
+}
+
 #[derive(Serialize, PartialEq, Clone, Debug)]
 #[serde(rename_all = "lowercase")]
 pub enum InlineLiteralName {
diff --git a/src/graph/substitutions.rs b/src/graph/substitutions.rs
index dfc1fba..276dc00 100644
--- a/src/graph/substitutions.rs
+++ b/src/graph/substitutions.rs
@@ -29,7 +29,7 @@ pub static CHARREF_MAP: Lazy<Mutex<HashMap<String, &'static str>>> = Lazy::new(|
     m.insert(String::from("&#8658;"), "⇒");
     m.insert(String::from("&#8592;"), "←");
     m.insert(String::from("&#8656;"), "⇐");
-    m.insert(String::from("&#sect;"), "§");
+    m.insert(String::from("&sect;"), "§");
     m.insert(String::from("&#167;"), "§");
     m.insert(String::from("&euro;"), "€");
     m.insert(String::from("&#8364;"), "€");
-- 
2.43.0


From 57188fbea9eb0278dd6e151b7b7653db9728407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:33:22 +0000
Subject: [PATCH 113/126] fix: keep headings and titles that have a double
 colon in them

---
 src/scanner/mod.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index a2c687e..f4b0e7d 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -269,7 +269,10 @@ impl<'a> Scanner<'a> {
                         self.current += 1
                     }
                     self.add_token(TokenType::Attribute, false, 0)
-                } else if self.peek_back() != ' ' && [": ", ":\n"].contains(&self.peeks_ahead(2)) {
+                } else if self.peek_back() != ' '
+                    && [": ", ":\n"].contains(&self.peeks_ahead(2))
+                    && !self.is_in_title_line()
+                {
                     self.current += 2;
                     self.add_token(TokenType::DescriptionListMarker, false, 0)
                 } else {
@@ -746,6 +749,15 @@ impl<'a> Scanner<'a> {
         check
     }
 
+    /// Checks for a heading or the title of a block ahead on the same line
+    fn is_in_title_line(&self) -> bool {
+        let line = &self.source[self.source[..self.start].rfind('\n').map_or(0, |at| at + 1)..self.start];
+        match line.strip_prefix('.') {
+            Some(title) => title.starts_with(|c: char| c != '.' && !c.is_whitespace()),
+            None => line.starts_with('=') && line.trim_start_matches('=').starts_with(' '),
+        }
+    }
+
     /// Checks for CharRefs, i.e., &plus; or &#43; type things
     fn starts_charref(&mut self) -> bool {
         if self.peek() == '#' {
-- 
2.43.0


From 95f1f31c9b1ae0ce42b6177fdc4aedd18c134c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:12 +0000
Subject: [PATCH 114/126] fix: keep a callout number or line break at the end
 of the document title in it

---
 src/scanner/tokens.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scanner/tokens.rs b/src/scanner/tokens.rs
index 9805f31..e316f90 100644
--- a/src/scanner/tokens.rs
+++ b/src/scanner/tokens.rs
@@ -161,7 +161,11 @@ impl Token {
     pub fn can_be_in_document_header(&self) -> bool {
         matches!(
             self.token_type(),
-            TokenType::Heading1 | TokenType::Attribute | TokenType::Comment
+            TokenType::Heading1
+                | TokenType::Attribute
+                | TokenType::Comment
+                | TokenType::CodeCallout
+                | TokenType::LineContinuation
         ) || self.is_inline()
     }
 
-- 
2.43.0


From 372ece622760d87cd5d65d749df3ae58b857436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:02 +0000
Subject: [PATCH 115/126] fix: take a double colon in the text of a list item,
 or without a term, as text

---
 src/scanner/mod.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index f4b0e7d..1265e79 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -271,7 +271,7 @@ impl<'a> Scanner<'a> {
                     self.add_token(TokenType::Attribute, false, 0)
                 } else if self.peek_back() != ' '
                     && [": ", ":\n"].contains(&self.peeks_ahead(2))
-                    && !self.is_in_title_line()
+                    && self.follows_term()
                 {
                     self.current += 2;
                     self.add_token(TokenType::DescriptionListMarker, false, 0)
@@ -749,13 +749,23 @@ impl<'a> Scanner<'a> {
         check
     }
 
-    /// Checks for a heading or the title of a block ahead on the same line
-    fn is_in_title_line(&self) -> bool {
+    /// Checks that what is ahead on the same line can be a term, i.e., that it's neither a heading
+    /// or the title of a block, nor the text of a list item already
+    fn follows_term(&self) -> bool {
         let line = &self.source[self.source[..self.start].rfind('\n').map_or(0, |at| at + 1)..self.start];
-        match line.strip_prefix('.') {
-            Some(title) => title.starts_with(|c: char| c != '.' && !c.is_whitespace()),
-            None => line.starts_with('=') && line.trim_start_matches('=').starts_with(' '),
+        if line.starts_with('.') {
+            return line.starts_with("...");
         }
+        let marker = line.split_once(' ').map_or("", |(marker, _)| marker);
+        let is_heading = marker.starts_with('=') && marker.trim_start_matches('=').is_empty();
+        let is_callout = match marker.strip_prefix('<').and_then(|m| m.strip_suffix('>')) {
+            Some(number) => !number.is_empty() && number.bytes().all(|b| b.is_ascii_digit()),
+            None => false,
+        };
+        let has_term = line
+            .match_indices(":: ")
+            .any(|(at, _)| at > 0 && !line[..at].ends_with(' '));
+        !line.is_empty() && !is_heading && !is_callout && marker != "*" && !has_term
     }
 
     /// Checks for CharRefs, i.e., &plus; or &#43; type things
-- 
2.43.0


From e87a95b93e11c7de0ff71101b65b8b26dd98e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:06 +0000
Subject: [PATCH 116/126] fix: take a line that starts with two colons as text
 and not as an attribute

---
 src/scanner/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 1265e79..6b81d88 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -699,7 +699,7 @@ impl<'a> Scanner<'a> {
         while ![' ', '\n', ':'].contains(&self.peek()) && !self.is_at_end() {
             self.current += 1
         }
-        let check = self.peek() == ':';
+        let check = self.peek() == ':' && self.current > current_placeholder;
         self.current = current_placeholder;
         check
     }
-- 
2.43.0


From f28d64b9d5e1e5eb22c7f8ee3dc4980ff7c8c59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:09 +0000
Subject: [PATCH 117/126] fix: keep lines of dots, and lines that start with
 dots and a space, as text

---
 src/scanner/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 6b81d88..8e71eab 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -202,8 +202,10 @@ impl<'a> Scanner<'a> {
                             } else if self.starts_new_line() {
                                 if self.peek() == ' ' {
                                     self.add_list_item(TokenType::OrderedListItem)
-                                } else {
+                                } else if self.starts_block_label() {
                                     self.add_token(TokenType::BlockLabel, false, 0)
+                                } else {
+                                    self.add_text_until_next_markup()
                                 }
                             } else {
                                 self.add_text_until_next_markup()
@@ -749,6 +751,15 @@ impl<'a> Scanner<'a> {
         check
     }
 
+    /// Checks for the text of a title after its ".", which may start with a "." of its own
+    fn starts_block_label(&self) -> bool {
+        let title = self.rest_of_line();
+        title
+            .strip_prefix('.')
+            .unwrap_or(title)
+            .starts_with(|c: char| c != '.' && !c.is_whitespace())
+    }
+
     /// Checks that what is ahead on the same line can be a term, i.e., that it's neither a heading
     /// or the title of a block, nor the text of a list item already
     fn follows_term(&self) -> bool {
-- 
2.43.0


From 7a5ceaaabe6eb4dde65ad3d4cf516f9c644b75f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:39:58 +0000
Subject: [PATCH 118/126] fix: keep a bar in the document title

---
 src/scanner/tokens.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scanner/tokens.rs b/src/scanner/tokens.rs
index e316f90..6cf4ad6 100644
--- a/src/scanner/tokens.rs
+++ b/src/scanner/tokens.rs
@@ -166,6 +166,7 @@ impl Token {
                 | TokenType::Comment
                 | TokenType::CodeCallout
                 | TokenType::LineContinuation
+                | TokenType::TableCell
         ) || self.is_inline()
     }
 
-- 
2.43.0


From 680391cf6799ad1d5e6b4c79782af00bfa0cdd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:41:40 +0000
Subject: [PATCH 119/126] fix: end the text ahead of a term where it ends, even
 with an unmatched mark in it

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 61ad599..db66a4a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -670,6 +670,8 @@ impl Parser {
         // create the list item
         let mut dlist_item = DListItem::new_from_token(token);
 
+        // marks that weren't closed by now are text
+        self.handle_dangling_spans();
         // check for splits
         if let Some(newline_idx) = self
             .inline_stack
@@ -700,7 +702,6 @@ impl Parser {
             self.inline_stack.append(&mut next_terms);
         }
         // collect the inlines
-        self.handle_dangling_spans();
         while !self.inline_stack.is_empty() {
             let inline = self.inline_stack.pop_front().unwrap();
             dlist_item.push_term(inline);
-- 
2.43.0


From 9fe0bb7aba266d3f217b21bad6772dc019185860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:24:16 +0000
Subject: [PATCH 120/126] fix: take a plus at the end of the last line as a
 line break without a newline too

---
 src/scanner/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 8e71eab..17264a9 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -179,7 +179,7 @@ impl<'a> Scanner<'a> {
                         '+' => {
                             if self.starts_new_line() && self.peek() == '\n' {
                                 self.add_token(TokenType::BlockContinuation, false, 0)
-                            } else if self.peek_back() == ' ' && self.peek() == '\n' {
+                            } else if self.peek_back() == ' ' && ['\n', '\0'].contains(&self.peek()) {
                                 self.add_token(TokenType::LineContinuation, false, 0)
                             } else {
                                 self.handle_inline_formatting(
-- 
2.43.0


From 9d9c0544b2f6f0d5c83e210ffc7f4cfb80ca15bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:24:16 +0000
Subject: [PATCH 121/126] fix: don't take the header of the document for the
 header of a table in HTML

---
 templates/htmlbook/tables.html.tera | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/htmlbook/tables.html.tera b/templates/htmlbook/tables.html.tera
index 68fcb48..98fe651 100644
--- a/templates/htmlbook/tables.html.tera
+++ b/templates/htmlbook/tables.html.tera
@@ -3,6 +3,8 @@
 {#- Collect Cells into rows; should be save to assume that all tables have a cols attr -#}
 {% set cols = block.metadata.attributes.cols | int %}
 {%- set body_start = 0 -%}
+{#- otherwise this is the header of the document -#}
+{%- set header = false -%}
 {%- if "header" in block.metadata.options -%}
 {%- set header = true -%}
 {%- set body_start = cols -%}
-- 
2.43.0


From fcdb81c68294ebfb624d6ea50b434e86dd489d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:03:06 +0000
Subject: [PATCH 122/126] fix: standard input is not the file called "-"

---
 src/bin/asciidocr/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/asciidocr/main.rs b/src/bin/asciidocr/main.rs
index c1a4019..fee712a 100644
--- a/src/bin/asciidocr/main.rs
+++ b/src/bin/asciidocr/main.rs
@@ -94,10 +94,12 @@ fn run(args: Cli) -> Result<()> {
 
 /// Where to put the output, which is never the document itself
 fn output_destination(args: Cli) -> Result<Option<PathBuf>> {
+    // standard input isn't a file, even where there is one called "-"
+    let reads_stdin = args.file == "-";
     let input = fs::canonicalize(&args.file);
     let destination = read_output(args);
     if let (Ok(input), Some(output)) = (input, &destination) {
-        if fs::canonicalize(output).is_ok_and(|output| output == input) {
+        if !reads_stdin && fs::canonicalize(output).is_ok_and(|output| output == input) {
             bail!("{} is both the input and the output", output.display())
         }
     }
-- 
2.43.0


From 8df08d9a430eff668b9164fad0b35f7aec0000fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:08:29 +0000
Subject: [PATCH 123/126] fix: names of character references begin with a
 letter

---
 src/scanner/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 17264a9..ac47db0 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -790,7 +790,8 @@ impl<'a> Scanner<'a> {
         }
         let check = self.peek() == ';';
         self.current = current_placeholder;
-        check
+        // names begin with a letter
+        check && self.peek().is_alphabetic()
     }
 
     /// Checks for the number of a CharRef, i.e., #43; or #x2B;
-- 
2.43.0


From b208671991e4e942b7eb7287943d6eaa85f5412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:12:49 +0000
Subject: [PATCH 124/126] fix: text after a character reference in a span is
 not a part of it

---
 src/graph/inlines.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index a818073..ff50275 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -612,7 +612,10 @@ impl InlineSpan {
             // combine literals if necessary
             if let Inline::InlineLiteral(ref literal) = inline {
                 if let Some(Inline::InlineLiteral(prior_literal)) = self.inlines.last_mut() {
-                    if prior_literal.is_raw() == literal.is_raw() {
+                    // what follows a character reference isn't a part of it
+                    if prior_literal.is_raw() == literal.is_raw()
+                        && prior_literal.name != InlineLiteralName::Charref
+                    {
                         prior_literal.add_text_from_inline_literal(inline);
                         return;
                     }
-- 
2.43.0


From 75ee309509d97037de62cc86ef552634d4a2a396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:26:34 +0000
Subject: [PATCH 125/126] fix: formatting marks in the middle of a word are
 text in the text of a link, too

---
 src/graph/inlines.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index ff50275..78f977b 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -541,6 +541,9 @@ impl InlineSpan {
             Some(Inline::InlineSpan(span)) if span.open => {
                 self.cannot_open_after(span.inlines.last())
             }
+            Some(Inline::InlineRef(iref)) if iref.open => {
+                self.cannot_open_after(iref.inlines.last())
+            }
             Some(Inline::InlineLiteral(literal)) => {
                 self.is_constrained_markup()
                     && !matches!(
-- 
2.43.0


From 31354c6ae68b9e5a1b63c18ca190239c675a9026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 12:25:29 +0000
Subject: [PATCH 126/126] fix: keep the title and attributes ahead of a comment
 block for the block after it

---
 src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index db66a4a..a9d6890 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -388,7 +388,13 @@ impl Parser {
                     }
                     Ok(())
                 } else {
-                    self.parse_delimited_leaf_block(token, asg)
+                    // what's ahead of a comment is about what follows it
+                    let metadata = self.metadata.take();
+                    let block_title = self.block_title.take();
+                    self.parse_delimited_leaf_block(token, asg)?;
+                    self.metadata = metadata;
+                    self.block_title = block_title;
+                    Ok(())
                 }
             }
 
-- 
2.43.0

