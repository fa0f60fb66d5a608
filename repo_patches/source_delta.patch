From 3ba5727ac6fd487e4ec83c147f8a94d338baa532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:46 +0000
Subject: [PATCH 01/14] fix: unescape must resume right after the reference it
 just handled

The resume offset was the UTF-8 length of the last character of the whole
buffer, so unescape skipped text (or panicked off a char boundary) when
non-ASCII text followed an '&'.
---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1649a13..ba0f481 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -287,9 +287,9 @@ pub fn unescape(text: impl Into<String>) -> String {
 				let i = i+last_i;
 				let start = i;
 				let slice = (&buffer[i..]).to_string();
+				// number of bytes to step over: a single-byte ASCII char, unless replaced by a unicode char
 				let mut char_size: usize = 1;
 				for (j, k) in slice.char_indices() {
-					char_size = k.len_utf8();
 					if k == ';' {
 						let end = i + j + 1;
 						let slice = &slice[..j];
@@ -324,6 +324,8 @@ pub fn unescape(text: impl Into<String>) -> String {
 								Err(_) => { /* do nothing */ }
 							}
 						}
+						// only the first ; can be the end of this escape
+						break;
 					}
 				}
 				last_i = i+char_size;
-- 
2.43.0


From 5c437afd4cd3a90a42d9862960de82fad0df76c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:46 +0000
Subject: [PATCH 02/14] fix: abbreviate must cut at char boundaries (panic on
 non-ASCII comment before root)

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ba0f481..4d5b648 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -608,9 +608,14 @@ fn abbreviate(text: &str, limit: usize) -> String {
 	if limit < 4 || text.len() <= limit {
 		text.to_string()
 	} else {
-		let mut buffer = (&text[0..(limit / 2 - 1)]).to_string();
+		// do not cut in the middle of a multi-byte character
+		let mut head = limit / 2 - 1;
+		while !text.is_char_boundary(head) {head -= 1;}
+		let mut tail = text.len() - limit / 2;
+		while !text.is_char_boundary(tail) {tail += 1;}
+		let mut buffer = (&text[0..head]).to_string();
 		buffer.push_str("…");
-		buffer.push_str(&text[(text.len() - limit / 2)..]);
+		buffer.push_str(&text[tail..]);
 		buffer
 	}
 }
-- 
2.43.0


From a7ba657caaa4b45eccc86e1694ba08cca243cf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:46 +0000
Subject: [PATCH 03/14] fix: insert() must apply the namespace context to the
 inserted node, not the last child

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index 62c623d..77a606f 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -1278,7 +1278,7 @@ impl Element {
 		self.child_nodes.insert(index, node.boxed());
 		Self::apply_xmlns_context_to_child_node(
 			self.default_namespace(), self.xmlns_context.clone(),
-			self.child_nodes.last_mut().unwrap()
+			&mut self.child_nodes[index]
 		);
 		// clean-up text nodes
 		self.cleanup_text_nodes();
-- 
2.43.0


From 5bd10f4beed1504592e629ea9c7e01b5ca4190eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:46 +0000
Subject: [PATCH 04/14] fix: DTDs must be written back with their <!DOCTYPE
 ...> delimiters

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index 77a606f..3de415c 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -2089,6 +2089,6 @@ impl DTD {
 
 impl std::fmt::Display for DTD {
 	fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-		write!(f, "{}", self.dtd_str)
+		write!(f, "<!DOCTYPE{}>", self.dtd_str)
 	}
 }
-- 
2.43.0


From 282c7dab979b0d7c7f7c21caf5701ace81e59731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:47 +0000
Subject: [PATCH 05/14] fix: Declaration::from_str must return an error for
 '<?>' instead of panicking

---
 src/dom.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dom.rs b/src/dom.rs
index 3de415c..b12a17d 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -2036,7 +2036,7 @@ impl Declaration {
 	pub fn from_str(decl: &str) -> Result<Self, KissXmlError> {
 		// parsing XML declarations is beyond the scope of the kiss_xml crate
 		let buffer: String = decl.trim().to_string();
-		if buffer.starts_with("<?") && buffer.ends_with("?>"){
+		if buffer.len() >= 4 && buffer.starts_with("<?") && buffer.ends_with("?>"){
 			Ok(Self{decl_str: buffer.strip_prefix("<?").unwrap().strip_suffix("?>").unwrap().to_string()})
 		} else {
 			Err(ParsingError::new("Invalid XML declaration syntax").into())
-- 
2.43.0


From e0bdc4939f10c95a34b9d18b583d99b7bcef667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 06/14] fix: a second root element must be rejected instead of
 replacing the first one

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 4d5b648..cb12879 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -572,6 +572,13 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 				}
 				parse_stack.pop()?;
 			} else {
+				// an element outside of the (already closed) root is not allowed
+				if parse_stack.empty_stack() {
+					let (line, col) = line_and_column(&buffer, tag_span.0);
+					return Err(errors::ParsingError::new(format!(
+						"only 1 root element is allowed (syntax error on line {line}, column {col})"
+					)).into());
+				}
 				// add new element to the stack, unless it is self-closing
 				let new_element = parse_new_element(tag_def.as_str(), &buffer, &tag_span, parse_stack.top_element())?;
 				if slice.ends_with("/>") {
-- 
2.43.0


From d9a91a44c8d7a0244c958cd7e8c7c6feca8a455c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:07 +0000
Subject: [PATCH 07/14] fix: the '-->' that ends a comment must not overlap its
 '<!--'

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cb12879..422df2a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -770,7 +770,7 @@ fn next_tag(buffer: &String, from: usize) -> (Option<usize>, Option<usize>) {
 	let sub_buffer = &buffer[start_index..];
 	if sub_buffer.starts_with("<!--") {
 		// comment
-		return (start, sub_buffer.find("-->").map(|i|i+start_index+3));
+		return (start, sub_buffer[4..].find("-->").map(|i|i+start_index+4+3));
 	} else if sub_buffer.starts_with("<?") {
 		// declaration, look for ?> but handle quoting
 		return (start, quote_aware_find(sub_buffer, "?>", 2).map(|i|i+start_index+2))
-- 
2.43.0


From 1b17df6df5a17119df1a2a49b7d84a9e13902e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 08/14] fix: text after the root element must be rejected, not
 silently dropped

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 422df2a..a2a9bc5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -462,6 +462,12 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 		let next_span = next_tag(&buffer, tag_span.1);
 		if next_span.0.is_none() {
 			// EoF
+			if parse_stack.empty_stack() && real_text(&buffer[tag_span.1..]).is_some() {
+				let (line, col) = line_and_column(&buffer, tag_span.1);
+				return Err(errors::ParsingError::new(format!(
+					"Text outside the root element is not supported (syntax error on line {line}, column {col})"
+				)).into());
+			}
 			break
 		} else if next_span.1.is_none() {
 			// broken tag?
-- 
2.43.0


From d1d242d33fa0ef7b51b8e490d646b9892b7efa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 09/14] fix: the element syntax check must match the whole tag
 and allow spaces around '='

The pattern was not anchored and let a quoted value run past its closing
quote, so malformed tags were accepted (and then serialized to XML that does
not parse), while 'a = "1"' was only accepted after another attribute.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a2a9bc5..45362cb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -753,7 +753,7 @@ fn check_element_tag(text: &str) -> Result<(), errors::KissXmlError> {
 		// see https://www.w3.org/TR/REC-xml/#sec-common-syn
 		let name_start_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}]"#;
 		let name_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]"#;
-		let pattern = format!(r#"(?ms)</?{name_start_char}{name_char}*(:{name_start_char}{name_char}*)?(\s+{name_start_char}{name_char}*=(".*?"|'.*?'))*\s*/?>"#);
+		let pattern = format!(r#"^</?{name_start_char}{name_char}*(:{name_start_char}{name_char}*)?(\s+{name_start_char}{name_char}*\s*=\s*("[^"]*"|'[^']*'))*\s*/?>$"#);
 		Regex::new(pattern.as_str()).unwrap()
 	});
 	match matcher.is_match(text){
-- 
2.43.0


From c1d5af95292da516d9b4d00ce5b6352607bea605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 10/14] fix: element and attribute names must follow the XML
 name grammar

Names such as 'a><b' or 'a/' were accepted (and written out as broken XML), while
valid names starting with a non-ASCII letter were rejected.
---
 src/dom.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dom.rs b/src/dom.rs
index b12a17d..dffcd09 100644
--- a/src/dom.rs
+++ b/src/dom.rs
@@ -405,6 +405,10 @@ pub fn node_eq(n1: &Box<dyn Node>, n2: &Box<dyn Node>) -> bool {
 	}
 }
 
+/// regex pattern of an XML name, see https://www.w3.org/TR/REC-xml/#sec-common-syn
+/// (except that the first character may not be ':', as the namespace prefix is not part of the name)
+const XML_NAME_PATTERN: &str = r#"^[A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}][:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]*$"#;
+
 /// Represents an XML element with a name, text content, attributes, xmlns namespace (with optional prefix), and children.
 pub struct Element {
 	/// Name of this element
@@ -982,7 +986,7 @@ impl Element {
 	fn check_attr_name(name: &str) -> Result<(), InvalidAttributeName> {
 		let singleton = Element::ATTR_NAME_CHECKER_SINGLETON;
 		let checker = singleton.get_or_init(
-			|| Regex::new(r#"^[_a-zA-Z]\S*$"#).unwrap()
+			|| Regex::new(XML_NAME_PATTERN).unwrap()
 		);
 		if checker.is_match(name) {
 			Ok(())
@@ -996,7 +1000,7 @@ impl Element {
 	fn check_elem_name(name: &str) -> Result<(), InvalidElementName> {
 		let singleton = Element::NAME_CHECKER_SINGLETON;
 		let checker = singleton.get_or_init(
-			|| Regex::new(r#"^[_a-zA-Z]\S*$"#).unwrap()
+			|| Regex::new(XML_NAME_PATTERN).unwrap()
 		);
 		if checker.is_match(name) {
 			Ok(())
-- 
2.43.0


From 06f794300846334f18820056e5f075908c3926f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 11/14] fix: a closing tag may not end with '/>'

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 45362cb..62ac528 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -562,6 +562,13 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 			})?;
 			// is it a closing tag? If so, pop the parent stack
 			if slice.starts_with("</") {
+				if slice.ends_with("/>") {
+					// a closing tag cannot also be self-closing
+					let (line, col) = line_and_column(&buffer, tag_span.0);
+					return Err(errors::ParsingError::new(format!(
+						"invalid closing tag {slice} (syntax error on line {line}, column {col})"
+					)).into());
+				}
 				let active_element = parse_stack.top_element()
 					.ok_or_else(||{
 						let (line, col) = line_and_column(&buffer, next_span.0.unwrap());
-- 
2.43.0


From b500044d6eee9a4f8fcdd09eac860798f41284b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 12/14] fix: count nesting and comments in usize, an i32
 counter overflows on huge inputs

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 62ac528..c46bfe9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -384,7 +384,7 @@ pub fn parse_str(xml_string: impl Into<String>) -> Result<dom::Document, errors:
 	let buffer = xml_string.into();
 	let mut decl: Option<dom::Declaration> = None;
 	let mut dtds: Vec<dom::DTD> = Vec::new();
-	let mut no_comment_warn = 0;
+	let mut no_comment_warn: usize = 0;
 	let mut tag_span: (usize, usize) = (0, 0);
 	// parse decl and dtds, break on start of root element
 	loop {
@@ -860,7 +860,7 @@ fn quote_aware_find(text: &str, pattern: &str, from: usize) -> Option<usize> {
 
 /// like `quote_aware_find()` above, but the pattern is '>' and it skips both quoted content and nested <tags>
 fn nested_quote_aware_find_close(text: &str, from: usize) -> Option<usize> {
-	let mut depth: i32 = 0;
+	let mut depth: usize = 0;
 	let mut in_quote = false;
 	let mut quote_char = '\0';
 	for (i, c) in text[from..].char_indices() {
-- 
2.43.0


From 3f5784ea456028cfff2de91d6ece4de3dcc205b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:49 +0000
Subject: [PATCH 13/14] fix: look up the inherited namespace of a prefix by the
 prefix, not by its attribute name

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c46bfe9..dd0f799 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -706,7 +706,7 @@ fn parse_new_element(tag_content: &str, buffer: &String, tag_span: &(usize, usiz
 						"invalid XML syntax on line {line}, column {col}: XML namespace prefix '{a}' has no defined namespace (missing 'xmlns:{a}=\"...\"')"
 					)).into());
 				}
-				Some(ctx) => {ctx.get(prefix_key.as_str()).map(String::clone)}
+				Some(ctx) => {ctx.get(a).map(String::clone)}
 			}
 		};
 	}
-- 
2.43.0


From 81a9206ec0443e10c3f10cd3c45b317efce60c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 14/14] fix: U+1680 separates attributes, do not accept it as a
 name character in tags

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index dd0f799..a622ad7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -758,8 +758,9 @@ fn check_element_tag(text: &str) -> Result<(), errors::KissXmlError> {
 	let singleton = ELEM_MATCHER_SINGLETON;
 	let matcher = singleton.get_or_init(||{
 		// see https://www.w3.org/TR/REC-xml/#sec-common-syn
-		let name_start_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}]"#;
-		let name_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]"#;
+		// (without U+1680, which is whitespace to this parser and thus separates attributes)
+		let name_start_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{167F}\x{1681}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}]"#;
+		let name_char = r#"[:A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\x{2FF}\x{370}-\x{37D}\x{37F}-\x{167F}\x{1681}-\x{1FFF}\x{200C}-\x{200D}\x{2070}-\x{218F}\x{2C00}-\x{2FEF}\x{3001}-\x{D7FF}\x{F900}-\x{FDCF}\x{FDF0}-\x{FFFD}\x{10000}-\x{EFFFF}.\-0-9\xB7\x{0300}-\x{036F}\x{203F}-\x{2040}]"#;
 		let pattern = format!(r#"^</?{name_start_char}{name_char}*(:{name_start_char}{name_char}*)?(\s+{name_start_char}{name_char}*\s*=\s*("[^"]*"|'[^']*'))*\s*/?>$"#);
 		Regex::new(pattern.as_str()).unwrap()
 	});
-- 
2.43.0

