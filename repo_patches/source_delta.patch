From 3cc1f8c56f61934ff63587faffe825fb0fb1da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:41 +0000
Subject: [PATCH 01/38] fix: keep the whitespace between the words of a
 paragraph

Whitespace-only tokens and line breaks were dropped, so that every text came
out as one run-together word.
---
 gfm/src/lib.rs   | 37 ++++++++++++++++++++++---------------
 gfm/src/token.rs | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+), 15 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 829f7fa..5f7c9f5 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -59,6 +59,7 @@ impl Parser {
 		let mut in_unordered_list = false;
 		let mut in_code = false;
 		let mut references = Vec::new();
+		let mut pending_whitespace = "";
 		let mut token_iter = tokens.iter().peekable();
 
 		// multi-liners
@@ -66,8 +67,23 @@ impl Parser {
 			let token = token_iter.next().unwrap();
 
 			debug!("Processing token: {:?}", token);
+
+			// whitespace only matters in between the inlines of a paragraph
+			if let Some(whitespace) = token.as_whitespace() {
+				if in_paragraph && pending_whitespace.is_empty() {
+					pending_whitespace = whitespace;
+				}
+				continue;
+			}
+			if in_paragraph && token.is_inline() {
+				if pending_whitespace.is_empty() {
+					pending_whitespace = token.leading_whitespace();
+				}
+				html.push_str(pending_whitespace);
+			}
+			pending_whitespace = "";
+
 			match token {
-				Token::Plaintext(t) if t.trim().is_empty() => {} // ignore
 				Token::Tab | Token::DoubleTab => {}
 				Token::OrderedListEntry(_) |
 				Token::UnorderedListEntry(_) |
@@ -140,17 +156,10 @@ impl Parser {
 
 			match token {
 				Token::Plaintext(t) => {
-					let mut t: String = t.to_string();
-					if t.trim().is_empty() {
-						continue;
-					}
-
-					t.rfind('\n').map(|n| {
-						let (_before, after) = t.split_at(n);
-						if after.chars().all(|c| c.is_whitespace()) {
-							t = t.trim_end_matches(after).to_string();
-						}
-					});
+					let (t, trailing) =
+						t.split_at(t.trim_ascii_end().len());
+					let t = t.trim_ascii_start();
+					pending_whitespace = trailing;
 
 					if t.contains("[^") && t.contains("]") {
 						let plaintext_tokens = t.split("[^");
@@ -180,9 +189,7 @@ impl Parser {
 						}
 						html.push_str(&s);
 					} else {
-						html.push_str(&Self::sanitize_display_text(
-							t.trim_start_matches('\n'),
-						))
+						html.push_str(&Self::sanitize_display_text(t))
 					}
 				}
 				Token::Header(l, t, lbl) => {
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 731992e..10b1184 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -79,6 +79,39 @@ impl fmt::Display for Token<'_> {
 }
 
 impl Token<'_> {
+	/// The text of a token which consists of nothing but whitespace, with line
+	/// endings reduced to a single soft line break.
+	pub(crate) fn as_whitespace(&self) -> Option<&str> {
+		match self {
+			Token::Plaintext(t) if !t.trim_ascii().is_empty() => None,
+			Token::Plaintext(t) if t.contains('\n') => Some("\n"),
+			Token::Plaintext(t) => Some(t),
+			Token::LineBreak => Some("<br />\n"),
+			_ => None,
+		}
+	}
+
+	/// The whitespace a token of plain text starts with.
+	pub(crate) fn leading_whitespace(&self) -> &str {
+		match self {
+			Token::Plaintext(t) => &t[..t.len() - t.trim_ascii_start().len()],
+			_ => "",
+		}
+	}
+
+	/// Whether the token is rendered as a part of a paragraph.
+	pub(crate) fn is_inline(&self) -> bool {
+		matches!(
+			self,
+			Token::Plaintext(_) |
+				Token::Italic(_) |
+				Token::Bold(_) |
+				Token::BoldItalic(_) |
+				Token::Strikethrough(_) |
+				Token::Link(_, _, _)
+		)
+	}
+
 	pub(crate) fn is_usable_in_table(&self) -> bool {
 		match self {
 			Token::Code(_) => true,
-- 
2.43.0


From 02e222c9371facb4a45a0906777b9349fac2e295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:50 +0000
Subject: [PATCH 02/38] fix: only start blocks at the start of a line

A hyphen, digit, hash, pipe, angle bracket or tab anywhere in a text started a
list, heading, table, quote or code block, also inside of headings and table
cells.
---
 gfm/src/iter.rs  |  9 +++++++++
 gfm/src/lexer.rs | 36 +++++++++++++++++++++++++-----------
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index 8a1f82c..67ae9a3 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -86,6 +86,15 @@ impl<'a> MarkdownIter<'a> {
 		self.the_str.get(self.index..=(self.the_str.len() - 1))
 	}
 
+	/// Whether only spaces or tabs precede the cursor on the current line.
+	pub fn is_at_line_start(&self) -> bool {
+		self.the_str[..self.index]
+			.trim_end_matches([' ', '\t'])
+			.chars()
+			.next_back()
+			.is_none_or(|c| c == '\n')
+	}
+
 	pub fn get_index(&self) -> usize {
 		self.index
 	}
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index ed81087..3283b8e 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -53,8 +53,12 @@ impl<'a> Lexer<'a> {
 	) -> Option<Token<'a>> {
 		while let Some(ch) = self.iter.peek() {
 			debug!("Processing character: {:?}", self.iter.peek());
+			// Blocks only start at the start of a line, and never inside of
+			// single line content such as headings or table cells
+			let block_start =
+				ignore.is_empty() && self.iter.is_at_line_start();
 			match ch {
-				"#" if !ignore.contains(&'#') => {
+				"#" if block_start => {
 					return match self.lex_heading() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -73,7 +77,7 @@ impl<'a> Lexer<'a> {
 					}
 				}
 				" " | "\t" => {
-					return match self.lex_tabs_spaces(tokens) {
+					return match self.lex_tabs_spaces(tokens, block_start) {
 						Ok(t) => Some(t),
 						Err(e) => {
 							warn!("Error while lexing whitespaces: {}", e);
@@ -81,7 +85,9 @@ impl<'a> Lexer<'a> {
 						}
 					}
 				}
-				"1" | "2" | "3" | "4" | "5" | "6" | "7" | "8" | "9" | "0" => {
+				"1" | "2" | "3" | "4" | "5" | "6" | "7" | "8" | "9" | "0"
+					if block_start =>
+				{
 					return match self.lex_numbers() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -91,7 +97,7 @@ impl<'a> Lexer<'a> {
 					}
 				}
 				"*" | "_" => {
-					return match self.lex_asterisk_underscore() {
+					return match self.lex_asterisk_underscore(block_start) {
 						Ok(t) => Some(t),
 						Err(e) => {
 							warn!(
@@ -103,7 +109,7 @@ impl<'a> Lexer<'a> {
 						}
 					}
 				}
-				"-" | "+" => {
+				"-" | "+" if block_start => {
 					return match self.lex_plus_minus() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -112,7 +118,7 @@ impl<'a> Lexer<'a> {
 						}
 					}
 				}
-				">" => {
+				">" if block_start => {
 					return match self.lex_blockquotes() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -166,7 +172,7 @@ impl<'a> Lexer<'a> {
 						}
 					}
 				}
-				"|" => {
+				"|" if block_start => {
 					return match self.lex_pipes() {
 						Ok(t) => Some(t),
 						Err(e) => {
@@ -265,6 +271,7 @@ impl<'a> Lexer<'a> {
 	fn lex_tabs_spaces(
 		&mut self,
 		tokens: &Vec<Token>,
+		block_start: bool,
 	) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
 		let whitespace = self
@@ -283,6 +290,7 @@ impl<'a> Lexer<'a> {
 			{
 				return Ok(Token::LineBreak)
 			}
+			Some(s) if !block_start => return Err(ParseError { content: s }),
 			Some(_s) => {}
 		}
 
@@ -311,7 +319,7 @@ impl<'a> Lexer<'a> {
 		}
 
 		if self.iter.peek() == Some("\t") || self.iter.peek() == Some(" ") {
-			match self.lex_tabs_spaces(tokens) {
+			match self.lex_tabs_spaces(tokens, block_start) {
 				Ok(Token::CodeBlock(_content, _lang)) => {
 					return Ok(Token::CodeBlock(
 						self.iter
@@ -371,13 +379,19 @@ impl<'a> Lexer<'a> {
 		Err(ParseError { content: "EOF" })
 	}
 
-	fn lex_asterisk_underscore(&mut self) -> Result<Token<'a>, ParseError<'a>> {
+	fn lex_asterisk_underscore(
+		&mut self,
+		block_start: bool,
+	) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
 		let asterunds = self
 			.iter
 			.consume_while_case_holds(&|c| c == "*" || c == "_" || c == "\t")
 			.unwrap_or("");
-		if asterunds.len() == 1 && self.iter.next_if_eq(" ").is_some() {
+		if block_start &&
+			asterunds.len() == 1 &&
+			self.iter.next_if_eq(" ").is_some()
+		{
 			let s = self
 				.iter
 				.consume_while_case_holds(&|c| c != "\n")
@@ -964,7 +978,7 @@ impl<'a> Lexer<'a> {
 				.collect();
 			let mut r = Vec::new();
 			for e in elements.into_iter() {
-				let mut inner_tokens = Parser::lex(&e, &[]);
+				let mut inner_tokens = Parser::lex(&e, &['|']);
 				inner_tokens.retain(|token| token.is_usable_in_table());
 				r.push(inner_tokens);
 			}
-- 
2.43.0


From 6ddaa8683ada3c4cc347f5b8ff6bdf13bb743c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:53 +0000
Subject: [PATCH 03/38] fix: render code blocks and code spans verbatim

---
 gfm/src/lexer.rs | 107 ++++++++++++++++++++++++-----------------------
 gfm/src/lib.rs   |  46 +++++++++++++-------
 gfm/src/token.rs |   1 +
 3 files changed, 87 insertions(+), 67 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 3283b8e..4a7f783 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -137,7 +137,7 @@ impl<'a> Lexer<'a> {
 					}
 				}
 				"`" => {
-					return match self.lex_backticks() {
+					return match self.lex_backticks(block_start) {
 						Ok(t) => Some(t),
 						Err(e) => {
 							warn!("Error while lexing backticks: {}", e);
@@ -273,7 +273,6 @@ impl<'a> Lexer<'a> {
 		tokens: &Vec<Token>,
 		block_start: bool,
 	) -> Result<Token<'a>, ParseError<'a>> {
-		let start_index = self.iter.get_index();
 		let whitespace = self
 			.iter
 			.consume_while_case_holds(&|c| c == "\t" || c == " ");
@@ -304,38 +303,29 @@ impl<'a> Lexer<'a> {
 			{
 				return Err(ParseError { content: line })
 			}
-			"    "
-				if (matches!(tokens.last(), Some(Token::Newline)) &&
-					line.contains('#')) =>
-			{
-				return Err(ParseError { content: line })
-			}
-			"\t" if matches!(tokens.last(), Some(Token::Code(_))) => {
-				return Ok(Token::Code(line.to_string()))
-			}
-			"\t" | "    " | "  \t" => return Ok(Token::Code(line.to_string())),
-			"\t\t" => return Ok(Token::Code("\t".to_owned() + line)),
 			_ => {}
 		}
 
-		if self.iter.peek() == Some("\t") || self.iter.peek() == Some(" ") {
-			match self.lex_tabs_spaces(tokens, block_start) {
-				Ok(Token::CodeBlock(_content, _lang)) => {
-					return Ok(Token::CodeBlock(
-						self.iter
-							.get_substring_from(start_index)
-							.unwrap_or("")
-							.to_string(),
-						"".to_string(),
-					))
-				}
-				Err(e) => return Err(e),
-				Ok(_) => return Err(ParseError { content: "" }),
+		let mut code = Self::strip_code_indent(whitespace).to_owned() + line;
+		while let Some(next_line) = self.iter.peek_line_ahead() {
+			let next_code = Self::strip_code_indent(next_line);
+			if next_code.len() == next_line.len() ||
+				next_line.trim_ascii().is_empty()
+			{
+				break;
 			}
+			code.push_str(next_code);
+			self.iter.consume_line_ahead();
 		}
-		Err(ParseError {
-			content: self.iter.get_substring_from(start_index).unwrap_or(""),
-		})
+		Ok(Token::CodeBlock(code, "".to_string()))
+	}
+
+	/// Removes the four columns of indentation that make up a code block.
+	fn strip_code_indent(line: &str) -> &str {
+		["\t", " \t", "  \t", "   \t", "    "]
+			.iter()
+			.find_map(|indent| line.strip_prefix(indent))
+			.unwrap_or(line)
 	}
 
 	fn lex_numbers(&mut self) -> Result<Token<'a>, ParseError<'a>> {
@@ -615,14 +605,17 @@ impl<'a> Lexer<'a> {
 		}
 	}
 
-	fn lex_backticks(&mut self) -> Result<Token<'a>, ParseError<'a>> {
+	fn lex_backticks(
+		&mut self,
+		block_start: bool,
+	) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
 		let leading_ticks = self
 			.iter
 			.consume_while_case_holds(&|c| c == "`")
 			.unwrap_or("");
 		let mut lang = "";
-		if leading_ticks.len() == 3 {
+		if block_start && leading_ticks.len() == 3 {
 			if self.iter.next_if_eq("\n") != Some(&"\n") {
 				lang = self
 					.iter
@@ -630,23 +623,28 @@ impl<'a> Lexer<'a> {
 					.unwrap_or("");
 				self.iter.next();
 			}
-			let s = self
-				.iter
-				.consume_while_case_holds(&|c| c != "`")
-				.unwrap_or("");
-			let trailing_ticks = self
-				.iter
-				.consume_while_case_holds(&|c| c == "`")
-				.unwrap_or("");
-			if leading_ticks.len() != trailing_ticks.len() {
-				return Err(ParseError {
-					content: self
-						.iter
-						.get_substring_from(start_index)
-						.unwrap_or(""),
-				});
-			} else {
-				return Ok(Token::CodeBlock(s.to_string(), lang.to_string()));
+			// A code block lasts until a line which is nothing but a fence
+			let code_index = self.iter.get_index();
+			loop {
+				let s =
+					self.iter.get_substring_from(code_index).unwrap_or("");
+				match self.iter.consume_line_ahead() {
+					Some(line) if line.trim_ascii() == leading_ticks => {
+						return Ok(Token::CodeBlock(
+							s.to_string(),
+							lang.to_string(),
+						));
+					}
+					Some(_line) => {}
+					None => {
+						return Err(ParseError {
+							content: self
+								.iter
+								.get_substring_from(start_index)
+								.unwrap_or(""),
+						});
+					}
+				}
 			}
 		}
 
@@ -664,11 +662,14 @@ impl<'a> Lexer<'a> {
 					.unwrap_or(""),
 			});
 		} else {
-			let s = s.trim_end_matches(tail);
-			if s.starts_with(' ') && s.ends_with(' ') {
-				return Ok(Token::Code(
-					s.trim_start_matches(' ').trim_end_matches(' ').to_string(),
-				));
+			let s = s.strip_suffix(tail.as_str()).unwrap_or(s);
+			// One space on both sides only separates the code from its ticks
+			if let Some(code) =
+				s.strip_prefix(' ').and_then(|s| s.strip_suffix(' '))
+			{
+				if !code.trim_matches(' ').is_empty() {
+					return Ok(Token::Code(code.to_string()));
+				}
 			}
 			return Ok(Token::Code(s.to_string()));
 		}
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 5f7c9f5..d7321fb 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -57,7 +57,6 @@ impl Parser {
 		let mut in_paragraph = false;
 		let mut in_ordered_list = false;
 		let mut in_unordered_list = false;
-		let mut in_code = false;
 		let mut references = Vec::new();
 		let mut pending_whitespace = "";
 		let mut token_iter = tokens.iter().peekable();
@@ -95,6 +94,7 @@ impl Parser {
 				Token::Bold(_) |
 				Token::BoldItalic(_) |
 				Token::Strikethrough(_) |
+				Token::Code(_) |
 				Token::Link(_, _, _)
 					if !in_paragraph =>
 				{
@@ -147,10 +147,6 @@ impl Parser {
 					in_paragraph = false;
 					html.push_str("</p>\n")
 				}
-				Token::Code(_) if !in_code => {
-					html.push_str("<pre><code>");
-					in_code = true;
-				}
 				_ => {}
 			}
 
@@ -513,8 +509,25 @@ impl Parser {
 					.as_str(),
 				),
 				Token::Code(t) => html.push_str(
-					format!("{}", Self::sanitize_display_text(t)).as_str(),
+					format!("<code>{}</code>", Self::escape_code(t)).as_str(),
 				),
+				Token::CodeBlock(t, lang) => {
+					match lang.split_ascii_whitespace().next() {
+						Some(lang) => html.push_str(
+							format!(
+								"<pre><code class=\"language-{}\">",
+								Self::sanitize_display_text(lang)
+							)
+							.as_str(),
+						),
+						None => html.push_str("<pre><code>"),
+					}
+					html.push_str(&Self::escape_code(t));
+					if !t.is_empty() && !t.ends_with('\n') {
+						html.push('\n');
+					}
+					html.push_str("</code></pre>");
+				}
 				Token::HorizontalRule => html.push_str("<hr />\n"),
 				Token::Newline => {}
 				Token::Tab => html.push('\t'),
@@ -540,16 +553,11 @@ impl Parser {
 		if in_ordered_list {
 			html.push_str("</ol>");
 		}
-		if html.chars().last().unwrap_or(' ') != '\n' {
+		if html.chars().last().unwrap_or(' ') != '\n' &&
+			!matches!(tokens.last(), Some(Token::CodeBlock(_, _)))
+		{
 			html.push('\n');
 		}
-		if in_code && !matches!(token_iter.peek(), Some(Token::Code(_))) {
-			match html.chars().last().unwrap() {
-				'\n' => {}
-				_ => html.push('\n'),
-			}
-			html.push_str("</code></pre>");
-		}
 
 		if references.len() > 0 {
 			html.push_str("<div class=\"footnotes\" role=\"doc-endnotes\">\n");
@@ -576,6 +584,16 @@ impl Parser {
 		html
 	}
 
+	/// Escapes text in which, other than in display text, a backslash is
+	/// nothing special.
+	fn escape_code(source: &str) -> String {
+		source
+			.replace('&', "&amp;")
+			.replace('<', "&lt;")
+			.replace('>', "&gt;")
+			.replace('"', "&quot;")
+	}
+
 	pub(crate) fn sanitize_display_text(source: &str) -> String {
 		source
 			.replace('&', "&amp;")
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 10b1184..cd60d05 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -108,6 +108,7 @@ impl Token<'_> {
 				Token::Bold(_) |
 				Token::BoldItalic(_) |
 				Token::Strikethrough(_) |
+				Token::Code(_) |
 				Token::Link(_, _, _)
 		)
 	}
-- 
2.43.0


From 449cdba97f1f3bd026093910481669c34f280a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:46 +0000
Subject: [PATCH 04/38] fix: close open blocks before the next block starts

---
 gfm/src/lib.rs | 106 +++++++++++++++----------------------------------
 1 file changed, 33 insertions(+), 73 deletions(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index d7321fb..57a6e5b 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -82,72 +82,40 @@ impl Parser {
 			}
 			pending_whitespace = "";
 
-			match token {
-				Token::Tab | Token::DoubleTab => {}
-				Token::OrderedListEntry(_) |
-				Token::UnorderedListEntry(_) |
-				Token::Newline
-					if in_ordered_list | in_unordered_list => {}
-				Token::TaskListItem(_, _) | Token::Newline if in_task_list => {}
-				Token::Plaintext(_) |
-				Token::Italic(_) |
-				Token::Bold(_) |
-				Token::BoldItalic(_) |
-				Token::Strikethrough(_) |
-				Token::Code(_) |
-				Token::Link(_, _, _)
-					if !in_paragraph =>
-				{
-					for _i in 0..quote_level {
-						html.push_str("</blockquote>");
-						quote_level -= 1;
-					}
-					in_paragraph = true;
-					html.push_str("<p>")
-				}
-				_ if in_ordered_list => {
-					in_ordered_list = false;
-					html.push_str("</ol>\n");
-					if !in_paragraph {
-						in_paragraph = true;
-						html.push_str("<p>")
-					}
-				}
-				_ if in_unordered_list => {
-					in_unordered_list = false;
-					html.push_str("</ul>\n");
-					if !in_paragraph {
-						in_paragraph = true;
-						html.push_str("<p>")
-					}
-				}
-				_ if in_task_list => {
-					in_task_list = false;
-					html.push_str("</ul>\n");
-					if !in_paragraph {
-						in_paragraph = true;
-						html.push_str("<p>")
-					}
-				}
-				Token::CodeBlock(_, _) |
-				Token::Newline |
-				Token::Header(_, _, _)
-					if in_paragraph =>
-				{
-					in_paragraph = false;
-					html.push_str("</p>\n")
-				}
-				Token::BlockQuote(_, _) | Token::Newline if quote_level > 0 => {
-				}
-				Token::CodeBlock(_, _) |
-				Token::Newline |
-				Token::Header(_, _, _)
-					if in_paragraph =>
-				{
-					in_paragraph = false;
-					html.push_str("</p>\n")
+			// a block ends where something starts that is not a part of it
+			if in_paragraph && !token.is_inline() {
+				in_paragraph = false;
+				html.push_str("</p>\n");
+			}
+			if in_ordered_list &&
+				!matches!(token, Token::OrderedListEntry(_) | Token::Newline)
+			{
+				in_ordered_list = false;
+				html.push_str("</ol>\n");
+			}
+			if in_unordered_list &&
+				!matches!(
+					token,
+					Token::UnorderedListEntry(_) | Token::Newline
+				) {
+				in_unordered_list = false;
+				html.push_str("</ul>\n");
+			}
+			if in_task_list &&
+				!matches!(token, Token::TaskListItem(_, _) | Token::Newline)
+			{
+				in_task_list = false;
+				html.push_str("</ul>\n");
+			}
+			if !matches!(token, Token::BlockQuote(_, _) | Token::Newline) {
+				for _i in 0..quote_level {
+					html.push_str("</blockquote>\n");
 				}
-				_ => {}
+				quote_level = 0;
+			}
+			if !in_paragraph && token.is_inline() {
+				in_paragraph = true;
+				html.push_str("<p>");
 			}
 
 			match token {
@@ -326,10 +294,6 @@ impl Parser {
 					),
 				},
 				Token::Detail(summary, inner_tokens) => {
-					if in_paragraph {
-						html.push_str("</p>\n");
-						in_paragraph = false;
-					}
 					let inner_html = Self::parse(inner_tokens);
 					html.push_str(
 						format!(
@@ -360,10 +324,6 @@ impl Parser {
 					.as_str(),
 				),
 				Token::BlockQuote(l, t) => {
-					if in_paragraph {
-						html.push_str("</p>");
-						in_paragraph = false;
-					}
 					match quote_level {
 						_ if l == &quote_level => {}
 						_ if l < &quote_level => {
-- 
2.43.0


From afcb96d9061bf9fa3a962cd1cc0bf37443e902a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:16 +0000
Subject: [PATCH 05/38] fix: keep the text of headings with an explicit id

---
 gfm/src/lexer.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 4a7f783..8478bce 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -216,7 +216,7 @@ impl<'a> Lexer<'a> {
 		}
 		if self.iter.next_if_eq(" ").is_none() &&
 			self.iter.next_if_eq("\t").is_none() &&
-			self.iter.peek() != Some("\n")
+			!matches!(self.iter.peek(), Some("\n") | None)
 		{
 			return Err(ParseError { content: hashes });
 		}
@@ -224,15 +224,16 @@ impl<'a> Lexer<'a> {
 			.iter
 			.consume_while_case_holds(&|c| c != "\n")
 			.unwrap_or("");
-		if line.contains("{#") && line.contains('}') {
-			let (heading, _title) = line.split_once("{").unwrap_or(("", ""));
-			line = line
-				.strip_prefix(heading)
-				.unwrap()
-				.strip_prefix("{#")
-				.unwrap()
-				.strip_suffix("}")
-				.unwrap();
+		let mut label = None;
+		if let Some((heading, id)) = line
+			.trim_end()
+			.strip_suffix("}")
+			.and_then(|line| line.rsplit_once("{#"))
+		{
+			if !id.is_empty() && !id.contains(['{', '}']) {
+				line = heading.trim_end_matches([' ', '\t']);
+				label = Some(id.to_string());
+			}
 		}
 		let line_without_optional_trailing_hash_sequence =
 			match line.trim_end().rsplit_once(' ') {
@@ -243,7 +244,7 @@ impl<'a> Lexer<'a> {
 				None => line,
 			};
 		if line.chars().all(|c| c == '#') {
-			return Ok(Token::Header(hashes.len(), "".to_string(), None));
+			return Ok(Token::Header(hashes.len(), "".to_string(), label));
 		}
 		let parsed_line = Parser::render_ignore(
 			line_without_optional_trailing_hash_sequence
@@ -257,7 +258,7 @@ impl<'a> Lexer<'a> {
 		.trim()
 		.to_string();
 
-		Ok(Token::Header(hashes.len(), parsed_line, None))
+		Ok(Token::Header(hashes.len(), parsed_line, label))
 	}
 
 	fn lex_newlines(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-- 
2.43.0


From d98e856aa6abc2560c8d713149a18db0c616feda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:30 +0000
Subject: [PATCH 06/38] fix: respect blank lines, indentation, hard line breaks
 and escapes

---
 gfm/src/iter.rs  | 12 ++++----
 gfm/src/lexer.rs | 72 +++++++++++++++++++++++++++---------------------
 2 files changed, 47 insertions(+), 37 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index 67ae9a3..9b9dfdf 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -86,13 +86,13 @@ impl<'a> MarkdownIter<'a> {
 		self.the_str.get(self.index..=(self.the_str.len() - 1))
 	}
 
-	/// Whether only spaces or tabs precede the cursor on the current line.
+	/// Whether the cursor is at the start of the text of a line, which may be
+	/// indented by up to three spaces.
 	pub fn is_at_line_start(&self) -> bool {
-		self.the_str[..self.index]
-			.trim_end_matches([' ', '\t'])
-			.chars()
-			.next_back()
-			.is_none_or(|c| c == '\n')
+		let before = &self.the_str[..self.index];
+		let line = before.trim_end_matches(' ');
+		before.len() - line.len() <= 3 &&
+			(line.is_empty() || line.ends_with('\n'))
 	}
 
 	pub fn get_index(&self) -> usize {
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 8478bce..4a6d700 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -262,10 +262,17 @@ impl<'a> Lexer<'a> {
 	}
 
 	fn lex_newlines(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-		match self.iter.consume_while_case_holds(&|c| c == "\n") {
-			Some(s) if s.len() >= 2 => Ok(Token::Newline),
-			Some(s) if s.len() < 2 => Err(ParseError { content: s }),
-			_ => Err(ParseError { content: "" }),
+		let newline = self.iter.next().unwrap_or("");
+		let mut is_blank_line = false;
+		while self.iter.peek_line_ahead().is_some_and(|line| {
+			line.ends_with('\n') && line.trim_ascii().is_empty()
+		}) {
+			self.iter.consume_line_ahead();
+			is_blank_line = true;
+		}
+		match is_blank_line {
+			true => Ok(Token::Newline),
+			false => Err(ParseError { content: newline }),
 		}
 	}
 
@@ -278,11 +285,14 @@ impl<'a> Lexer<'a> {
 			.iter
 			.consume_while_case_holds(&|c| c == "\t" || c == " ");
 
+		// An indented line continues a paragraph, if there is one
+		let in_paragraph = tokens
+			.iter()
+			.rev()
+			.find(|token| token.as_whitespace().is_none())
+			.is_some_and(|token| token.is_inline());
 		match whitespace {
 			None => return Err(ParseError { content: "" }),
-			Some(s) if (1..=3).contains(&s.len()) && !s.contains("\t") => {
-				return Err(ParseError { content: s })
-			}
 			Some(s)
 				if s.len() >= 2 &&
 					!s.contains("\t") &&
@@ -290,23 +300,21 @@ impl<'a> Lexer<'a> {
 			{
 				return Ok(Token::LineBreak)
 			}
-			Some(s) if !block_start => return Err(ParseError { content: s }),
+			Some(s) if !block_start || in_paragraph => {
+				return Err(ParseError { content: s })
+			}
+			Some(s) if Self::strip_code_indent(s).len() == s.len() => {
+				return Err(ParseError { content: s })
+			}
+			Some(_s) if matches!(self.iter.peek(), Some("\n") | None) => {
+				return Err(ParseError { content: "" })
+			}
 			Some(_s) => {}
 		}
 
 		let whitespace = whitespace.unwrap_or("");
 		let line = self.iter.consume_until_tail_is("\n").unwrap_or("");
 
-		match whitespace {
-			"    "
-				if (matches!(tokens.last(), Some(Token::Plaintext(_))) &&
-					line.contains('#')) =>
-			{
-				return Err(ParseError { content: line })
-			}
-			_ => {}
-		}
-
 		let mut code = Self::strip_code_indent(whitespace).to_owned() + line;
 		while let Some(next_line) = self.iter.peek_line_ahead() {
 			let next_code = Self::strip_code_indent(next_line);
@@ -354,20 +362,22 @@ impl<'a> Lexer<'a> {
 	}
 
 	fn lex_escaped_character(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-		self.iter.next();
-		if self.iter.peek() == Some("#") {
-			let hashes = self
-				.iter
-				.consume_while_case_holds(&|c| c == "#")
-				.unwrap_or("");
-			return Ok(Token::Plaintext(hashes.to_string()));
-		} else if self.iter.peek().is_some() {
-			return Ok(Token::Plaintext(
-				self.iter.next().unwrap_or_default().to_string(),
-			));
+		let backslash = self.iter.next().unwrap_or("");
+		match self.iter.peek() {
+			Some("\n") => Ok(Token::LineBreak),
+			Some("#") => {
+				let hashes = self
+					.iter
+					.consume_while_case_holds(&|c| c == "#")
+					.unwrap_or("");
+				Ok(Token::Plaintext(hashes.to_string()))
+			}
+			Some(c) if c.chars().all(|c| c.is_ascii_punctuation()) => {
+				self.iter.next();
+				Ok(Token::Plaintext(c.to_string()))
+			}
+			_ => Err(ParseError { content: backslash }),
 		}
-
-		Err(ParseError { content: "EOF" })
 	}
 
 	fn lex_asterisk_underscore(
-- 
2.43.0


From 85a33c136b1c93b19a71ae83f23bb60116ab0955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:51 +0000
Subject: [PATCH 07/38] fix: treat delimiters that are not closed in their
 paragraph as text

---
 gfm/src/iter.rs  |  18 ++-
 gfm/src/lexer.rs | 331 +++++++++++++++++++++++------------------------
 2 files changed, 176 insertions(+), 173 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index 9b9dfdf..2e229c0 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -28,7 +28,7 @@ impl<'a> MarkdownIter<'a> {
 		}
 	}
 
-	fn update_index_to(&mut self, i: usize) {
+	pub fn update_index_to(&mut self, i: usize) {
 		self.index = i;
 	}
 
@@ -83,7 +83,7 @@ impl<'a> MarkdownIter<'a> {
 	}
 
 	pub fn peek_until_end(&self) -> Option<&'a str> {
-		self.the_str.get(self.index..=(self.the_str.len() - 1))
+		self.the_str.get(self.index..)
 	}
 
 	/// Whether the cursor is at the start of the text of a line, which may be
@@ -99,6 +99,20 @@ impl<'a> MarkdownIter<'a> {
 		self.index
 	}
 
+	/// The character which ends at the given index.
+	pub fn character_before(&self, index: usize) -> Option<char> {
+		self.the_str.get(..index)?.chars().next_back()
+	}
+
+	/// The character at the cursor.
+	pub fn character_ahead(&self) -> Option<char> {
+		self.peek()?.chars().next()
+	}
+
+	pub fn get_substring(&self, start: usize, end: usize) -> Option<&'a str> {
+		self.the_str.get(start..end)
+	}
+
 	pub fn get_substring_from(&self, start: usize) -> Option<&'a str> {
 		self.the_str.get(start..self.index)
 	}
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 4a6d700..84c0041 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -22,7 +22,9 @@ use super::{
 };
 
 pub struct Lexer<'a> {
-	iter: MarkdownIter<'a>,
+	iter:       MarkdownIter<'a>,
+	/// Where the paragraph ends that the cursor was last found to be in
+	inline_end: usize,
 }
 
 #[derive(Debug)]
@@ -41,7 +43,8 @@ impl<'a> Lexer<'a> {
 	pub fn new(input: &'a str) -> Self {
 		debug!("Initializing Lexer with input of length: {}", input.len());
 		Lexer {
-			iter: MarkdownIter::new(input),
+			iter:       MarkdownIter::new(input),
+			inline_end: 0,
 		}
 	}
 
@@ -384,14 +387,15 @@ impl<'a> Lexer<'a> {
 		&mut self,
 		block_start: bool,
 	) -> Result<Token<'a>, ParseError<'a>> {
-		let start_index = self.iter.get_index();
+		if block_start && self.consume_thematic_break() {
+			return Ok(Token::HorizontalRule);
+		}
+		let delimiter = self.iter.peek().unwrap_or("");
 		let asterunds = self
 			.iter
-			.consume_while_case_holds(&|c| c == "*" || c == "_" || c == "\t")
+			.consume_while_case_holds(&|c| c == delimiter)
 			.unwrap_or("");
-		if block_start &&
-			asterunds.len() == 1 &&
-			self.iter.next_if_eq(" ").is_some()
+		if block_start && asterunds == "*" && self.iter.next_if_eq(" ").is_some()
 		{
 			let s = self
 				.iter
@@ -402,80 +406,116 @@ impl<'a> Lexer<'a> {
 				s.to_string(),
 			)]));
 		}
-		if asterunds.chars().all(|x| x == '*') && self.iter.peek() == Some("\n")
-		{
-			return Ok(Token::HorizontalRule);
+		match (asterunds.len(), self.consume_delimited(asterunds)) {
+			(1, Some(s)) => Ok(Token::Italic(s.to_string())),
+			(2, Some(s)) => Ok(Token::Bold(s.to_string())),
+			(3, Some(s)) => Ok(Token::BoldItalic(s.to_string())),
+			_ => Err(ParseError { content: asterunds }),
 		}
-		match asterunds.len() {
-			1 => {
-				let s = self
-					.iter
-					.consume_while_case_holds(&|c| c != "*" && c != "_")
-					.unwrap_or("");
-				if self.iter.peek() != Some("*") ||
-					self.iter.peek() != Some("_")
-				{
-					self.iter.next();
-					Ok(Token::Italic(s.to_string()))
-				} else {
-					Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					})
-				}
-			}
-			2 => {
-				let s = self
+	}
+
+	/// Consumes a line of three or more `*`, `-` or `_` and nothing else.
+	fn consume_thematic_break(&mut self) -> bool {
+		let line = self.iter.peek_line_ahead().unwrap_or("");
+		let mut characters = line.chars().filter(|c| !c.is_ascii_whitespace());
+		let is_break = match characters.next() {
+			Some(first @ ('*' | '-' | '_')) => {
+				line.matches(first).count() >= 3 &&
+					characters.all(|c| c == first)
+			}
+			_ => false,
+		};
+		if is_break {
+			self.iter.consume_while_case_holds(&|c| c != "\n");
+		}
+		is_break
+	}
+
+	/// Consumes the text that an opening delimiter applies to, together with
+	/// its closing delimiter. Nothing is consumed unless there is one.
+	fn consume_delimited(&mut self, delimiter: &str) -> Option<&'a str> {
+		let start_index = self.iter.get_index();
+		let end = self.inline_end();
+		let is_intraword = |lexer: &Self, before: usize| {
+			delimiter.starts_with('_') &&
+				lexer
 					.iter
-					.consume_while_case_holds(&|c| c != "*" && c != "_")
-					.unwrap_or("");
-				let trailing_astunds = self
+					.character_before(before)
+					.is_some_and(char::is_alphanumeric) &&
+				lexer
 					.iter
-					.consume_while_case_holds(&|c| c == "*" || c == "_")
-					.unwrap_or("");
-				if trailing_astunds.len() == 2 {
-					Ok(Token::Bold(s.to_string()))
-				} else {
-					Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					})
+					.character_ahead()
+					.is_some_and(char::is_alphanumeric)
+		};
+		if !(1..=3).contains(&delimiter.len()) ||
+			is_intraword(self, start_index - delimiter.len()) ||
+			self.iter.character_ahead().is_none_or(char::is_whitespace)
+		{
+			return None;
+		}
+		while self.iter.get_index() < end {
+			let index = self.iter.get_index();
+			let run = self
+				.iter
+				.consume_while_case_holds(&|c| delimiter.starts_with(c))
+				.unwrap_or("");
+			if run.is_empty() {
+				if self.iter.next() == Some("\\") {
+					self.iter.next();
 				}
-			}
-			3 => {
-				let s = self
-					.iter
-					.consume_while_case_holds(&|c| c != "*" && c != "_")
-					.unwrap_or("");
-				let trailing_astunds = self
-					.iter
-					.consume_while_case_holds(&|c| c == "*" || c == "_")
-					.unwrap_or("");
-				if trailing_astunds.len() == 3 {
-					Ok(Token::BoldItalic(s.to_string()))
-				} else {
-					Err(ParseError {
-						content: self
+			} else if !is_intraword(self, index) {
+				let is_closing = run == delimiter ||
+					run.len() > delimiter.len() &&
+						!self
 							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					})
+							.character_ahead()
+							.is_some_and(char::is_alphanumeric);
+				if is_closing &&
+					!self
+						.iter
+						.character_before(index)
+						.is_some_and(char::is_whitespace)
+				{
+					self.iter.update_index_to(index + delimiter.len());
+					return self.iter.get_substring(start_index, index);
 				}
+				break;
 			}
-			_ => {
-				if asterunds.replace("\t", "").chars().all(|x| x == '*') ||
-					asterunds.chars().all(|x| x == '_')
-				{
-					Ok(Token::HorizontalRule)
-				} else {
-					Err(ParseError { content: asterunds })
+		}
+		self.iter.update_index_to(start_index);
+		None
+	}
+
+	/// The end of the paragraph the cursor is in, which no inline crosses.
+	fn inline_end(&mut self) -> usize {
+		if self.inline_end <= self.iter.get_index() {
+			let rest = self.iter.peek_until_end().unwrap_or("");
+			let mut length = 0;
+			for (i, line) in rest.split_inclusive('\n').enumerate() {
+				if i > 0 && Self::ends_paragraph(line) {
+					break;
 				}
+				length += line.len();
 			}
+			self.inline_end = self.iter.get_index() + length;
 		}
+		self.inline_end
+	}
+
+	/// Whether a line is blank or may be the start of a block.
+	fn ends_paragraph(line: &str) -> bool {
+		let text = line.trim_ascii();
+		let marker = text.trim_start_matches(|c: char| c.is_ascii_digit());
+		text.is_empty() ||
+			text.starts_with(['#', '>', '|']) ||
+			text.starts_with("```") ||
+			text.starts_with("<details>") ||
+			text.starts_with("[^") ||
+			text.chars().all(|c| "*-_ \t".contains(c)) ||
+			["* ", "*\t", "- ", "-\t", "+ ", "+\t"]
+				.iter()
+				.any(|marker| text.starts_with(marker)) ||
+			text.len() > marker.len() && marker.starts_with(". ")
 	}
 
 	pub fn lex_blockquotes(&mut self) -> Result<Token<'a>, ParseError<'a>> {
@@ -502,27 +542,17 @@ impl<'a> Lexer<'a> {
 	pub(crate) fn lex_plus_minus(
 		&mut self,
 	) -> Result<Token<'a>, ParseError<'a>> {
-		let start_index = self.iter.get_index();
+		if self.consume_thematic_break() {
+			return Ok(Token::HorizontalRule);
+		}
 		let s = self
 			.iter
 			.consume_while_case_holds(&|c| c == "-" || c == "+")
 			.unwrap_or("");
-		match s.len() {
-			3..=usize::MAX => return Ok(Token::HorizontalRule),
-			2 => {
-				return Err(ParseError {
-					content: self
-						.iter
-						.get_substring_from(start_index)
-						.unwrap_or(""),
-				})
-			}
-			1 => {}
-			_ => {
-				return Err(ParseError {
-					content: "string length error",
-				})
-			}
+		if s.len() != 1 ||
+			!matches!(self.iter.peek(), Some(" " | "\t" | "\n") | None)
+		{
+			return Err(ParseError { content: s });
 		}
 		let line_index = self.iter.get_index();
 		let mut list_element_tokens = vec![Token::Plaintext(
@@ -573,46 +603,13 @@ impl<'a> Lexer<'a> {
 	}
 
 	fn lex_tilde(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-		let start_index = self.iter.get_index();
-		let lead_tildes =
-			match self.iter.consume_while_case_holds(&|s| s == "~") {
-				Some(s) => s,
-				None => {
-					return Err(ParseError {
-						content: "Failure to parse ~",
-					})
-				}
-			};
-		match lead_tildes.len() {
-			1 => {
-				return Err(ParseError {
-					content: lead_tildes,
-				})
-			}
-			2 => {
-				let line = self
-					.iter
-					.consume_while_case_holds(&|s| s != "~")
-					.unwrap_or("");
-				let tail_tildes = self
-					.iter
-					.consume_while_case_holds(&|s| s == "~")
-					.unwrap_or("");
-				if lead_tildes.len() != tail_tildes.len() {
-					return Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					});
-				}
-				return Ok(Token::Strikethrough(line.to_string()));
-			}
-			_ => {
-				return Err(ParseError {
-					content: lead_tildes,
-				})
-			}
+		let tildes = self
+			.iter
+			.consume_while_case_holds(&|c| c == "~")
+			.unwrap_or("");
+		match (tildes.len(), self.consume_delimited(tildes)) {
+			(2, Some(s)) => Ok(Token::Strikethrough(s.to_string())),
+			_ => Err(ParseError { content: tildes }),
 		}
 	}
 
@@ -620,72 +617,64 @@ impl<'a> Lexer<'a> {
 		&mut self,
 		block_start: bool,
 	) -> Result<Token<'a>, ParseError<'a>> {
-		let start_index = self.iter.get_index();
 		let leading_ticks = self
 			.iter
 			.consume_while_case_holds(&|c| c == "`")
 			.unwrap_or("");
-		let mut lang = "";
-		if block_start && leading_ticks.len() == 3 {
-			if self.iter.next_if_eq("\n") != Some(&"\n") {
-				lang = self
-					.iter
-					.consume_while_case_holds(&|c| c != "\n")
-					.unwrap_or("");
-				self.iter.next();
-			}
+		let lang = self.iter.peek_line_ahead().unwrap_or("");
+		if block_start && leading_ticks.len() >= 3 && !lang.contains('`') {
+			self.iter.consume_line_ahead();
 			// A code block lasts until a line which is nothing but a fence
 			let code_index = self.iter.get_index();
 			loop {
 				let s =
 					self.iter.get_substring_from(code_index).unwrap_or("");
 				match self.iter.consume_line_ahead() {
-					Some(line) if line.trim_ascii() == leading_ticks => {
+					Some(line) if !Self::is_fence(line, leading_ticks) => {}
+					_ => {
 						return Ok(Token::CodeBlock(
 							s.to_string(),
 							lang.to_string(),
 						));
 					}
-					Some(_line) => {}
-					None => {
-						return Err(ParseError {
-							content: self
-								.iter
-								.get_substring_from(start_index)
-								.unwrap_or(""),
-						});
-					}
 				}
 			}
 		}
 
-		// let s = self.iter.consume_while_case_holds(&|c| c != "`" && c!=
-		// "\n").unwrap_or("");
-		let tail = &(0..leading_ticks.len() as u64)
-			.map(|_| "`")
-			.collect::<String>();
-		let s = self.iter.consume_until_tail_is(tail).unwrap_or("");
-		if !s.ends_with(tail) {
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
-		} else {
-			let s = s.strip_suffix(tail.as_str()).unwrap_or(s);
-			// One space on both sides only separates the code from its ticks
-			if let Some(code) =
-				s.strip_prefix(' ').and_then(|s| s.strip_suffix(' '))
-			{
-				if !code.trim_matches(' ').is_empty() {
-					return Ok(Token::Code(code.to_string()));
+		let code_index = self.iter.get_index();
+		let end = self.inline_end();
+		while self.iter.get_index() < end {
+			let s = self.iter.get_substring_from(code_index).unwrap_or("");
+			match self.iter.consume_while_case_holds(&|c| c == "`") {
+				Some("") | None => {
+					self.iter.next();
 				}
+				Some(ticks) if ticks == leading_ticks => {
+					// One space on both sides separates the code from its
+					// ticks
+					return match s
+						.strip_prefix(' ')
+						.and_then(|s| s.strip_suffix(' '))
+					{
+						Some(code) if !code.trim_matches(' ').is_empty() => {
+							Ok(Token::Code(code.to_string()))
+						}
+						_ => Ok(Token::Code(s.to_string())),
+					};
+				}
+				Some(_ticks) => {}
 			}
-			return Ok(Token::Code(s.to_string()));
 		}
+		self.iter.update_index_to(code_index);
+		Err(ParseError {
+			content: leading_ticks,
+		})
+	}
 
-		// leading_ticks.len() == 3. Check for lang
+	/// Whether a line closes the code block opened by the given fence.
+	fn is_fence(line: &str, opening: &str) -> bool {
+		let line = line.trim_ascii();
+		line.len() >= opening.len() && line.chars().all(|c| c == '`')
 	}
 
 	pub(crate) fn lex_links(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-- 
2.43.0


From 55f8641934b239ffea949e14eb18c87a2a100b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:34 +0000
Subject: [PATCH 08/38] fix: emit links, images and footnotes as they were
 written

Targets lost their scheme, fragment or relativity, titles and autolink
texts were not escaped, rejected links lost their text, and footnotes all
had the same identifier. Display text was also missing its backslashes and
showed other characters for | and ~.
---
 gfm/src/lexer.rs | 282 +++++++++++++++++++----------------------------
 gfm/src/lib.rs   | 161 +++++++++++++--------------
 gfm/src/token.rs |  87 ++++++---------
 3 files changed, 226 insertions(+), 304 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 84c0041..c2ff895 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -149,7 +149,7 @@ impl<'a> Lexer<'a> {
 					}
 				}
 				"[" => {
-					return match self.lex_links() {
+					return match self.lex_links(block_start) {
 						Ok(t) => Some(t),
 						Err(e) => {
 							warn!("Error while lexing link: {}", e);
@@ -167,7 +167,7 @@ impl<'a> Lexer<'a> {
 					}
 				}
 				"<" => {
-					return match self.lex_side_carrot() {
+					return match self.lex_side_carrot(block_start) {
 						Ok(t) => Some(t),
 						Err(e) => {
 							warn!("Error while lexing side carrot: {}", e);
@@ -677,206 +677,148 @@ impl<'a> Lexer<'a> {
 		line.len() >= opening.len() && line.chars().all(|c| c == '`')
 	}
 
-	pub(crate) fn lex_links(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-		let start_index = self.iter.get_index();
-		if self.iter.next_if_eq("[") != Some(&"[") {
-			return Err(ParseError { content: "" });
-		}
-		let title = self
-			.iter
-			.consume_while_case_holds(&|c| c != "]")
-			.unwrap_or("");
-		if self.iter.next_if_eq("]") != Some(&"]") {
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
+	pub(crate) fn lex_links(
+		&mut self,
+		block_start: bool,
+	) -> Result<Token<'a>, ParseError<'a>> {
+		let bracket = self.iter.next_if_eq("[").unwrap_or("");
+		let text_index = self.iter.get_index();
+		let end = self.inline_end();
+		let token = self.lex_link_after_bracket(block_start);
+		match token {
+			Some(token)
+				if self.iter.get_index() <= end ||
+					matches!(token, Token::Footnote(_, _)) =>
+			{
+				Ok(token)
+			}
+			_ => {
+				// Without a link there is nothing special about the bracket
+				self.iter.update_index_to(text_index);
+				Err(ParseError { content: bracket })
+			}
 		}
+	}
+
+	fn lex_link_after_bracket(
+		&mut self,
+		block_start: bool,
+	) -> Option<Token<'a>> {
+		let title = self.consume_until_unescaped("]", "[")?;
+		let ref_id = title
+			.strip_prefix("^")
+			.filter(|id| !id.is_empty() && !id.contains(char::is_whitespace));
 		// Parse footnotes big and small
-		if title.starts_with("^") && self.iter.next_if_eq(":") == Some(&":") {
-			let ref_id = title.strip_prefix("^").unwrap_or("");
+		if let (Some(ref_id), true, Some(":")) =
+			(ref_id, block_start, self.iter.peek())
+		{
+			self.iter.next();
 			let note_index = self.iter.get_index();
-			loop {
-				self.iter.consume_while_case_holds(&|c| c != "\n");
-				self.iter.next();
-				if self.iter.peek() != Some(&" ") &&
-					self.iter.peek() != Some(&"\t")
-				{
-					break;
-				}
-				if self.iter.next_if_eq("\t") == Some(&"\t") {
-					continue;
-				}
-				if self.iter.peek() == Some(&" ") {
-					let spaces = self
-						.iter
-						.consume_while_case_holds(&|c| c == " ")
-						.unwrap_or("");
-					match spaces.len() {
-						2 | 4 => {}
-						_ => {
-							return Err(ParseError {
-								content: self
-									.iter
-									.get_substring_from(start_index)
-									.unwrap_or(""),
-							})
-						}
-					}
-					continue;
-				}
-				break;
-			}
-			if ref_id.contains(char::is_whitespace) {
-				return Err(ParseError {
-					content: self
-						.iter
-						.get_substring_from(start_index)
-						.unwrap_or(""),
-				});
+			self.iter.consume_line_ahead();
+			while self.iter.peek_line_ahead().is_some_and(|line| {
+				(line.starts_with("  ") || line.starts_with('\t')) &&
+					!line.trim_ascii().is_empty()
+			}) {
+				self.iter.consume_line_ahead();
 			}
-			return Ok(Token::Footnote(
+			let note = self.iter.get_substring_from(note_index)?;
+			return Some(Token::Footnote(
 				ref_id.to_string(),
-				self.iter
-					.get_substring_from(note_index)
-					.unwrap_or("")
-					.trim()
-					.to_string(),
+				note.trim().to_string(),
 			));
 		}
-		if self.iter.next_if_eq("(") != Some(&"(") {
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
-		}
-		let link = self
-			.iter
-			.consume_while_case_holds(&|c| c != ")" && c != " ")
-			.unwrap_or("");
-		if self.iter.peek() != Some(&")") && self.iter.peek() != Some(&" ") {
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
-		}
-		if self.iter.next_if_eq(")") == Some(&")") {
-			match validate_link(link) {
-				Ok(vl) => {
-					return Ok(Token::Link(vl, Some(title.to_string()), None))
-				}
-				Err(se) => {
-					return Err(ParseError {
-						content: &se.content,
-					})
-				}
+		if self.iter.next_if_eq("(").is_none() {
+			return ref_id
+				.map(|ref_id| Token::FootnoteReference(ref_id.to_string()));
+		}
+		let link = self.iter.consume_while_case_holds(&|c| {
+			c != "(" && c != ")" && !c.contains(char::is_whitespace)
+		})?;
+		self.iter
+			.skip_while_true(|c| c.contains(char::is_whitespace));
+		let hover = match self.iter.peek() {
+			Some(quote @ ("\"" | "'")) => {
+				self.iter.next();
+				let hover = self.consume_until_unescaped(quote, quote)?;
+				self.iter
+					.skip_while_true(|c| c.contains(char::is_whitespace));
+				Some(hover.to_string())
 			}
-		}
-		if self.iter.peek() == Some(&" ") {
-			let hover = self
-				.iter
-				.consume_while_case_holds(&|c| c != ")")
-				.unwrap_or("");
+			_ => None,
+		};
+		self.iter.next_if_eq(")")?;
+		let url = validate_link(link).ok()?;
+		Some(Token::Link(url, Some(title.to_string()), hover))
+	}
 
-			self.iter.skip_while_true(|c| c != "\n");
-			self.iter.next();
-			match validate_link(link) {
-				Ok(vl) => {
-					return Ok(Token::Link(
-						vl,
-						Some(title.to_string()),
-						Some(hover.to_string()),
-					))
+	/// Consumes the text up to a closing character, and that character,
+	/// unless another, opening, one is found before.
+	fn consume_until_unescaped(
+		&mut self,
+		close: &str,
+		open: &str,
+	) -> Option<&'a str> {
+		let start_index = self.iter.get_index();
+		let end = self.inline_end();
+		while self.iter.get_index() < end {
+			match self.iter.next() {
+				Some("\\") => {
+					self.iter.next();
 				}
-				Err(se) => {
-					return Err(ParseError {
-						content: &se.content,
-					})
+				Some(c) if c == close => {
+					return self.iter.get_substring(
+						start_index,
+						self.iter.get_index() - close.len(),
+					);
 				}
+				Some(c) if c == open => return None,
+				_ => {}
 			}
 		}
-		Err(ParseError { content: "" })
+		None
 	}
 
 	pub(crate) fn lex_images(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-		let start_index = self.iter.get_index();
-		if self.iter.next_if_eq("!") != Some(&"!") {
-			return Err(ParseError { content: "" });
-		}
-		let link_result = self.lex_links();
-		match link_result {
-			Err(_e) => {
-				return Err(ParseError {
-					content: self
-						.iter
-						.get_substring_from(start_index)
-						.unwrap_or(""),
-				})
-			}
-			Ok(Token::Link(link, title, _)) => {
-				return Ok(Token::Image(link.content.to_string(), title))
+		let mark = self.iter.next_if_eq("!").unwrap_or("");
+		let text_index = self.iter.get_index();
+		match self.lex_links(false) {
+			Ok(Token::Link(link, title, hover)) => {
+				return Ok(Token::Image(link.to_string(), title, hover))
 			}
 			_ => {
-				return Err(ParseError {
-					content: "Non link token returned from lex_links",
-				})
+				self.iter.update_index_to(text_index);
+				return Err(ParseError { content: mark });
 			}
 		}
 	}
 	pub(crate) fn lex_side_carrot(
 		&mut self,
+		block_start: bool,
 	) -> Result<Token<'a>, ParseError<'a>> {
-		let start_index = self.iter.get_index();
-		if self.iter.next_if_eq("<") != Some("<") {
-			return Err(ParseError { content: "" });
-		}
-
+		let carrot = self.iter.next_if_eq("<").unwrap_or("");
+		let text_index = self.iter.get_index();
 		let s = self
 			.iter
-			.consume_while_case_holds(&|c| c != ">")
+			.consume_while_case_holds(&|c| {
+				c != "<" && c != ">" && !c.contains(char::is_whitespace)
+			})
 			.unwrap_or("");
-		match (s, self.iter.next_if_eq(">")) {
-			("details", Some(">")) => {
-				self.iter.next_if_eq(&"\r");
-				if !self.iter.next_if_eq(&"\n").is_some() {
-					return Err(ParseError { content: s });
-				}
+		if self.iter.next_if_eq(">").is_some() {
+			if s == "details" &&
+				block_start && self.iter.next_if_eq("\n").is_some()
+			{
 				return self.parse_details();
 			}
-			(_, Some(">")) if s.len() >= 1 => {
-				if s.contains(char::is_whitespace) {
-					return Err(ParseError {
-						content: self
-							.iter
-							.get_substring_from(start_index)
-							.unwrap_or(""),
-					});
-				}
-				match validate_link(s) {
-					Ok(vl) if vl.scheme.is_some() => {
-						return Ok(Token::Link(vl, None, None))
-					} // Auto links require a scheme
-					_ => {
-						return Err(ParseError {
-							content: self
-								.iter
-								.get_substring_from(start_index)
-								.unwrap_or(""),
-						})
-					}
+			match validate_link(s) {
+				// Auto links require a scheme
+				Ok(vl) if vl.scheme.is_some() => {
+					return Ok(Token::Link(vl, None, None))
 				}
+				_ => {}
 			}
-			(_, Some(">")) if s.len() == 0 => {
-				return Err(ParseError { content: "<>" })
-			}
-			(_, _) => return Err(ParseError { content: s }),
 		}
+		self.iter.update_index_to(text_index);
+		Err(ParseError { content: carrot })
 	}
 
 	fn parse_details(&mut self) -> Result<Token<'a>, ParseError<'a>> {
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 57a6e5b..5e01bf9 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -125,37 +125,18 @@ impl Parser {
 					let t = t.trim_ascii_start();
 					pending_whitespace = trailing;
 
-					if t.contains("[^") && t.contains("]") {
-						let plaintext_tokens = t.split("[^");
-						let mut s = String::new();
-						let mut count = 1;
-						for tok in plaintext_tokens {
-							if tok.trim_end().ends_with("]") {
-								let tok = tok.trim_end().trim_end_matches(']');
-								s.push_str(
-									format!(
-										"<sup id=\"fnref:{reference}\" \
-										 role=\"doc-noteref\"><a \
-										 href=\"#fn:{reference}\" \
-										 class=\"footnote\" \
-										 rel=\"footnote\">{ref_count}</a></\
-										 sup>",
-										reference =
-											Self::sanitize_display_text(tok),
-										ref_count = count
-									)
-									.as_str(),
-								);
-								count += 1;
-							} else {
-								s.push_str(tok)
-							}
-						}
-						html.push_str(&s);
-					} else {
-						html.push_str(&Self::sanitize_display_text(t))
-					}
+					html.push_str(&Self::sanitize_display_text(t))
 				}
+				Token::FootnoteReference(reference) => html.push_str(
+					format!(
+						"<sup id=\"fnref:{reference}\" \
+						 role=\"doc-noteref\"><a href=\"#fn:{reference}\" \
+						 class=\"footnote\" \
+						 rel=\"footnote\">{reference}</a></sup>",
+						reference = Self::sanitize_display_text(reference)
+					)
+					.as_str(),
+				),
 				Token::Header(l, t, lbl) => {
 					match lbl {
 						Some(lbl_text) => html.push_str(
@@ -188,7 +169,7 @@ impl Parser {
 					html.push_str(
 						format!(
 							"<li>\n{}</li>\n",
-							Self::sanitize_display_text(t)
+							Self::sanitize_raw_text(t)
 						)
 						.as_str(),
 					)
@@ -229,42 +210,43 @@ impl Parser {
 					}
 					html.push_str("</li>\n".to_string().as_str());
 				}
-				Token::Image(l, t) => match (l, t) {
-					(l, None) if l.trim() == "" => {
-						html.push_str("<p><img src=\"data:,\"></p>")
+				Token::Image(l, t, ht) => {
+					match l.as_str() {
+						"" => html.push_str("<img src=\"data:,\""),
+						l => html.push_str(
+							format!("<img src=\"{link}\"", link = l).as_str(),
+						),
 					}
-					(l, Some(t)) if l.trim() == "" => html.push_str(
-						format!(
-							"<p><img src=\"data:,\" alt=\"{text}\"></p>",
-							text = Self::sanitize_display_text(t)
-						)
-						.as_str(),
-					),
-					(l, None) => html.push_str(
-						format!(
-							"<p><img src=\"{link}\"> \
-							 referrerpolicy=\"no-referrer\"></p>",
-							link = l
-						)
-						.as_str(),
-					),
-					(l, Some(t)) => html.push_str(
-						format!(
-							"<p><img src=\"{link}\" alt=\"{text}\" \
-							 referrerpolicy=\"no-referrer\"></p>",
-							link = l,
-							text = Self::sanitize_display_text(t)
-						)
-						.as_str(),
-					),
-				},
+					if let Some(t) = t {
+						html.push_str(
+							format!(
+								" alt=\"{text}\"",
+								text = Self::sanitize_raw_text(t)
+							)
+							.as_str(),
+						);
+					}
+					if let Some(ht) = ht {
+						html.push_str(
+							format!(
+								" title=\"{hover}\"",
+								hover = Self::sanitize_raw_text(ht)
+							)
+							.as_str(),
+						);
+					}
+					if l != "" {
+						html.push_str(" referrerpolicy=\"no-referrer\"");
+					}
+					html.push('>');
+				}
 				Token::Link(l, t, ht) => match (t, ht) {
 					(Some(t), Some(ht)) => html.push_str(
 						format!(
-							"<a href=>\"{link}\" title=\"{hover}\">{text}</a>",
+							"<a href=\"{link}\" title=\"{hover}\">{text}</a>",
 							link = l,
-							text = Self::sanitize_display_text(t),
-							hover = ht
+							text = Self::sanitize_raw_text(t),
+							hover = Self::sanitize_raw_text(ht)
 						)
 						.as_str(),
 					),
@@ -272,7 +254,7 @@ impl Parser {
 						format!(
 							"<a href=\"{link}\">{text}</a>",
 							link = l,
-							text = Self::sanitize_display_text(t)
+							text = Self::sanitize_raw_text(t)
 						)
 						.as_str(),
 					),
@@ -280,7 +262,7 @@ impl Parser {
 						format!(
 							"<a href=\"{link}\" title=\"{hover}\">{link}</a>",
 							link = l,
-							hover = Self::sanitize_display_text(ht)
+							hover = Self::sanitize_raw_text(ht)
 						)
 						.as_str(),
 					),
@@ -288,7 +270,7 @@ impl Parser {
 						format!(
 							"<a href=\"{link}\">{display}</a>",
 							link = l,
-							display = l.fmt_unsafe()
+							display = Self::escape_code(&l.fmt_unsafe())
 						)
 						.as_str(),
 					),
@@ -299,27 +281,27 @@ impl Parser {
 						format!(
 							"<details>\n<summary>{sum}</summary>\n{in_html}\\
 							 n</details>",
-							sum = Self::sanitize_display_text(summary),
+							sum = Self::sanitize_raw_text(summary),
 							in_html = inner_html
 						)
 						.as_str(),
 					);
 				}
 				Token::Italic(t) => html.push_str(
-					format!("<em>{}</em>", Self::sanitize_display_text(t))
+					format!("<em>{}</em>", Self::sanitize_raw_text(t))
 						.as_str(),
 				),
 				Token::Bold(t) => html.push_str(
 					format!(
 						"<strong>{}</strong>",
-						Self::sanitize_display_text(t)
+						Self::sanitize_raw_text(t)
 					)
 					.as_str(),
 				),
 				Token::BoldItalic(t) => html.push_str(
 					format!(
 						"<strong><em>{}</em></strong>",
-						Self::sanitize_display_text(t)
+						Self::sanitize_raw_text(t)
 					)
 					.as_str(),
 				),
@@ -363,7 +345,7 @@ impl Parser {
 								 type=\"checkbox\" \
 								 class=\"task-list-item-checkbox\" \
 								 checked=\"\">{}</li>",
-								Self::sanitize_display_text(t)
+								Self::sanitize_raw_text(t)
 							)
 							.as_str(),
 						),
@@ -372,7 +354,7 @@ impl Parser {
 								"<li class=\"task-list-item\"><input \
 								 type=\"checkbox\" \
 								 class=\"task-list-item-checkbox\">{}</li>",
-								Self::sanitize_display_text(t)
+								Self::sanitize_raw_text(t)
 							)
 							.as_str(),
 						),
@@ -391,7 +373,7 @@ impl Parser {
 							format!(
 								"\t\t<th style=\"text-align: \
 								 {align}\">{heading}</th>",
-								heading = Self::sanitize_display_text(&h.1),
+								heading = Self::sanitize_raw_text(&h.1),
 								align = h.0
 							)
 							.as_str(),
@@ -410,14 +392,14 @@ impl Parser {
 									Token::Italic(t) => row_string.push_str(
 										format!(
 											"<em>{}</em>",
-											Self::sanitize_display_text(t)
+											Self::sanitize_raw_text(t)
 										)
 										.as_str(),
 									),
 									Token::Bold(t) => row_string.push_str(
 										format!(
 											"<strong>{}</strong>",
-											Self::sanitize_display_text(t)
+											Self::sanitize_raw_text(t)
 										)
 										.as_str(),
 									),
@@ -425,7 +407,7 @@ impl Parser {
 										.push_str(
 											format!(
 												"<strong><em>{}</em></strong>",
-												Self::sanitize_display_text(t)
+												Self::sanitize_raw_text(t)
 											)
 											.as_str(),
 										),
@@ -439,7 +421,7 @@ impl Parser {
 										.push_str(
 											format!(
 												"<strike>{}</strike>",
-												Self::sanitize_display_text(t)
+												Self::sanitize_raw_text(t)
 											)
 											.as_str(),
 										),
@@ -464,7 +446,7 @@ impl Parser {
 				Token::Strikethrough(t) => html.push_str(
 					format!(
 						"<strike>{}</strike>",
-						Self::sanitize_display_text(t)
+						Self::sanitize_raw_text(t)
 					)
 					.as_str(),
 				),
@@ -523,14 +505,14 @@ impl Parser {
 			html.push_str("<div class=\"footnotes\" role=\"doc-endnotes\">\n");
 			html.push_str("\t<ol>\n");
 			for reference in references.iter() {
-				html.push_str("\t\t<li id=\"fn:1\" role=\"doc-endnote\">");
 				html.push_str(
 					format!(
-						"\t\t\t<p>{ref_text}<a href=\"#fnref:{ref_count}\" \
+						"\t\t<li id=\"fn:{ref_count}\" \
+						 role=\"doc-endnote\">\t\t\t<p>{ref_text}<a href=\"#fnref:{ref_count}\" \
 						 class=\"reversefootnote\" \
 						 role=\"doc-backlink\">↩</a></p>",
 						ref_count = Self::sanitize_display_text(reference.0),
-						ref_text = Self::sanitize_display_text(reference.1)
+						ref_text = Self::sanitize_raw_text(reference.1)
 					)
 					.as_str(),
 				);
@@ -554,6 +536,21 @@ impl Parser {
 			.replace('"', "&quot;")
 	}
 
+	/// Sanitizes text of which the backslash escapes were not yet resolved.
+	fn sanitize_raw_text(source: &str) -> String {
+		let mut text = String::with_capacity(source.len());
+		let mut characters = source.chars().peekable();
+		while let Some(c) = characters.next() {
+			match characters.peek() {
+				Some(next) if c == '\\' && next.is_ascii_punctuation() => {
+					text.extend(characters.next())
+				}
+				_ => text.push(c),
+			}
+		}
+		Self::sanitize_display_text(&text)
+	}
+
 	pub(crate) fn sanitize_display_text(source: &str) -> String {
 		source
 			.replace('&', "&amp;")
@@ -565,9 +562,7 @@ impl Parser {
 			.replace(']', "&rbrack;")
 			.replace('{', "&lbrace;")
 			.replace('}', "&rbrace;")
-			.replace('|', "&mid;")
-			.replace('\\', "")
-			.replace('~', "&tilde;")
+			.replace('|', "&vert;")
 			.replace(')', "&#41;")
 			.replace('(', "&#40;")
 	}
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index cd60d05..1422d49 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -44,8 +44,9 @@ pub enum Token<'a> {
 	CodeBlock(String, String),
 	/// u8: Block quote level. str: Block quote text
 	BlockQuote(u8, String),
-	/// str: Link. Option<str>: Title for link.
-	Image(String, Option<String>),
+	/// str: Link. First Option<str>: Title for link. Second Option<str>: Hover
+	/// text
+	Image(String, Option<String>, Option<String>),
 	/// str: Link. First Option<str>: Title for link. Second Option<str>: Hover
 	/// text
 	Link(ValidURL<'a>, Option<String>, Option<String>),
@@ -63,6 +64,8 @@ pub enum Token<'a> {
 	TaskListItem(TaskBox, String),
 	/// First str: Reference id. Second str: Reference text
 	Footnote(String, String),
+	/// str: Reference id
+	FootnoteReference(String),
 }
 
 impl fmt::Display for Token<'_> {
@@ -109,7 +112,9 @@ impl Token<'_> {
 				Token::BoldItalic(_) |
 				Token::Strikethrough(_) |
 				Token::Code(_) |
-				Token::Link(_, _, _)
+				Token::Link(_, _, _) |
+				Token::Image(_, _, _) |
+				Token::FootnoteReference(_)
 		)
 	}
 
@@ -133,34 +138,22 @@ pub struct ValidURL<'a> {
 }
 
 impl ValidURL<'_> {
+	/// The link as it was written, that is without the scheme of an email
+	/// address.
 	pub(crate) fn fmt_unsafe(&self) -> String {
-		let amp_replace_content = self.content.replace('&', "&amp;");
 		match &self.scheme {
-			None => format!("http:{}", amp_replace_content),
-			Some(Scheme::Email(_s)) => amp_replace_content.to_string(),
-			Some(s) => format!("{}:{}", s, amp_replace_content),
+			None | Some(Scheme::Email(_)) => self.content.to_string(),
+			Some(s) => format!("{}:{}", s, self.content),
 		}
 	}
 }
 
 impl fmt::Display for ValidURL<'_> {
 	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+		let content = percent_encode(self.content).replace('&', "&amp;");
 		match &self.scheme {
-			None => {
-				write!(
-					f,
-					"http:{}",
-					percent_encode(self.content).replace('&', "&amp;")
-				)
-			}
-			Some(s) => {
-				write!(
-					f,
-					"{}:{}",
-					s,
-					percent_encode(self.content).replace('&', "&amp;")
-				)
-			}
+			None => write!(f, "{}", content),
+			Some(s) => write!(f, "{}:{}", s, content),
 		}
 	}
 }
@@ -186,8 +179,6 @@ impl fmt::Display for Scheme<'_> {
 
 pub(crate) fn percent_encode(source: &str) -> String {
 	source
-		.replace('%', "%25")
-		.replace('#', "%23")
 		.replace('[', "%5B")
 		.replace(']', "%5D")
 		.replace('!', "%21")
@@ -198,6 +189,16 @@ pub(crate) fn percent_encode(source: &str) -> String {
 		.replace('*', "%2A")
 		.replace(' ', "%20")
 		.replace('\\', "%5C")
+		.replace('"', "%22")
+		.replace('<', "%3C")
+		.replace('>', "%3E")
+		.replace('`', "%60")
+		.chars()
+		.map(|c| match c.is_control() {
+			true => format!("%{:02X}", c as u32),
+			false => c.to_string(),
+		})
+		.collect()
 }
 
 /// Holds the possible states of a taskbox in a task list
@@ -227,20 +228,17 @@ impl fmt::Display for Alignment {
 
 pub(crate) fn validate_link(
 	source: &str,
-) -> Result<ValidURL, SanitizationError> {
+) -> Result<ValidURL<'_>, SanitizationError> {
 	if !source.is_ascii() || source.contains(char::is_whitespace) {
 		// https://www.rfc-editor.org/rfc/rfc3986#section-2
-		return Err(SanitizationError { content: source });
+		return Err(SanitizationError);
 	}
 	let (scheme, path) = source.split_at(source.find(':').unwrap_or(0));
 	if scheme.to_lowercase() == "javascript" || !scheme.is_ascii() {
-		return Err(SanitizationError { content: source });
+		return Err(SanitizationError);
 	}
 	if scheme.to_lowercase() == "data" && !path.starts_with(":image/") {
-		return Err(SanitizationError { content: source });
-	}
-	if scheme.len() != 0 && (scheme.len() < 2 || scheme.len() > 32) {
-		return Err(SanitizationError { content: source });
+		return Err(SanitizationError);
 	}
 
 	// Scheme defined here https://spec.commonmark.org/0.30/#scheme
@@ -256,7 +254,6 @@ pub(crate) fn validate_link(
 		{
 			match parts[0] {
 				"http" => Some(Scheme::Http(parts[0])),
-				"mailto" => Some(Scheme::Email(parts[0])),
 				"irc" => Some(Scheme::Irc(parts[0])),
 				_ => Some(Scheme::Other(parts[0])),
 			}
@@ -266,27 +263,17 @@ pub(crate) fn validate_link(
 	};
 
 	//Check for mail links
-	if source.contains('@') &&
+	if source_scheme.is_none() &&
 		source.matches('@').count() == 1 &&
-		!source.contains('\\')
+		!source.contains(['\\', '/', '?', '#', ':']) &&
+		!source.starts_with('@') &&
+		!source.ends_with('@')
 	{
-		if source_scheme.is_some() {
-			return Ok(ValidURL {
-				scheme:  Some(source_scheme.unwrap_or(Scheme::Email("mailto"))),
-				content: &source.split(":").last().unwrap(),
-			});
-		}
 		return Ok(ValidURL {
-			scheme:  Some(source_scheme.unwrap_or(Scheme::Email("mailto"))),
-			content: &source,
+			scheme:  Some(Scheme::Email("mailto")),
+			content: source,
 		});
 	}
-	if source.contains('@') &&
-		source.matches('@').count() == 1 &&
-		source.contains('\\')
-	{
-		return Err(SanitizationError { content: source });
-	}
 
 	match source_scheme {
 		Some(Scheme::Http(s)) => Ok(ValidURL {
@@ -329,6 +316,4 @@ pub(crate) fn validate_link(
 }
 
 #[derive(Debug)]
-pub(crate) struct SanitizationError<'a> {
-	pub(crate) content: &'a str,
-}
+pub(crate) struct SanitizationError;
-- 
2.43.0


From c11452561a62500599244b0cc0bfd0770c7bdef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:20 +0000
Subject: [PATCH 09/38] fix: keep the whole content of list entries and quotes

Lines nested in a list entry were dropped unless they were plain text, quoted
text was escaped twice and rendered line by line, quote levels overflowed at
256, and markers with several digits or without a following space were
mistaken.
---
 gfm/src/iter.rs  |   7 +++
 gfm/src/lexer.rs | 158 ++++++++++++++++++++++++++++++-----------------
 gfm/src/lib.rs   |  35 ++---------
 gfm/src/token.rs |   4 +-
 4 files changed, 113 insertions(+), 91 deletions(-)

diff --git a/gfm/src/iter.rs b/gfm/src/iter.rs
index 2e229c0..e304bb7 100644
--- a/gfm/src/iter.rs
+++ b/gfm/src/iter.rs
@@ -95,6 +95,13 @@ impl<'a> MarkdownIter<'a> {
 			(line.is_empty() || line.ends_with('\n'))
 	}
 
+	/// The column of the cursor on the current line, which must not be
+	/// preceded by tabs.
+	pub fn get_column(&self) -> usize {
+		let before = &self.the_str[..self.index];
+		before.len() - before.rfind('\n').map_or(0, |i| i + 1)
+	}
+
 	pub fn get_index(&self) -> usize {
 		self.index
 	}
diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index c2ff895..f670df9 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -342,7 +342,9 @@ impl<'a> Lexer<'a> {
 
 	fn lex_numbers(&mut self) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
-		let c = self.iter.next().unwrap();
+		self.iter.consume_while_case_holds(&|c| {
+			c.chars().all(|c| c.is_ascii_digit())
+		});
 		match self.iter.next_if_eq(".") {
 			Some(".") => {
 				if self.iter.next_if_eq(" ") != Some(" ") {
@@ -360,7 +362,12 @@ impl<'a> Lexer<'a> {
 					.unwrap_or("");
 				Ok(Token::OrderedListEntry(s.to_string()))
 			}
-			_ => Err(ParseError { content: c }),
+			_ => Err(ParseError {
+				content: self
+					.iter
+					.get_substring_from(start_index)
+					.unwrap_or(""),
+			}),
 		}
 	}
 
@@ -395,16 +402,11 @@ impl<'a> Lexer<'a> {
 			.iter
 			.consume_while_case_holds(&|c| c == delimiter)
 			.unwrap_or("");
-		if block_start && asterunds == "*" && self.iter.next_if_eq(" ").is_some()
+		if block_start &&
+			asterunds == "*" &&
+			matches!(self.iter.peek(), Some(" " | "\t"))
 		{
-			let s = self
-				.iter
-				.consume_while_case_holds(&|c| c != "\n")
-				.unwrap_or("");
-			self.iter.next();
-			return Ok(Token::UnorderedListEntry(vec![Token::Plaintext(
-				s.to_string(),
-			)]));
+			return Ok(self.lex_list_entry());
 		}
 		match (asterunds.len(), self.consume_delimited(asterunds)) {
 			(1, Some(s)) => Ok(Token::Italic(s.to_string())),
@@ -524,19 +526,33 @@ impl<'a> Lexer<'a> {
 			.consume_while_case_holds(&|c| c == ">")
 			.unwrap_or("");
 		match self.iter.peek() {
-			Some(" ") | Some("\t") => {}
+			Some(" ") | Some("\t") | Some("\n") | None => {}
 			_ => {
 				return Err(ParseError {
 					content: right_arrows,
 				})
 			}
 		}
-		let s = self
-			.iter
-			.consume_while_case_holds(&|c| c != "\n")
-			.unwrap_or("");
-		self.iter.next_if_eq("\n");
-		Ok(Token::BlockQuote(right_arrows.len() as u8, s.to_string()))
+		let column = self.iter.get_column();
+		let mut content = String::new();
+		let mut index = self.iter.get_index();
+		// All lines of a quote make up its content
+		while let Some(line) = self.iter.consume_line_ahead() {
+			content.push_str(&Self::strip_indent(line, column, column + 1));
+			index = self.iter.get_index();
+			self.iter.consume_while_case_holds(&|c| c == " ");
+			if !self.iter.is_at_line_start() ||
+				self.iter.consume_while_case_holds(&|c| c == ">") !=
+					Some(right_arrows) ||
+				!matches!(
+					self.iter.peek(),
+					Some(" ") | Some("\t") | Some("\n") | None
+				) {
+				break;
+			}
+		}
+		self.iter.update_index_to(index);
+		Ok(Token::BlockQuote(right_arrows.len(), content))
 	}
 
 	pub(crate) fn lex_plus_minus(
@@ -554,52 +570,78 @@ impl<'a> Lexer<'a> {
 		{
 			return Err(ParseError { content: s });
 		}
-		let line_index = self.iter.get_index();
-		let mut list_element_tokens = vec![Token::Plaintext(
-			self.iter
-				.consume_while_case_holds(&|c| c != "\n")
-				.unwrap_or("")
-				.to_string(),
-		)];
-		while self.iter.get_substring_ahead(3) == Some("\n\n\t") {
-			self.iter.next();
-			self.iter.next();
-			self.iter.next();
-			list_element_tokens.push(Token::Plaintext(
-				self.iter
-					.consume_while_case_holds(&|c| c != "\n")
-					.unwrap_or("")
-					.to_string(),
-			));
-		}
-		let line = self.iter.get_substring_from(line_index).unwrap_or("");
+		Ok(self.lex_list_entry())
+	}
+
+	/// Lexes the content of a list entry, starting right after its marker.
+	fn lex_list_entry(&mut self) -> Token<'a> {
+		let marker_end = self.iter.get_column();
+		let line = self
+			.iter
+			.consume_while_case_holds(&|c| c != "\n")
+			.unwrap_or("");
 		self.iter.next_if_eq("\n");
 		if line.starts_with(" [ ] ") {
-			Ok(Token::TaskListItem(
+			return Token::TaskListItem(
 				TaskBox::Unchecked,
 				line[5..].to_string(),
-			))
-		} else if line.starts_with(" [x] ") || line.starts_with(" [X] ") {
-			return Ok(Token::TaskListItem(
-				TaskBox::Checked,
-				line[5..].to_string(),
-			));
-		} else {
-			// List entries may contain other lists
-			match self.iter.peek_line_ahead() {
-				Some(s) if s.starts_with("  ") => {
-					let line = self.iter.consume_line_ahead().unwrap_or("");
-					list_element_tokens.append(&mut Parser::lex(line, &[]))
-				}
-				Some(s) if s.starts_with("\t") => {
-					let line = self.iter.consume_line_ahead().unwrap_or("");
-					list_element_tokens
-						.append(&mut Parser::lex(&line[1..], &[]))
-				}
-				_ => {}
+			);
+		}
+		if line.starts_with(" [x] ") || line.starts_with(" [X] ") {
+			return Token::TaskListItem(TaskBox::Checked, line[5..].to_string());
+		}
+
+		// The text of an entry with more indentation than that is code
+		let (indent, _) = Self::split_indent(line, marker_end);
+		let content_start = match indent {
+			1..=4 => marker_end + indent,
+			_ => marker_end + 1,
+		};
+		let mut content = Self::strip_indent(line, marker_end, content_start);
+		// List entries may contain other blocks, such as lists
+		let mut blank_lines = String::new();
+		let mut index = self.iter.get_index();
+		while let Some(line) = self.iter.consume_line_ahead() {
+			if line.trim_ascii().is_empty() {
+				blank_lines
+					.push_str(&Self::strip_indent(line, 0, content_start));
+				continue;
 			}
-			return Ok(Token::UnorderedListEntry(list_element_tokens));
+			if Self::split_indent(line, 0).0 <= marker_end {
+				break;
+			}
+			content.push('\n');
+			content.push_str(&blank_lines);
+			content.push_str(
+				Self::strip_indent(line, 0, content_start)
+					.trim_end_matches('\n'),
+			);
+			blank_lines.clear();
+			index = self.iter.get_index();
 		}
+		self.iter.update_index_to(index);
+		Token::UnorderedListEntry(vec![Token::Plaintext(content)])
+	}
+
+	/// Splits text that starts in the given column into the number of columns
+	/// it is indented by and the remaining text.
+	fn split_indent(text: &str, column: usize) -> (usize, &str) {
+		let rest = text.trim_start_matches([' ', '\t']);
+		let end = text[..text.len() - rest.len()]
+			.chars()
+			.fold(column, |column, c| match c {
+				'\t' => column + 4 - column % 4,
+				_ => column + 1,
+			});
+		(end - column, rest)
+	}
+
+	/// Removes the indentation up to a column of text that starts in the given
+	/// column.
+	fn strip_indent(text: &str, column: usize, until: usize) -> String {
+		let (indent, rest) = Self::split_indent(text, column);
+		let remaining = (column + indent).saturating_sub(until);
+		" ".repeat(remaining) + rest
 	}
 
 	fn lex_tilde(&mut self) -> Result<Token<'a>, ParseError<'a>> {
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 5e01bf9..9cf51cf 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -180,32 +180,10 @@ impl Parser {
 						html.push_str("<ul>\n")
 					}
 
-					html.push_str("<li>".to_string().as_str());
-					if toks.iter().all(|t| matches!(t, Token::Plaintext(_))) {
-						html.push_str("\n".to_string().as_str());
-					}
+					html.push_str("<li>\n");
 					for token in toks.iter() {
-						match token {
-							Token::Plaintext(text)
-								if text.starts_with("\t\t") =>
-							{
-								html.push_str(
-									&Self::render(
-										text[1..].trim_start_matches(" "),
-									)
-									.replace("<pre><code>", "<pre><code>  "),
-								);
-							}
-							Token::Plaintext(text) => {
-								let text =
-									&Self::render(text.trim_start_matches(" "))
-										.replace(
-											"<pre><code>",
-											"<pre><code>  ",
-										);
-								html.push_str(text);
-							}
-							_ => {}
+						if let Token::Plaintext(text) = token {
+							html.push_str(&Self::render(text));
 						}
 					}
 					html.push_str("</li>\n".to_string().as_str());
@@ -325,12 +303,7 @@ impl Parser {
 						_ => {}
 					}
 					if !t.is_empty() {
-						html.push_str(
-							&Self::render(&Self::sanitize_display_text(
-								t.trim_start_matches(" "),
-							))
-							.replace("\t", "  "),
-						);
+						html.push_str(&Self::render(t));
 					}
 				}
 				Token::TaskListItem(c, t) => {
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 1422d49..72510cf 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -42,8 +42,8 @@ pub enum Token<'a> {
 	/// First str: Text to be placed within a multi-line code tag. Second str:
 	/// Language
 	CodeBlock(String, String),
-	/// u8: Block quote level. str: Block quote text
-	BlockQuote(u8, String),
+	/// usize: Block quote level. str: Block quote text
+	BlockQuote(usize, String),
 	/// str: Link. First Option<str>: Title for link. Second Option<str>: Hover
 	/// text
 	Image(String, Option<String>, Option<String>),
-- 
2.43.0


From 7421be8663fb7fa73ca06333841c0b18b578193f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:56 +0000
Subject: [PATCH 10/38] fix: bound nesting and end details sections that are
 not closed

---
 gfm/src/lexer.rs | 83 +++++++++++++++++++++++++-----------------------
 gfm/src/lib.rs   | 47 +++++++++++++++++++--------
 2 files changed, 77 insertions(+), 53 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index f670df9..150c01a 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -25,8 +25,13 @@ pub struct Lexer<'a> {
 	iter:       MarkdownIter<'a>,
 	/// Where the paragraph ends that the cursor was last found to be in
 	inline_end: usize,
+	/// How many other blocks the input is nested in
+	depth:      usize,
 }
 
+/// How deep blocks may be nested, blocks beyond that are rendered as text.
+pub(crate) const MAX_NESTING: usize = 32;
+
 #[derive(Debug)]
 pub(crate) struct ParseError<'a> {
 	pub(crate) content: &'a str,
@@ -40,11 +45,12 @@ impl fmt::Display for ParseError<'_> {
 
 impl<'a> Lexer<'a> {
 	/// Initializes a new Lexer with the given input.
-	pub fn new(input: &'a str) -> Self {
+	pub fn new(input: &'a str, depth: usize) -> Self {
 		debug!("Initializing Lexer with input of length: {}", input.len());
 		Lexer {
 			iter:       MarkdownIter::new(input),
 			inline_end: 0,
+			depth,
 		}
 	}
 
@@ -253,6 +259,7 @@ impl<'a> Lexer<'a> {
 			line_without_optional_trailing_hash_sequence
 				.trim_end_matches([' ', '\t']),
 			&['#'],
+			self.depth,
 		)
 		.strip_prefix("<p>")
 		.unwrap_or("")
@@ -849,7 +856,9 @@ impl<'a> Lexer<'a> {
 			if s == "details" &&
 				block_start && self.iter.next_if_eq("\n").is_some()
 			{
-				return self.parse_details();
+				if let Some(details) = self.parse_details() {
+					return Ok(details);
+				}
 			}
 			match validate_link(s) {
 				// Auto links require a scheme
@@ -863,46 +872,40 @@ impl<'a> Lexer<'a> {
 		Err(ParseError { content: carrot })
 	}
 
-	fn parse_details(&mut self) -> Result<Token<'a>, ParseError<'a>> {
-		let mut summary_line = self
+	fn parse_details(&mut self) -> Option<Token<'a>> {
+		let summary_line = self
 			.iter
-			.consume_while_case_holds(&|c| c != "\n" && c != "\r")
-			.unwrap_or("");
-		self.iter.next_if_eq("\r");
-		if (!summary_line.starts_with("<summary>") ||
-			!summary_line.ends_with("</summary>")) &&
-			!summary_line.len() >= 20
-		{
-			return Err(ParseError {
-				content: summary_line,
-			});
-		}
-		summary_line = summary_line
-			.strip_prefix("<summary>")
-			.unwrap()
-			.strip_suffix("</summary>")
-			.unwrap_or("");
-		let remaining_text_index = self.iter.get_index();
-		let mut remaining_text =
-			self.iter.consume_until_tail_is("</details>").unwrap_or("");
-		if remaining_text.contains("<details>") {
-			let mut opens = remaining_text.matches("<details>").count();
-			let mut closes = remaining_text.matches("</details>").count();
-			while opens == closes {
-				self.iter.consume_until_tail_is("</details>").unwrap_or("");
-				remaining_text = self
-					.iter
-					.get_substring_from(remaining_text_index)
-					.unwrap_or("");
-				opens = remaining_text.matches("<details>").count();
-				closes = remaining_text.matches("</details>").count();
+			.consume_line_ahead()?
+			.trim_ascii()
+			.strip_prefix("<summary>")?
+			.strip_suffix("</summary>")?;
+		// The section ends with its own closing tag, if there is one
+		let content_index = self.iter.get_index();
+		let mut depth = 1;
+		while depth > 0 {
+			if !self
+				.iter
+				.consume_until_tail_is("details>")?
+				.ends_with("details>")
+			{
+				break;
+			}
+			let content = self.iter.get_substring_from(content_index)?;
+			if content.ends_with("</details>") {
+				depth -= 1;
+			} else if content.ends_with("<details>") {
+				depth += 1;
 			}
 		}
-		let inner_tokens = Parser::lex(
-			remaining_text.strip_suffix("</details>").unwrap_or(""),
-			&[],
-		);
-		Ok(Token::Detail(summary_line.to_string(), inner_tokens))
+		let mut content = self.iter.get_substring_from(content_index)?;
+		if depth == 0 {
+			content = content.strip_suffix("</details>").unwrap_or(content);
+		}
+		let inner_tokens = match self.depth < MAX_NESTING {
+			true => Parser::lex(content, &[], self.depth + 1),
+			false => vec![Token::Plaintext(content.to_string())],
+		};
+		Some(Token::Detail(summary_line.to_string(), inner_tokens))
 	}
 
 	pub(crate) fn lex_pipes(&mut self) -> Result<Token<'a>, ParseError<'a>> {
@@ -963,7 +966,7 @@ impl<'a> Lexer<'a> {
 				.collect();
 			let mut r = Vec::new();
 			for e in elements.into_iter() {
-				let mut inner_tokens = Parser::lex(&e, &['|']);
+				let mut inner_tokens = Parser::lex(&e, &['|'], self.depth);
 				inner_tokens.retain(|token| token.is_usable_in_table());
 				r.push(inner_tokens);
 			}
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 9cf51cf..5975589 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -2,7 +2,10 @@ mod iter;
 mod lexer;
 mod token;
 
-use lexer::Lexer;
+use lexer::{
+	Lexer,
+	MAX_NESTING,
+};
 use log::debug;
 use token::Token;
 
@@ -29,16 +32,34 @@ impl Parser {
 	/// ```
 	pub fn render(source: &str) -> String {
 		debug!("Rendering source of length: {}", source.len());
-		Self::parse(&Self::lex(source, &[]))
+		Self::render_ignore(source, &[], 0)
 	}
 
-	pub(crate) fn render_ignore(source: &str, ignore: &[char]) -> String {
-		Self::parse(&Self::lex(source, ignore))
+	pub(crate) fn render_ignore(
+		source: &str,
+		ignore: &[char],
+		depth: usize,
+	) -> String {
+		Self::parse(&Self::lex(source, ignore, depth), depth)
 	}
 
-	pub(crate) fn lex<'a>(source: &'a str, ignore: &[char]) -> Vec<Token<'a>> {
+	/// Renders the content of a block.
+	fn render_nested(source: &str, depth: usize) -> String {
+		match depth < MAX_NESTING {
+			true => Self::render_ignore(source, &[], depth + 1),
+			false => {
+				Self::parse(&[Token::Plaintext(source.to_string())], depth)
+			}
+		}
+	}
+
+	pub(crate) fn lex<'a>(
+		source: &'a str,
+		ignore: &[char],
+		depth: usize,
+	) -> Vec<Token<'a>> {
 		debug!("Lexing source with ignore list: {:?}", ignore);
-		let mut l = Lexer::new(source);
+		let mut l = Lexer::new(source, depth);
 		let mut tokens = Vec::new();
 
 		while let Some(token) = l.next_token(ignore, &tokens) {
@@ -49,7 +70,7 @@ impl Parser {
 		tokens
 	}
 
-	fn parse(tokens: &[Token<'_>]) -> String {
+	fn parse(tokens: &[Token<'_>], depth: usize) -> String {
 		debug!("Parsing {} tokens", tokens.len());
 		let mut html = String::with_capacity(tokens.len() * 100);
 		let mut quote_level = 0;
@@ -183,7 +204,7 @@ impl Parser {
 					html.push_str("<li>\n");
 					for token in toks.iter() {
 						if let Token::Plaintext(text) = token {
-							html.push_str(&Self::render(text));
+							html.push_str(&Self::render_nested(text, depth));
 						}
 					}
 					html.push_str("</li>\n".to_string().as_str());
@@ -254,11 +275,11 @@ impl Parser {
 					),
 				},
 				Token::Detail(summary, inner_tokens) => {
-					let inner_html = Self::parse(inner_tokens);
+					let inner_html = Self::parse(inner_tokens, depth + 1);
 					html.push_str(
 						format!(
-							"<details>\n<summary>{sum}</summary>\n{in_html}\\
-							 n</details>",
+							"<details>\n<summary>{sum}</summary>\n\
+							 {in_html}</details>\n",
 							sum = Self::sanitize_raw_text(summary),
 							in_html = inner_html
 						)
@@ -303,7 +324,7 @@ impl Parser {
 						_ => {}
 					}
 					if !t.is_empty() {
-						html.push_str(&Self::render(t));
+						html.push_str(&Self::render_nested(t, depth));
 					}
 				}
 				Token::TaskListItem(c, t) => {
@@ -399,7 +420,7 @@ impl Parser {
 											.as_str(),
 										),
 									_ => row_string
-										.push_str(&Self::parse(&elem.1)),
+										.push_str(&Self::parse(&elem.1, depth)),
 								}
 							}
 							html.push_str(
-- 
2.43.0


From 76b9589cf948aa022c6bde2e1e7ccce5363ef7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:47 +0000
Subject: [PATCH 11/38] fix: keep all cells of tables and the text of malformed
 ones

---
 gfm/src/lexer.rs | 119 +++++++++++++++++++++++++++--------------------
 gfm/src/lib.rs   |  17 +++++--
 gfm/src/token.rs |  10 +---
 3 files changed, 82 insertions(+), 64 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 150c01a..b9ef7ce 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -910,63 +910,41 @@ impl<'a> Lexer<'a> {
 
 	pub(crate) fn lex_pipes(&mut self) -> Result<Token<'a>, ParseError<'a>> {
 		let start_index = self.iter.get_index();
-		let mut lines = Vec::new();
-		while self.iter.next_if_eq(&"|") == Some("|") {
-			lines.push(
-				self.iter
-					.consume_while_case_holds(&|c| c != "\n")
-					.unwrap_or(""),
-			);
-			self.iter.next();
-		}
-		if lines.len() < 3 {
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
-		}
-		if !lines
-			.iter()
-			.all(|l| l.matches("|").count() == lines[0].matches("|").count())
-		{
-			return Err(ParseError {
-				content: self
-					.iter
-					.get_substring_from(start_index)
-					.unwrap_or(""),
-			});
-		}
-		let headings: Vec<_> = lines
-			.remove(0)
-			.split("|")
-			.filter(|&x| x != "")
-			.map(|x| x.trim().to_string())
+		let headings: Vec<_> = self
+			.consume_table_row()
+			.unwrap_or_default()
+			.into_iter()
+			.map(|x| x.to_string())
 			.collect();
-		let alignments: Vec<_> = lines
-			.remove(0)
-			.split("|")
-			.filter(|&x| x != "")
-			.map(|x| {
-				match (x.trim().starts_with(":"), x.trim().ends_with(":")) {
-					(true, false) => Alignment::Left,
-					(true, true) => Alignment::Center,
-					(false, true) => Alignment::Right,
-					_ => Alignment::Left,
+		let alignments: Vec<_> = self
+			.consume_table_row()
+			.unwrap_or_default()
+			.into_iter()
+			.map_while(|x| {
+				let dashes = x.strip_prefix(':').unwrap_or(x);
+				let dashes = dashes.strip_suffix(':').unwrap_or(dashes);
+				if dashes.is_empty() || dashes.contains(|c| c != '-') {
+					return None;
+				}
+				match (x.starts_with(":"), x.ends_with(":")) {
+					(true, false) => Some(Alignment::Left),
+					(true, true) => Some(Alignment::Center),
+					(false, true) => Some(Alignment::Right),
+					_ => Some(Alignment::Left),
 				}
 			})
 			.collect();
 		let mut rows = Vec::new();
-		for l in lines.into_iter() {
-			let elements: Vec<&str> = l
-				.split("|")
-				.filter(|&x| x != "")
-				.map(|x| x.trim())
-				.collect();
+		let mut index = self.iter.get_index();
+		while headings.len() == alignments.len() {
+			let elements = match self.consume_table_row() {
+				Some(elements) if elements.len() == headings.len() => elements,
+				_ => break,
+			};
+			index = self.iter.get_index();
 			let mut r = Vec::new();
 			for e in elements.into_iter() {
-				let mut inner_tokens = Parser::lex(&e, &['|'], self.depth);
+				let mut inner_tokens = Parser::lex(e, &['|'], self.depth);
 				inner_tokens.retain(|token| token.is_usable_in_table());
 				r.push(inner_tokens);
 			}
@@ -974,9 +952,50 @@ impl<'a> Lexer<'a> {
 				alignments.clone().into_iter().zip(r.into_iter()).collect(),
 			);
 		}
+		if rows.is_empty() {
+			self.iter.update_index_to(start_index);
+			return Err(ParseError {
+				content: self.iter.next().unwrap_or(""),
+			});
+		}
+		self.iter.update_index_to(index);
 		Ok(Token::Table(
 			alignments.into_iter().zip(headings.into_iter()).collect(),
 			rows,
 		))
 	}
+
+	/// Consumes the cells of a row of a table, if there is one.
+	fn consume_table_row(&mut self) -> Option<Vec<&'a str>> {
+		self.iter.consume_while_case_holds(&|c| c == " ");
+		if !self.iter.is_at_line_start() {
+			return None;
+		}
+		self.iter.next_if_eq("|")?;
+		let mut cells = Vec::new();
+		let mut cell_index = self.iter.get_index();
+		loop {
+			let index = self.iter.get_index();
+			match self.iter.next() {
+				Some("\\") if self.iter.peek() != Some("\n") => {
+					self.iter.next();
+					continue;
+				}
+				Some("|") | Some("\n") | None => {}
+				Some(_c) => continue,
+			}
+			let cell =
+				self.iter.get_substring(cell_index, index)?.trim_ascii();
+			cell_index = self.iter.get_index();
+			if self.iter.character_before(index + 1) == Some('|') {
+				cells.push(cell);
+				continue;
+			}
+			// The last cell may, but does not have to be closed by a pipe
+			if !cell.is_empty() || cells.is_empty() {
+				cells.push(cell);
+			}
+			return Some(cells);
+		}
+	}
 }
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index 5975589..f6774f6 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -43,6 +43,15 @@ impl Parser {
 		Self::parse(&Self::lex(source, ignore, depth), depth)
 	}
 
+	/// Renders a part of a paragraph on its own.
+	fn render_inline(token: &Token<'_>, depth: usize) -> String {
+		let html = Self::parse(std::slice::from_ref(token), depth);
+		html.strip_prefix("<p>")
+			.and_then(|html| html.strip_suffix("</p>\n"))
+			.unwrap_or("")
+			.to_string()
+	}
+
 	/// Renders the content of a block.
 	fn render_nested(source: &str, depth: usize) -> String {
 		match depth < MAX_NESTING {
@@ -355,9 +364,6 @@ impl Parser {
 					}
 				}
 				Token::Table(headings, rows) => {
-					if headings.len() != rows[0].len() {
-						continue;
-					}
 					html.push_str(
 						"<table class=\"table \
 						 table-bordered\">\n\t<thead>\n\t<tr>\n",
@@ -419,8 +425,9 @@ impl Parser {
 											)
 											.as_str(),
 										),
-									_ => row_string
-										.push_str(&Self::parse(&elem.1, depth)),
+									_ => row_string.push_str(
+										&Self::render_inline(token, depth),
+									),
 								}
 							}
 							html.push_str(
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 72510cf..5fbb450 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -119,15 +119,7 @@ impl Token<'_> {
 	}
 
 	pub(crate) fn is_usable_in_table(&self) -> bool {
-		match self {
-			Token::Code(_) => true,
-			Token::Link(_, _, _) => true,
-			Token::Bold(_) => true,
-			Token::Italic(_) => true,
-			Token::BoldItalic(_) => true,
-			Token::Plaintext(_) => true,
-			_ => false,
-		}
+		self.is_inline() || self.as_whitespace().is_some()
 	}
 }
 
-- 
2.43.0


From 1b8bd3d26d21ff6be0469a7a948f07a643f7c68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:48 +0000
Subject: [PATCH 12/38] fix: accept all line endings

---
 gfm/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index f6774f6..dc90330 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -32,7 +32,8 @@ impl Parser {
 	/// ```
 	pub fn render(source: &str) -> String {
 		debug!("Rendering source of length: {}", source.len());
-		Self::render_ignore(source, &[], 0)
+		let source = source.replace("\r\n", "\n").replace('\r', "\n");
+		Self::render_ignore(&source, &[], 0)
 	}
 
 	pub(crate) fn render_ignore(
-- 
2.43.0


From ca1bfe55cbc338fb643cc52342c23753464fa21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:59 +0000
Subject: [PATCH 13/38] fix: write files completely or report an error

---
 smd-core/src/fs.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/smd-core/src/fs.rs b/smd-core/src/fs.rs
index 098c219..3bf8cc7 100644
--- a/smd-core/src/fs.rs
+++ b/smd-core/src/fs.rs
@@ -47,11 +47,13 @@ pub fn write_to_file(path: &PathBuf, content: &str) -> Result<()> {
 	debug!("Attempting to write file: {}", path_str);
 
 	let mut file = File::create(path)?;
-	match file.write(content.as_bytes()) {
-		Ok(bytes_written) => {
+	match file.write_all(content.as_bytes()) {
+		Ok(()) => {
 			info!(
 				"\"{}\" {}L, {}B written",
-				path_str, line_count, bytes_written
+				path_str,
+				line_count,
+				content.len()
 			);
 			Ok(())
 		}
@@ -69,9 +71,9 @@ pub fn write_bytes(path: &PathBuf, bytes: &Vec<u8>) -> Result<()> {
 	debug!("Attempting to write file: {}", path_str);
 
 	let mut file = File::create(path)?;
-	match file.write(bytes) {
-		Ok(bytes_written) => {
-			info!("\"{}\", {}B written", path_str, bytes_written);
+	match file.write_all(bytes) {
+		Ok(()) => {
+			info!("\"{}\", {}B written", path_str, bytes.len());
 			Ok(())
 		}
 		Err(e) => {
-- 
2.43.0


From d72bba5165a404781d08dcea339cc6000292c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:01 +0000
Subject: [PATCH 14/38] fix: never overwrite a configuration created
 concurrently

---
 smd-core/src/config.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/smd-core/src/config.rs b/smd-core/src/config.rs
index 1ffdd2c..4d81412 100644
--- a/smd-core/src/config.rs
+++ b/smd-core/src/config.rs
@@ -9,6 +9,10 @@ use serde::{
 	Deserialize,
 	Serialize,
 };
+use std::io::{
+	ErrorKind,
+	Write,
+};
 
 #[derive(Debug, Deserialize, Serialize, Default)]
 pub struct Config {
@@ -72,16 +76,24 @@ impl Config {
 		);
 		let path = dirs::config_dir().unwrap_or_default().join(DEFAULT_CONFIG);
 
-		if path.exists() {
-			return Err(Error::ConfigAlreadyExistsError(
-				path.to_string_lossy().to_string(),
-			));
-		}
-
 		if let Some(parent) = path.parent() {
 			std::fs::create_dir_all(parent)?;
 		}
-		fs::write_to_file(&path, &toml)?;
+		// Creating the file fails if anything, even if just now, came to exist
+		let mut file = std::fs::OpenOptions::new()
+			.write(true)
+			.create_new(true)
+			.open(&path)
+			.map_err(|e| match e.kind() {
+				ErrorKind::AlreadyExists => Error::ConfigAlreadyExistsError(
+					path.to_string_lossy().to_string(),
+				),
+				_ => e.into(),
+			})?;
+		if let Err(e) = file.write_all(toml.as_bytes()) {
+			std::fs::remove_file(&path)?;
+			return Err(e.into());
+		}
 
 		Ok(())
 	}
-- 
2.43.0


From 991f0f53f525dbce73f502fc4e4d7ebb4e3aae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:02 +0000
Subject: [PATCH 15/38] fix: respect environment overrides without a
 configuration file

---
 smd-core/src/config.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smd-core/src/config.rs b/smd-core/src/config.rs
index 4d81412..902f95c 100644
--- a/smd-core/src/config.rs
+++ b/smd-core/src/config.rs
@@ -64,7 +64,8 @@ impl Config {
 			return Ok(config);
 		}
 
-		Ok(Self::default())
+		// The environment takes precedence over the default values, too
+		Self::parse_from_str(&toml::to_string(&Self::default())?)
 	}
 
 	pub fn initialize() -> Result<()> {
-- 
2.43.0


From 31ba97866731ae0655b604974c8274937cd346f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:04 +0000
Subject: [PATCH 16/38] fix: print the version for the version flag

---
 smd/src/args.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smd/src/args.rs b/smd/src/args.rs
index 1241706..28f3c88 100644
--- a/smd/src/args.rs
+++ b/smd/src/args.rs
@@ -31,6 +31,7 @@ pub enum OutputFileFormat {
     disable_help_flag = true,
     disable_version_flag = true,
     disable_help_subcommand = true,
+    propagate_version = true,
 )]
 pub struct Cli {
 	#[command(subcommand)]
@@ -51,7 +52,7 @@ pub struct Cli {
 	#[arg(
         short = 'V',
         long,
-        action = ArgAction::Help,
+        action = ArgAction::Version,
         global = true,
         help = "Prints version information",
         help_heading = Some("FLAGS"),
-- 
2.43.0


From 035a57168efddf577af30950fc89dc7dbb6128b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:05 +0000
Subject: [PATCH 17/38] fix: refuse to overwrite the input with the output

---
 smd/src/lib.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/smd/src/lib.rs b/smd/src/lib.rs
index b9c8950..8e2dbc4 100644
--- a/smd/src/lib.rs
+++ b/smd/src/lib.rs
@@ -9,7 +9,10 @@ use smd_core::{
 		self,
 		PDFConverter,
 	},
-	error::Result,
+	error::{
+		Error,
+		Result,
+	},
 	fs,
 };
 
@@ -30,15 +33,24 @@ pub fn run(cli: Cli) -> Result<()> {
 
 	match cli.commands {
 		Commands::Parse(args) => {
+			let mut out_path = args.input.clone();
+			out_path.set_extension(match args.output {
+				args::OutputFileFormat::Html => HTML_FILE_ENDING,
+				args::OutputFileFormat::Pdf => PDF_FILE_ENDING,
+			});
+			if out_path.canonicalize().is_ok_and(|path| path == args.input) {
+				return Err(Error::CustomError(format!(
+					"{} is the input and would be overwritten",
+					out_path.display()
+				)));
+			}
+
 			let content = fs::read_to_string(&args.input)?;
 
 			info!("Transpiling markdown");
 			let result = gfm::Parser::render(&content);
 
-			let mut out_path = args.input.clone();
-
 			if args.output.eq(&args::OutputFileFormat::Html) {
-				out_path.set_extension(HTML_FILE_ENDING);
 				fs::write_to_file(&out_path, &result)?;
 
 				return Ok(());
@@ -46,7 +58,6 @@ pub fn run(cli: Cli) -> Result<()> {
 
 			let converted = match args.output {
 				args::OutputFileFormat::Pdf => {
-					out_path.set_extension(PDF_FILE_ENDING);
 					convert::convert_html::<PDFConverter>(&result)?
 				}
 				_ => unreachable!(),
-- 
2.43.0


From acb48664bd92a46fccad464b4c70b08c4984d0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:07 +0000
Subject: [PATCH 18/38] fix: convert through a temporary file of our own and
 remove it

---
 smd-core/src/convert.rs | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/smd-core/src/convert.rs b/smd-core/src/convert.rs
index 3662974..f7370f3 100644
--- a/smd-core/src/convert.rs
+++ b/smd-core/src/convert.rs
@@ -1,9 +1,13 @@
 use std::{
 	env,
 	fs,
+	io::ErrorKind,
+	path::PathBuf,
+	process,
 };
 
 use headless_chrome::types::PrintToPdfOptions;
+use log::warn;
 
 use crate::{
 	browser::BrowserSession,
@@ -23,18 +27,43 @@ where
 	T::from_html(html)
 }
 
+/// A file of our own in the current directory, removed when dropped.
+struct TempFile(PathBuf);
+
+impl TempFile {
+	fn create() -> Result<Self> {
+		let current_dir = env::current_dir()?;
+		let mut count = 0;
+		loop {
+			let name = format!(".smd-{}-{}.html", process::id(), count);
+			let path = current_dir.join(name);
+			match fs::File::create_new(&path) {
+				Ok(_file) => return Ok(TempFile(path)),
+				Err(e) if e.kind() == ErrorKind::AlreadyExists => count += 1,
+				Err(e) => return Err(e.into()),
+			}
+		}
+	}
+}
+
+impl Drop for TempFile {
+	fn drop(&mut self) {
+		if let Err(e) = fs::remove_file(&self.0) {
+			warn!("Failed to remove {}: {}", self.0.display(), e);
+		}
+	}
+}
+
 pub struct PDFConverter;
 
 impl Convert for PDFConverter {
 	fn from_html(html: &str) -> Result<Vec<u8>> {
 		let browser = BrowserSession::initialize()?;
 
-		let current_dir = env::current_dir()?;
-		let tmpfile = current_dir.join("tmp.html");
-
-		write_to_file(&tmpfile, html)?;
-		let tab_id = browser.open_file(&tmpfile)?;
-		fs::remove_file(tmpfile)?;
+		let tmpfile = TempFile::create()?;
+		write_to_file(&tmpfile.0, html)?;
+		let tab_id = browser.open_file(&tmpfile.0)?;
+		drop(tmpfile);
 
 		let options = PrintToPdfOptions {
 			margin_top: Some(0.0),
-- 
2.43.0


From e5390d2f03e826eb22930b35997942db4cc2ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:08 +0000
Subject: [PATCH 19/38] fix: open files whose path has special characters

---
 smd-core/src/browser.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/smd-core/src/browser.rs b/smd-core/src/browser.rs
index 9c2f903..2f9567d 100644
--- a/smd-core/src/browser.rs
+++ b/smd-core/src/browser.rs
@@ -4,7 +4,10 @@ use crate::error::{
 };
 use std::{
 	env,
-	path::PathBuf,
+	path::{
+		Path,
+		PathBuf,
+	},
 };
 
 use headless_chrome::{
@@ -13,6 +16,21 @@ use headless_chrome::{
 	Browser,
 };
 
+/// Percent-encodes the characters of a path which are special in an URL.
+fn encode_path(path: &Path) -> String {
+	path.as_os_str()
+		.as_encoded_bytes()
+		.iter()
+		.map(|&byte| match byte {
+			b'-' | b'.' | b'_' | b'~' | b'/' | b'\\' | b':' => {
+				(byte as char).to_string()
+			}
+			_ if byte.is_ascii_alphanumeric() => (byte as char).to_string(),
+			_ => format!("%{:02X}", byte),
+		})
+		.collect()
+}
+
 /// Wrapper for interactions with the `headless_chrome` crate.
 pub struct BrowserSession(Browser);
 
@@ -32,7 +50,7 @@ impl BrowserSession {
 	pub fn open_file(&self, path: &PathBuf) -> Result<TargetID> {
 		let current_dir = env::current_dir()?;
 		let html_file_path = current_dir.join(path);
-		let file_url = format!("file://{}", html_file_path.to_string_lossy());
+		let file_url = format!("file://{}", encode_path(&html_file_path));
 
 		let tab = self.0.new_tab().map_err(|_| {
 			Error::BrowserError("Failed to open new tab.".to_string())
-- 
2.43.0


From c64e7d1009b1af2f03eb061b89b8be944a3ff02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:16 +0000
Subject: [PATCH 20/38] fix: keep the text between tildes which strike nothing

---
 gfm/src/lexer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index b9ef7ce..8b46de7 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -656,9 +656,13 @@ impl<'a> Lexer<'a> {
 			.iter
 			.consume_while_case_holds(&|c| c == "~")
 			.unwrap_or("");
-		match (tildes.len(), self.consume_delimited(tildes)) {
-			(2, Some(s)) => Ok(Token::Strikethrough(s.to_string())),
-			_ => Err(ParseError { content: tildes }),
+		let struck = match tildes.len() {
+			2 => self.consume_delimited(tildes),
+			_ => None,
+		};
+		match struck {
+			Some(s) => Ok(Token::Strikethrough(s.to_string())),
+			None => Err(ParseError { content: tildes }),
 		}
 	}
 
-- 
2.43.0


From 8d158c0f0e4fa40ae0aaa40eeb720057513bb2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:53 +0000
Subject: [PATCH 21/38] fix: keep the text behind the delimiter row of a table

---
 gfm/src/lexer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 8b46de7..574778a 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -920,11 +920,11 @@ impl<'a> Lexer<'a> {
 			.into_iter()
 			.map(|x| x.to_string())
 			.collect();
-		let alignments: Vec<_> = self
+		let alignments: Option<Vec<_>> = self
 			.consume_table_row()
 			.unwrap_or_default()
 			.into_iter()
-			.map_while(|x| {
+			.map(|x| {
 				let dashes = x.strip_prefix(':').unwrap_or(x);
 				let dashes = dashes.strip_suffix(':').unwrap_or(dashes);
 				if dashes.is_empty() || dashes.contains(|c| c != '-') {
@@ -938,6 +938,7 @@ impl<'a> Lexer<'a> {
 				}
 			})
 			.collect();
+		let alignments = alignments.unwrap_or_default();
 		let mut rows = Vec::new();
 		let mut index = self.iter.get_index();
 		while headings.len() == alignments.len() {
-- 
2.43.0


From 0bead4a5368a8e339d2774704e41f0bbc09d3b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:40 +0000
Subject: [PATCH 22/38] fix: treat tags in the code of a details section as
 code

---
 gfm/src/lexer.rs | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 574778a..9f1cab6 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -883,27 +883,39 @@ impl<'a> Lexer<'a> {
 			.trim_ascii()
 			.strip_prefix("<summary>")?
 			.strip_suffix("</summary>")?;
-		// The section ends with its own closing tag, if there is one
+		// The section ends with its own closing tag, if there is one. Tags in
+		// a code block are part of the code.
 		let content_index = self.iter.get_index();
+		let mut content = "";
+		let mut fence = None;
 		let mut depth = 1;
 		while depth > 0 {
-			if !self
-				.iter
-				.consume_until_tail_is("details>")?
-				.ends_with("details>")
-			{
-				break;
-			}
-			let content = self.iter.get_substring_from(content_index)?;
-			if content.ends_with("</details>") {
-				depth -= 1;
-			} else if content.ends_with("<details>") {
-				depth += 1;
+			let line = match self.iter.consume_line_ahead() {
+				Some(line) => line.trim_end(),
+				None => break,
+			};
+			content = self.iter.get_substring_from(content_index)?;
+			let text = line.trim_start_matches(|c: char| {
+				c.is_ascii_digit() || " \t>-*+.".contains(c)
+			});
+			let ticks = text.trim_start_matches('`');
+			let opening = &text[..text.len() - ticks.len()];
+			match fence {
+				Some(fence) if Self::is_fence(text, fence) => {}
+				Some(_) => continue,
+				None if opening.len() >= 3 && !ticks.contains('`') => {
+					fence = Some(opening);
+					continue;
+				}
+				None if line.trim_start() == "<details>" => depth += 1,
+				None if line.ends_with("</details>") => depth -= 1,
+				None => {}
 			}
+			fence = None;
 		}
-		let mut content = self.iter.get_substring_from(content_index)?;
 		if depth == 0 {
-			content = content.strip_suffix("</details>").unwrap_or(content);
+			let text = content.trim_end();
+			content = text.strip_suffix("</details>").unwrap_or(text);
 		}
 		let inner_tokens = match self.depth < MAX_NESTING {
 			true => Parser::lex(content, &[], self.depth + 1),
-- 
2.43.0


From 32f43af3124d79039c7e682d70826f5edd8ecf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:04 +0000
Subject: [PATCH 23/38] fix: do not look for delimiters inside of code spans

---
 gfm/src/lexer.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 9f1cab6..5b1eb93 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -469,9 +469,7 @@ impl<'a> Lexer<'a> {
 				.consume_while_case_holds(&|c| delimiter.starts_with(c))
 				.unwrap_or("");
 			if run.is_empty() {
-				if self.iter.next() == Some("\\") {
-					self.iter.next();
-				}
+				self.skip_inline();
 			} else if !is_intraword(self, index) {
 				let is_closing = run == delimiter ||
 					run.len() > delimiter.len() &&
@@ -495,6 +493,23 @@ impl<'a> Lexer<'a> {
 		None
 	}
 
+	/// Skips a character, an escaped one together with its backslash, and a
+	/// code span as a whole since other delimiters mean nothing in it.
+	fn skip_inline(&mut self) {
+		match self.iter.peek() {
+			Some("\\") => {
+				self.iter.next();
+				self.iter.next();
+			}
+			Some("`") => {
+				let _ = self.lex_backticks(false);
+			}
+			_ => {
+				self.iter.next();
+			}
+		}
+	}
+
 	/// The end of the paragraph the cursor is in, which no inline crosses.
 	fn inline_end(&mut self) -> usize {
 		if self.inline_end <= self.iter.get_index() {
@@ -814,18 +829,16 @@ impl<'a> Lexer<'a> {
 		let start_index = self.iter.get_index();
 		let end = self.inline_end();
 		while self.iter.get_index() < end {
-			match self.iter.next() {
-				Some("\\") => {
-					self.iter.next();
-				}
+			match self.iter.peek() {
 				Some(c) if c == close => {
+					self.iter.next();
 					return self.iter.get_substring(
 						start_index,
 						self.iter.get_index() - close.len(),
 					);
 				}
 				Some(c) if c == open => return None,
-				_ => {}
+				_ => self.skip_inline(),
 			}
 		}
 		None
-- 
2.43.0


From 1acfb172a5dbfb6f380d34277dc6d37e496b7db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:04 +0000
Subject: [PATCH 24/38] fix: only start an image at an exclamation mark before
 a bracket

---
 gfm/src/lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 5b1eb93..78c5072 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -847,6 +847,9 @@ impl<'a> Lexer<'a> {
 	pub(crate) fn lex_images(&mut self) -> Result<Token<'a>, ParseError<'a>> {
 		let mark = self.iter.next_if_eq("!").unwrap_or("");
 		let text_index = self.iter.get_index();
+		if self.iter.peek() != Some("[") {
+			return Err(ParseError { content: mark });
+		}
 		match self.lex_links(false) {
 			Ok(Token::Link(link, title, hover)) => {
 				return Ok(Token::Image(link.to_string(), title, hover))
-- 
2.43.0


From bd167902a0d2432930512f925fc85556ee80288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:56 +0000
Subject: [PATCH 25/38] fix: treat fences and tags in code inside of a details
 section as code

---
 gfm/src/lexer.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 78c5072..6188e79 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -739,6 +739,13 @@ impl<'a> Lexer<'a> {
 		})
 	}
 
+	/// The line without the markers of the given number of quotes.
+	fn strip_quotes(line: &str, quotes: usize) -> &str {
+		(0..quotes).fold(line, |line, _| {
+			line.trim_start().strip_prefix('>').unwrap_or(line)
+		})
+	}
+
 	/// Whether a line closes the code block opened by the given fence.
 	fn is_fence(line: &str, opening: &str) -> bool {
 		let line = line.trim_ascii();
@@ -905,22 +912,43 @@ impl<'a> Lexer<'a> {
 		let mut content = "";
 		let mut fence = None;
 		let mut depth = 1;
+		let (mut in_list, mut in_code) = (false, true);
 		while depth > 0 {
 			let line = match self.iter.consume_line_ahead() {
 				Some(line) => line.trim_end(),
 				None => break,
 			};
 			content = self.iter.get_substring_from(content_index)?;
+			if fence.is_none() {
+				// Lines which are indented after a blank one are code, too,
+				// unless they belong to a list
+				let indented = line.starts_with("    ") ||
+					line.trim_start_matches(' ').starts_with('\t');
+				if in_code && indented && !in_list {
+					continue;
+				}
+				if !indented && !line.is_empty() {
+					in_list = line.trim_start().starts_with(|c: char| {
+						c.is_ascii_digit() || "-*+".contains(c)
+					});
+				}
+				in_code = line.is_empty();
+			}
 			let text = line.trim_start_matches(|c: char| {
 				c.is_ascii_digit() || " \t>-*+.".contains(c)
 			});
 			let ticks = text.trim_start_matches('`');
 			let opening = &text[..text.len() - ticks.len()];
+			let markers = &line[..line.len() - text.len()];
 			match fence {
-				Some(fence) if Self::is_fence(text, fence) => {}
+				Some((fence, quotes))
+					if Self::is_fence(
+						Self::strip_quotes(line, quotes),
+						fence,
+					) => {}
 				Some(_) => continue,
 				None if opening.len() >= 3 && !ticks.contains('`') => {
-					fence = Some(opening);
+					fence = Some((opening, markers.matches('>').count()));
 					continue;
 				}
 				None if line.trim_start() == "<details>" => depth += 1,
-- 
2.43.0


From 1717a2c49ab0444bac37a2700debe44084979f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:04 +0000
Subject: [PATCH 26/38] fix: keep non-ASCII white space at the edges of
 headings and footnotes

---
 gfm/src/lexer.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 6188e79..7c0919b 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -235,7 +235,7 @@ impl<'a> Lexer<'a> {
 			.unwrap_or("");
 		let mut label = None;
 		if let Some((heading, id)) = line
-			.trim_end()
+			.trim_ascii_end()
 			.strip_suffix("}")
 			.and_then(|line| line.rsplit_once("{#"))
 		{
@@ -245,7 +245,7 @@ impl<'a> Lexer<'a> {
 			}
 		}
 		let line_without_optional_trailing_hash_sequence =
-			match line.trim_end().rsplit_once(' ') {
+			match line.trim_ascii_end().rsplit_once(' ') {
 				Some((left, right)) => match right.chars().all(|c| c == '#') {
 					true => left,
 					false => line,
@@ -265,7 +265,7 @@ impl<'a> Lexer<'a> {
 		.unwrap_or("")
 		.strip_suffix("</p>\n")
 		.unwrap_or("")
-		.trim()
+		.trim_ascii()
 		.to_string();
 
 		Ok(Token::Header(hashes.len(), parsed_line, label))
@@ -742,7 +742,7 @@ impl<'a> Lexer<'a> {
 	/// The line without the markers of the given number of quotes.
 	fn strip_quotes(line: &str, quotes: usize) -> &str {
 		(0..quotes).fold(line, |line, _| {
-			line.trim_start().strip_prefix('>').unwrap_or(line)
+			line.trim_ascii_start().strip_prefix('>').unwrap_or(line)
 		})
 	}
 
@@ -799,7 +799,7 @@ impl<'a> Lexer<'a> {
 			let note = self.iter.get_substring_from(note_index)?;
 			return Some(Token::Footnote(
 				ref_id.to_string(),
-				note.trim().to_string(),
+				note.trim_ascii().to_string(),
 			));
 		}
 		if self.iter.next_if_eq("(").is_none() {
@@ -915,7 +915,7 @@ impl<'a> Lexer<'a> {
 		let (mut in_list, mut in_code) = (false, true);
 		while depth > 0 {
 			let line = match self.iter.consume_line_ahead() {
-				Some(line) => line.trim_end(),
+				Some(line) => line.trim_ascii_end(),
 				None => break,
 			};
 			content = self.iter.get_substring_from(content_index)?;
@@ -951,14 +951,14 @@ impl<'a> Lexer<'a> {
 					fence = Some((opening, markers.matches('>').count()));
 					continue;
 				}
-				None if line.trim_start() == "<details>" => depth += 1,
+				None if line.trim_ascii_start() == "<details>" => depth += 1,
 				None if line.ends_with("</details>") => depth -= 1,
 				None => {}
 			}
 			fence = None;
 		}
 		if depth == 0 {
-			let text = content.trim_end();
+			let text = content.trim_ascii_end();
 			content = text.strip_suffix("</details>").unwrap_or(text);
 		}
 		let inner_tokens = match self.depth < MAX_NESTING {
-- 
2.43.0


From 6f93b6b12755ec8208a2e6260139a36bb208294e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:58 +0000
Subject: [PATCH 27/38] fix: only list markers make a list in a details section

---
 gfm/src/lexer.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 7c0919b..3f3b0a4 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -426,18 +426,33 @@ impl<'a> Lexer<'a> {
 	/// Consumes a line of three or more `*`, `-` or `_` and nothing else.
 	fn consume_thematic_break(&mut self) -> bool {
 		let line = self.iter.peek_line_ahead().unwrap_or("");
+		let is_break = Self::is_thematic_break(line);
+		if is_break {
+			self.iter.consume_while_case_holds(&|c| c != "\n");
+		}
+		is_break
+	}
+
+	fn is_thematic_break(line: &str) -> bool {
 		let mut characters = line.chars().filter(|c| !c.is_ascii_whitespace());
-		let is_break = match characters.next() {
+		match characters.next() {
 			Some(first @ ('*' | '-' | '_')) => {
 				line.matches(first).count() >= 3 &&
 					characters.all(|c| c == first)
 			}
 			_ => false,
-		};
-		if is_break {
-			self.iter.consume_while_case_holds(&|c| c != "\n");
 		}
-		is_break
+	}
+
+	/// Whether a line starts with the marker of a list.
+	fn is_list_entry(line: &str) -> bool {
+		let text = line.trim_ascii_start();
+		let marker = text.trim_start_matches(|c: char| c.is_ascii_digit());
+		!Self::is_thematic_break(line) &&
+			(["* ", "*\t", "- ", "-\t", "+ ", "+\t"]
+				.iter()
+				.any(|marker| text.starts_with(marker)) ||
+				text.len() > marker.len() && marker.starts_with(". "))
 	}
 
 	/// Consumes the text that an opening delimiter applies to, together with
@@ -928,9 +943,7 @@ impl<'a> Lexer<'a> {
 					continue;
 				}
 				if !indented && !line.is_empty() {
-					in_list = line.trim_start().starts_with(|c: char| {
-						c.is_ascii_digit() || "-*+".contains(c)
-					});
+					in_list = Self::is_list_entry(line);
 				}
 				in_code = line.is_empty();
 			}
-- 
2.43.0


From 29bdda116e4dd44b32c1241ac0bfc3ecc1099d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:23 +0000
Subject: [PATCH 28/38] fix: encode backslashes of the working directory in the
 URL of the page

---
 smd-core/src/browser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smd-core/src/browser.rs b/smd-core/src/browser.rs
index 2f9567d..0324a06 100644
--- a/smd-core/src/browser.rs
+++ b/smd-core/src/browser.rs
@@ -22,9 +22,11 @@ fn encode_path(path: &Path) -> String {
 		.as_encoded_bytes()
 		.iter()
 		.map(|&byte| match byte {
-			b'-' | b'.' | b'_' | b'~' | b'/' | b'\\' | b':' => {
+			b'-' | b'.' | b'_' | b'~' | b'/' | b':' => {
 				(byte as char).to_string()
 			}
+			// Part of a name, where it does not separate names
+			b'\\' if cfg!(windows) => (byte as char).to_string(),
 			_ if byte.is_ascii_alphanumeric() => (byte as char).to_string(),
 			_ => format!("%{:02X}", byte),
 		})
-- 
2.43.0


From 53545ff19840c74cab66e0f4bf3eeef358ba10c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:19 +0000
Subject: [PATCH 29/38] fix: details sections in quotes and lists of a details
 section end it

---
 gfm/src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index 3f3b0a4..a11183b 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -964,7 +964,7 @@ impl<'a> Lexer<'a> {
 					fence = Some((opening, markers.matches('>').count()));
 					continue;
 				}
-				None if line.trim_ascii_start() == "<details>" => depth += 1,
+				None if text == "<details>" => depth += 1,
 				None if line.ends_with("</details>") => depth -= 1,
 				None => {}
 			}
-- 
2.43.0


From a8320252755d2445753a8e42e0ac43570461b37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:29 +0000
Subject: [PATCH 30/38] fix: the npm package looks for the binary of another
 program

---
 npm/smd/src/getExePath.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/npm/smd/src/getExePath.ts b/npm/smd/src/getExePath.ts
index eab1031..200d57f 100644
--- a/npm/smd/src/getExePath.ts
+++ b/npm/smd/src/getExePath.ts
@@ -1,12 +1,12 @@
 import { arch as getArch, platform as getPlatform } from "os";
 
 /**
- * Returns the executable path for git-cliff located inside node_modules
- * The naming convention is git-cliff-${os}-${arch}
+ * Returns the executable path for smd located inside node_modules
+ * The naming convention is smd-${os}-${arch}
  * If the platform is `win32` or `cygwin`, executable will include a `.exe` extension
  * @see https://nodejs.org/api/os.html#osarch
  * @see https://nodejs.org/api/os.html#osplatform
- * @example "x/xx/node_modules/git-cliff-darwin-arm64"
+ * @example "x/xx/node_modules/smd-darwin-arm64"
  */
 export async function getExePath() {
   const platform = getPlatform();
@@ -23,11 +23,11 @@ export async function getExePath() {
   try {
     // Since the bin will be located inside `node_modules`, we can simply call import.meta.resolve
     return import.meta.resolve(
-      `git-cliff-${os}-${arch}/bin/git-cliff${extension}`,
+      `smd-${os}-${arch}/bin/smd${extension}`,
     );
   } catch (e) {
     throw new Error(
-      `Couldn't find git-cliff binary inside node_modules for ${os}-${arch} (${e})`,
+      `Couldn't find smd binary inside node_modules for ${os}-${arch} (${e})`,
     );
   }
 }
-- 
2.43.0


From f41397166f39e512bfd63a7f2e6b4699fd722494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:29 +0000
Subject: [PATCH 31/38] fix: an undefined option of the npm package is not an
 argument

---
 npm/smd/src/optionsToStringArgs.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/npm/smd/src/optionsToStringArgs.ts b/npm/smd/src/optionsToStringArgs.ts
index 9fc0253..521293d 100644
--- a/npm/smd/src/optionsToStringArgs.ts
+++ b/npm/smd/src/optionsToStringArgs.ts
@@ -19,7 +19,7 @@ export function optionsToStringArgs(options: Options): string[] {
       }
     } else if (value === true) {
       args.push(`--${hyphenCaseKey}`);
-    } else if (value === false || value === null) {
+    } else if (value === false || value === null || value === undefined) {
       continue;
     } else {
       args.push(`--${hyphenCaseKey}`, value);
-- 
2.43.0


From e6581d4e008e10848c440e2a353d8798d4c69a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:53 +0000
Subject: [PATCH 32/38] fix: a configuration that cannot be accessed was taken
 for a missing one

Looking for the configuration failed silently, for example where its
directory may not be searched, and the default values were used.
---
 smd-core/src/config.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/smd-core/src/config.rs b/smd-core/src/config.rs
index 902f95c..a976ea2 100644
--- a/smd-core/src/config.rs
+++ b/smd-core/src/config.rs
@@ -58,7 +58,12 @@ impl Config {
 	pub fn load_config() -> Result<Config> {
 		let config_path =
 			dirs::config_dir().unwrap_or_default().join(DEFAULT_CONFIG);
-		if config_path.exists() {
+		// Only a file which is not there leaves the default values
+		let exists = match config_path.try_exists() {
+			Err(e) if e.kind() == ErrorKind::NotADirectory => false,
+			result => result?,
+		};
+		if exists {
 			let content = fs::read_to_string(&config_path)?;
 			let config = Self::parse_from_str(&content)?;
 			return Ok(config);
-- 
2.43.0


From d3a1a3fc0e412ef8bfc68c7e866fb3b20d15fba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:32 +0000
Subject: [PATCH 33/38] fix: an output that is a hard link to the input
 overwrote it

Files were compared by their canonical paths, which differ although both
lead to the same file.
---
 smd/src/lib.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/smd/src/lib.rs b/smd/src/lib.rs
index 8e2dbc4..458cc47 100644
--- a/smd/src/lib.rs
+++ b/smd/src/lib.rs
@@ -15,6 +15,7 @@ use smd_core::{
 	},
 	fs,
 };
+use std::path::Path;
 
 pub mod args;
 pub mod logger;
@@ -22,6 +23,26 @@ pub mod logger;
 const HTML_FILE_ENDING: &str = "html";
 const PDF_FILE_ENDING: &str = "pdf";
 
+/// Whether two paths lead to the same file, be it through links.
+#[cfg(unix)]
+fn is_same_file(a: &Path, b: &Path) -> bool {
+	use std::os::unix::fs::MetadataExt;
+
+	match (a.metadata(), b.metadata()) {
+		(Ok(a), Ok(b)) => a.dev() == b.dev() && a.ino() == b.ino(),
+		_ => false,
+	}
+}
+
+/// Whether two paths lead to the same file, be it through links.
+#[cfg(not(unix))]
+fn is_same_file(a: &Path, b: &Path) -> bool {
+	match (a.canonicalize(), b.canonicalize()) {
+		(Ok(a), Ok(b)) => a == b,
+		_ => false,
+	}
+}
+
 /// Runs `smd`.
 pub fn run(cli: Cli) -> Result<()> {
 	if Commands::Initialize == cli.commands {
@@ -38,7 +59,7 @@ pub fn run(cli: Cli) -> Result<()> {
 				args::OutputFileFormat::Html => HTML_FILE_ENDING,
 				args::OutputFileFormat::Pdf => PDF_FILE_ENDING,
 			});
-			if out_path.canonicalize().is_ok_and(|path| path == args.input) {
+			if is_same_file(&out_path, &args.input) {
 				return Err(Error::CustomError(format!(
 					"{} is the input and would be overwritten",
 					out_path.display()
-- 
2.43.0


From c45e018b38d6726fd86c7921ca9316c655317122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:36 +0000
Subject: [PATCH 34/38] fix: an indented line of white space was code at the
 start of a document

Further down it is a blank line.
---
 gfm/src/lexer.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index a11183b..eede67a 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -316,7 +316,12 @@ impl<'a> Lexer<'a> {
 			Some(s) if Self::strip_code_indent(s).len() == s.len() => {
 				return Err(ParseError { content: s })
 			}
-			Some(_s) if matches!(self.iter.peek(), Some("\n") | None) => {
+			Some(_s)
+				if self
+					.iter
+					.peek_line_ahead()
+					.is_none_or(|line| line.trim_ascii().is_empty()) =>
+			{
 				return Err(ParseError { content: "" })
 			}
 			Some(_s) => {}
-- 
2.43.0


From c742e560daab6f53750852ec4eff0cf5eb37f3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:50 +0000
Subject: [PATCH 35/38] fix: a release left gfm and smd-core at their old
 version, so it did not build

---
 release.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/release.sh b/release.sh
index 62ac4a2..e44e220 100755
--- a/release.sh
+++ b/release.sh
@@ -14,7 +14,7 @@ echo "Preparing $1..."
 msg="# managed by release.sh"
 
 sed -E -i "s/^version = .* $msg$/version = \"${1#v}\" $msg/" smd*/Cargo.toml
-sed -E -i "s/^version = .* $msg$/version = \"${1#v}\" $msg/" gfm/Cargo.toml
+sed -E -i "/^\[package\]/,/^\[dep/s/^version = \"[^\"]*\"/version = \"${1#v}\"/" gfm/Cargo.toml smd-core/Cargo.toml
 sed -E -i "s/\"version\": \".+\"/\"version\": \"${1#v}\"/" npm/smd/package.json
 sed -E -i "s/\"(smd-.+)\": \".+\"/\"\1\": \"${1#v}\"/g" npm/smd/package.json
 
-- 
2.43.0


From d1e1c44b51a8b9b35a9e4d921316243891848a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:50 +0000
Subject: [PATCH 36/38] fix: a release with a failed step was tagged and
 reported as a success

---
 release.sh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/release.sh b/release.sh
index e44e220..5b43c3c 100755
--- a/release.sh
+++ b/release.sh
@@ -1,5 +1,8 @@
 #!/usr/bin/env bash
 
+# there is no release unless every step succeeds
+set -e
+
 if ! command -v typos &>/dev/null; then
   echo "typos is not installed. Run 'cargo install typos-cli' to install it, otherwise the typos won't be fixed"
 fi
@@ -7,7 +10,7 @@ fi
 if [ -z "$1" ]; then
 	echo "Please provide a tag."
 	echo "Usage: ./release.sh v[X.Y.Z]"
-	exit
+	exit 1
 fi
 
 echo "Preparing $1..."
@@ -20,7 +23,8 @@ sed -E -i "s/\"(smd-.+)\": \".+\"/\"\1\": \"${1#v}\"/g" npm/smd/package.json
 
 # update the changelog
 git-cliff --config .cliff/default.toml --tag "$1" > CHANGELOG.md
-git add -A && git commit -m "chore(release): prepare for $1"
+git add -A
+git commit -m "chore(release): prepare for $1"
 git show
 
 # generate a changelog for the tag message
-- 
2.43.0


From 3e9e4f499321fdec8c6739e8bf7ec9c7fada326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:50 +0000
Subject: [PATCH 37/38] fix: the release workflow copied a readme that is not
 there

---
 .github/workflows/release.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/.github/workflows/release.yaml b/.github/workflows/release.yaml
index 64af526..8a7311e 100644
--- a/.github/workflows/release.yaml
+++ b/.github/workflows/release.yaml
@@ -185,7 +185,7 @@ jobs:
         shell: bash
         run: |
           mkdir -p release/{man,completions}
-          cp {LICENSE,LREADME.md,CHANGELOG.md} release/
+          cp {LICENSE,README.md,CHANGELOG.md} release/
           OUT_DIR=release/completions/ cargo run --release --bin smd-completions
           OUT_DIR=release/man/ cargo run --release --bin smd-mangen
           for bin in 'smd' 'smd-completions' 'smd-mangen'; do
-- 
2.43.0


From 00a9918e186bd92cc09616add2ffd2419a9b34e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:50 +0000
Subject: [PATCH 38/38] fix: a backslash at the end of a paragraph was lost,
 and a break after a space was not made

---
 gfm/src/lexer.rs |  2 +-
 gfm/src/lib.rs   | 14 +++++++++++++-
 gfm/src/token.rs |  6 +++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/gfm/src/lexer.rs b/gfm/src/lexer.rs
index eede67a..707192a 100644
--- a/gfm/src/lexer.rs
+++ b/gfm/src/lexer.rs
@@ -386,7 +386,7 @@ impl<'a> Lexer<'a> {
 	fn lex_escaped_character(&mut self) -> Result<Token<'a>, ParseError<'a>> {
 		let backslash = self.iter.next().unwrap_or("");
 		match self.iter.peek() {
-			Some("\n") => Ok(Token::LineBreak),
+			Some("\n") => Ok(Token::BackslashBreak),
 			Some("#") => {
 				let hashes = self
 					.iter
diff --git a/gfm/src/lib.rs b/gfm/src/lib.rs
index dc90330..3070572 100644
--- a/gfm/src/lib.rs
+++ b/gfm/src/lib.rs
@@ -90,6 +90,7 @@ impl Parser {
 		let mut in_unordered_list = false;
 		let mut references = Vec::new();
 		let mut pending_whitespace = "";
+		let mut after_backslash = false;
 		let mut token_iter = tokens.iter().peekable();
 
 		// multi-liners
@@ -105,7 +106,14 @@ impl Parser {
 				}
 				continue;
 			}
-			if in_paragraph && token.is_inline() {
+			// a backslash in front of nothing but the end of a paragraph is text
+			if after_backslash {
+				html.push_str(match token.is_inline() {
+					true => "<br />\n",
+					false => "\\",
+				});
+				after_backslash = false;
+			} else if in_paragraph && token.is_inline() {
 				if pending_whitespace.is_empty() {
 					pending_whitespace = token.leading_whitespace();
 				}
@@ -473,6 +481,7 @@ impl Parser {
 					html.push_str("</code></pre>");
 				}
 				Token::HorizontalRule => html.push_str("<hr />\n"),
+				Token::BackslashBreak => after_backslash = true,
 				Token::Newline => {}
 				Token::Tab => html.push('\t'),
 				Token::DoubleTab => html.push_str("\t\t"),
@@ -483,6 +492,9 @@ impl Parser {
 			}
 		}
 
+		if after_backslash {
+			html.push('\\');
+		}
 		if in_paragraph {
 			html.push_str("</p>\n");
 		}
diff --git a/gfm/src/token.rs b/gfm/src/token.rs
index 5fbb450..f3d7f55 100644
--- a/gfm/src/token.rs
+++ b/gfm/src/token.rs
@@ -27,6 +27,9 @@ pub enum Token<'a> {
 	BoldItalic(String),
 	/// Corresponds to a </br> html tag
 	LineBreak,
+	/// A backslash at the end of a line, which is a line break unless the
+	/// paragraph ends there
+	BackslashBreak,
 	/// Corresponds to a newline character
 	Newline,
 	/// Corresponds to a <hr /> html tag
@@ -114,7 +117,8 @@ impl Token<'_> {
 				Token::Code(_) |
 				Token::Link(_, _, _) |
 				Token::Image(_, _, _) |
-				Token::FootnoteReference(_)
+				Token::FootnoteReference(_) |
+				Token::BackslashBreak
 		)
 	}
 
-- 
2.43.0

