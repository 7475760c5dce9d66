From f5d9772920f4436a2752adfad6795bed053f12ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 01/34] fix: report a missing or unbraced required argument
 instead of panicking

---
 crates/mitex/src/converter.rs | 36 ++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 32cc3c0..649a32b 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -122,6 +122,16 @@ impl From<String> for ConvertError {
     }
 }
 
+/// Remove the braces around an argument like `{abc}`, which has no braces if it
+/// is a single token and may lack the closing one at the end of the input
+fn strip_braces(arg: &str) -> &str {
+    let arg = arg.trim();
+    match arg.strip_prefix('{') {
+        Some(body) => body.strip_suffix('}').unwrap_or(body),
+        None => arg,
+    }
+}
+
 impl Converter {
     fn convert(
         &mut self,
@@ -495,10 +505,10 @@ impl Converter {
         let arg = cmd
             .arguments()
             .next()
-            .expect("\\label command must have one argument");
+            .ok_or_else(|| "\\label command must have one argument".to_owned())?;
         // remove { and } then trim
         let label = arg.text().to_string();
-        let label = &label[1..(label.len() - 1)];
+        let label = strip_braces(&label);
         let label = label.trim();
         match self.env {
             LaTeXEnv::None | LaTeXEnv::Itemize | LaTeXEnv::Enumerate => {
@@ -522,23 +532,19 @@ impl Converter {
         cmd: &CmdItem,
     ) -> Result<(), ConvertError> {
         let opt_arg = cmd.arguments().find(|arg| {
-            matches!(
-                arg.first_child().unwrap().kind(),
-                LatexSyntaxKind::ItemBracket
-            )
+            arg.first_child()
+                .is_some_and(|child| child.kind() == LatexSyntaxKind::ItemBracket)
         });
         let arg = cmd
             .arguments()
             .find(|arg| {
-                matches!(
-                    arg.first_child().unwrap().kind(),
-                    LatexSyntaxKind::ItemCurly
-                )
+                arg.first_child()
+                    .is_some_and(|child| child.kind() == LatexSyntaxKind::ItemCurly)
             })
-            .expect("\\includegraphics command must have one argument");
+            .ok_or_else(|| "\\includegraphics command must have one argument".to_owned())?;
         // remove { and } then trim
         let body = arg.text().to_string();
-        let body = &body[1..(body.len() - 1)];
+        let body = strip_braces(&body);
         let body = body.trim();
         f.write_str("#image(")?;
         // optional arguments
@@ -1016,7 +1022,7 @@ impl Converter {
                     let arg = cmd
                         .arguments()
                         .next()
-                        .expect("\\caption command must have one argument");
+                        .ok_or_else(|| "\\caption command must have one argument".to_owned())?;
                     caption = Some(arg);
                 }
             }
@@ -1062,10 +1068,10 @@ impl Converter {
         let arg = env
             .arguments()
             .next()
-            .expect("tabular environment must have one argument");
+            .ok_or_else(|| "tabular environment must have one argument".to_owned())?;
         let arg = arg.text().to_string();
         // remove { and } then trim
-        let arg = &arg[1..(arg.len() - 1)];
+        let arg = strip_braces(&arg);
         let arg = arg.trim();
         // split arg to get alignments and vertical lines
         let mut alignments: Vec<char> = vec![];
-- 
2.43.0


From 82e2422d50093c6802b2b8d678e541b5d38f3cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 02/34] fix: a macro definition may end in a hash

---
 crates/mitex-lexer/src/macro_engine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 64e5ba9..950ab08 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -954,7 +954,9 @@ impl<'a> MacroEngine<'a> {
         let mut empty_texts = false;
         for i in 0..def.len() {
             if def[i].0 == Token::Hash {
-                let next = def.get_mut(i + 1).unwrap();
+                let Some(next) = def.get_mut(i + 1) else {
+                    break;
+                };
                 if next.0 == Token::Word {
                     let Some(first_char) = next.1.chars().next() else {
                         continue;
-- 
2.43.0


From 7035f08aa5330ffef436f5d9b735a04912afd740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 03/34] fix: ignore a macro definition whose name is an
 environment clause

---
 crates/mitex-lexer/src/macro_engine.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 950ab08..59bfad1 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -672,8 +672,7 @@ impl<'a> MacroEngine<'a> {
         } else {
             ctx.peek_cmd_name_opt(BraceKind::Curly)?
                 .1
-                .strip_prefix('\\')
-                .unwrap()
+                .strip_prefix('\\')?
         };
 
         #[derive(Clone, Copy, PartialEq)]
-- 
2.43.0


From 8b1e437e527db15b3ed9b1fd2d9b5d996dfb2efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 04/34] fix: a command used as a script must not wrap the items
 before it

---
 crates/mitex-parser/src/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 063f13a..2638dd3 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -812,7 +812,14 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
 
         if has_script {
             self.trivia();
+
+            // The script is a list of one item, which must not wrap any item before
+            // it (e.g. by `\over` or `\limits`)
+            let parent_state = self.list_state;
+            self.list_state = ListState::new(parent_state.scope);
+            self.list_state.store_start(self.builder.checkpoint());
             self.content(false);
+            self.list_state = parent_state;
         }
 
         self.builder.finish_node();
-- 
2.43.0


From 7689c4764a1f22a2b703808fc9d5b5df4ff56bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 05/34] fix: a comment inside an environment clause shifted the
 name and the rest of the input

---
 crates/mitex-lexer/src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/token.rs b/crates/mitex-lexer/src/token.rs
index e5bf6d8..0531332 100644
--- a/crates/mitex-lexer/src/token.rs
+++ b/crates/mitex-lexer/src/token.rs
@@ -374,10 +374,10 @@ fn lex_begin_end(lexer: &mut logos::Lexer<Token>, is_begin: bool) -> CommandName
                 if c == '%' {
                     self.collected += c.len_utf8();
                     for c in self.chars.by_ref() {
+                        self.collected += c.len_utf8();
                         if c == '\n' || c == '\r' {
                             break;
                         }
-                        self.collected += c.len_utf8();
                     }
                     continue;
                 }
-- 
2.43.0


From 5315f94b3f02f35cf9e9ec1b69eb1821a132f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 06/34] fix: bare characters taken as macro arguments were
 counted once too often

---
 crates/mitex-lexer/src/macro_engine.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 59bfad1..303228a 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -803,6 +803,8 @@ impl<'a> MacroEngine<'a> {
                     if num_of_read == num_args {
                         break;
                     }
+                    // the characters have been counted already
+                    continue;
                 }
                 Some(_) => {
                     args.push(vec![ctx.peek_full().unwrap()]);
-- 
2.43.0


From 41d44a7306b1b11a4bf29952c61bfc63581e2217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:20 +0000
Subject: [PATCH 07/34] fix: allow blanks and comments between the parts of a
 macro definition

---
 crates/mitex-lexer/src/macro_engine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 303228a..8de5b41 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -688,7 +688,7 @@ impl<'a> MacroEngine<'a> {
         let mut opt = None;
         let def;
         'match_loop: loop {
-            let nx = ctx.peek()?;
+            let nx = ctx.peek_not_trivia()?;
 
             match (state, nx) {
                 (MatchState::NArgs, Token::Left(BraceKind::Bracket)) => {
@@ -729,7 +729,7 @@ impl<'a> MacroEngine<'a> {
             DeclareCmdOrEnv::NewEnvironment { renew, star: _ } => {
                 is_env = true;
 
-                if matches!(ctx.peek()?, Token::Left(BraceKind::Curly)) {
+                if matches!(ctx.peek_not_trivia()?, Token::Left(BraceKind::Curly)) {
                     ctx.next_token();
                     end_def = Some(ctx.read_until_balanced(BraceKind::Curly));
                 }
-- 
2.43.0


From 947eb75c145e0fe8673a6efb082cee787b3c143b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:07 +0000
Subject: [PATCH 08/34] fix: \else of a nested conditional inside a skipped
 branch closed the conditional

---
 crates/mitex-lexer/src/macro_engine.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 8de5b41..d57cf5e 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -454,10 +454,12 @@ impl<'a> MacroEngine<'a> {
                     ctx.next_token();
                     nested += 1;
                 }
-                Token::CommandName(CommandName::Else) | Token::CommandName(CommandName::EndIf) => {
-                    if nested == 0 {
-                        break;
-                    }
+                Token::CommandName(CommandName::Else) | Token::CommandName(CommandName::EndIf)
+                    if nested == 0 =>
+                {
+                    break;
+                }
+                Token::CommandName(CommandName::EndIf) => {
                     ctx.next_token();
                     nested -= 1;
                 }
-- 
2.43.0


From 8bec95585f9c816a8d8f4046f9c64a2a3eea116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 09/34] fix: a specification given by the caller governs the
 conversion too

---
 crates/mitex/src/converter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 649a32b..910481a 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1221,7 +1221,8 @@ pub fn convert_inner(
     spec: Option<CommandSpec>,
     do_parse: fn(input: &str, spec: CommandSpec) -> SyntaxNode,
 ) -> Result<String, String> {
-    let node = do_parse(input, spec.unwrap_or_else(|| DEFAULT_SPEC.clone()));
+    let spec = spec.unwrap_or_else(|| DEFAULT_SPEC.clone());
+    let node = do_parse(input, spec.clone());
     // println!("{:#?}", node);
     // println!("{:#?}", node.text());
     let mut output = String::new();
@@ -1230,7 +1231,7 @@ pub fn convert_inner(
     let repr = TypstRepr {
         elem: LatexSyntaxElem::Node(node),
         mode,
-        spec: DEFAULT_SPEC.clone(),
+        spec,
         error: err.clone(),
     };
     core::fmt::write(&mut output, format_args!("{}", repr)).map_err(|_| err.borrow().to_owned())?;
-- 
2.43.0


From 8d6abaf2669086752b9d1975c0e9d443ddfe2eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 10/34] fix: a comma as an argument or script must not take the
 following text along

---
 crates/mitex-parser/src/parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 2638dd3..9960bec 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -411,7 +411,15 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                     self.single_char();
                 }
             }
-            Token::Comma => self.text(),
+            Token::Comma => {
+                if not_prefer_single_char {
+                    self.text()
+                } else {
+                    self.builder.start_node(ItemText.into());
+                    self.eat();
+                    self.builder.finish_node();
+                }
+            }
             Token::Dollar => {
                 self.item_group(ParseScope::DollarFormula);
                 return false;
@@ -770,7 +778,7 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                         // Otherwise, whether it is right does not matter
                         current = Some(self.builder.checkpoint());
                     }
-                    let attachable = arg::<GREEDY, _, _>(self, |this| this.content(true));
+                    let attachable = arg::<GREEDY, _, _>(self, |this| this.content(GREEDY));
                     if !k_wrap_args!() && attachable {
                         self.list_state.may_store_last(current);
                     }
-- 
2.43.0


From 0555a66c46d075a93b2493c37221cbb31870e1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 11/34] fix: close the last cell of a tabular without a final
 newline command

---
 crates/mitex/src/converter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 910481a..a4beaac 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1190,6 +1190,10 @@ impl Converter {
                 }
             }
         }
+        // the last row may lack its newline
+        if !exterior {
+            f.write_str("],\n")?;
+        }
         f.write_str(");")?;
         self.exit_env(prev);
         Ok(())
-- 
2.43.0


From 36fd5149345b5d7e628431ee41bd875f6fd72f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 12/34] fix: a label belongs to the environment or formula it
 is written in

---
 crates/mitex/src/converter.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index a4beaac..ab874ec 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -321,6 +321,7 @@ impl Converter {
                 f.write_str("$ ")?;
             }
         }
+        let outer_label = self.label.take();
         let prev = self.enter_mode(LaTeXMode::Math);
         for child in elem.as_node().unwrap().children_with_tokens() {
             self.convert(f, child, spec)?;
@@ -333,7 +334,7 @@ impl Converter {
                 f.write_str(" $")?;
             }
         }
-        Ok(())
+        self.write_label(f, outer_label)
     }
 
     /// Convert curly group like `{abc}`
@@ -885,6 +886,9 @@ impl Converter {
             return Ok(());
         }
 
+        // a label set so far belongs to the enclosing environment
+        let outer_label = self.label.take();
+
         // is environment for math
         let is_math_env = matches!(
             env_kind,
@@ -973,15 +977,24 @@ impl Converter {
             }
         }
 
-        // handle label, only add <label> for text mode
+        self.write_label(f, outer_label)
+    }
+
+    /// Handle label, only add <label> for text mode
+    fn write_label(
+        &mut self,
+        f: &mut fmt::Formatter<'_>,
+        outer_label: Option<String>,
+    ) -> Result<(), ConvertError> {
         if matches!(self.mode, LaTeXMode::Text) {
             if let Some(label) = self.label.take() {
                 f.write_char('<')?;
                 f.write_str(label.as_str())?;
                 f.write_char('>')?;
-                self.label = None;
             }
         }
+        // the outer label is still to be written by the item it belongs to
+        self.label = self.label.take().or(outer_label);
 
         Ok(())
     }
-- 
2.43.0


From e31d147fec17923d827fd1d840e0ea5530c8af8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 13/34] fix: a group that holds nothing but comments is empty

---
 crates/mitex/src/converter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index ab874ec..8b3669b 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -357,7 +357,8 @@ impl Converter {
         let mut zws = true;
         for child in elem.as_node().unwrap().children_with_tokens() {
             match &child.kind() {
-                TokenWhiteSpace | TokenLineBreak | TokenLBrace | TokenRBrace => {}
+                TokenWhiteSpace | TokenLineBreak | TokenComment | ItemBlockComment
+                | TokenLBrace | TokenRBrace => {}
                 _ => {
                     zws = false;
                 }
-- 
2.43.0


From e834164b34b93c6350f195eac8f834b1a89b1edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 14/34] fix: a script in a new cell or row must not attach to
 the one before

---
 crates/mitex-parser/src/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 9960bec..a75d368 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -372,9 +372,13 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
             return true;
         };
         match c {
-            Token::Ampersand
-            | Token::NewLine
-            | Token::LineBreak
+            Token::Ampersand | Token::NewLine => {
+                self.eat();
+                // A script in a new cell or row has no base
+                self.list_state.may_store_last(None);
+                return false;
+            }
+            Token::LineBreak
             | Token::Whitespace
             | Token::LineComment
             | Token::Hash
-- 
2.43.0


From 790b03a241ed49a9b398549db7b560503cc2c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 15/34] fix: an infix command must not reach back over earlier
 cells and rows

---
 crates/mitex-parser/src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index a75d368..7b8b4e6 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -376,6 +376,12 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                 self.eat();
                 // A script in a new cell or row has no base
                 self.list_state.may_store_last(None);
+                // An infix command reaches back to the start of its cell, as its right
+                // side ends with it
+                if c == Token::Ampersand || self.inside_env() {
+                    let current = self.builder.checkpoint();
+                    self.list_state.store_start(current);
+                }
                 return false;
             }
             Token::LineBreak
-- 
2.43.0


From 51b506a0c75a103088b1634c45d33f747dfe93dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:19 +0000
Subject: [PATCH 16/34] fix: an image as wide as the text has no factor to
 multiply with

---
 crates/mitex/src/converter.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 8b3669b..4f320b2 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -575,12 +575,18 @@ impl Converter {
                     f.write_char(' ')?;
                     if value.ends_with("\\textwidth") {
                         let value = value.trim_end_matches("\\textwidth");
-                        f.write_str(value)?;
-                        f.write_str(" * 100%")?;
+                        if !value.is_empty() {
+                            f.write_str(value)?;
+                            f.write_str(" * ")?;
+                        }
+                        f.write_str("100%")?;
                     } else if value.ends_with("\\textheight") {
                         let value = value.trim_end_matches("\\textheight");
-                        f.write_str(value)?;
-                        f.write_str(" * 100%")?;
+                        if !value.is_empty() {
+                            f.write_str(value)?;
+                            f.write_str(" * ")?;
+                        }
+                        f.write_str("100%")?;
                     } else {
                         f.write_str(value)?;
                     }
-- 
2.43.0


From 435e0eb0db6e41574ff9d2f2db1f9d47d8a68891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:23 +0000
Subject: [PATCH 17/34] fix: a comment before a rule or cell of a tabular must
 not open a cell

---
 crates/mitex/src/converter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 4f320b2..f1da3ec 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1149,7 +1149,10 @@ impl Converter {
             // preprocess if exterior
             if exterior {
                 match child.kind() {
-                    LatexSyntaxKind::TokenWhiteSpace | LatexSyntaxKind::TokenLineBreak => {}
+                    LatexSyntaxKind::TokenWhiteSpace
+                    | LatexSyntaxKind::TokenLineBreak
+                    | LatexSyntaxKind::TokenComment
+                    | LatexSyntaxKind::ItemBlockComment => {}
                     LatexSyntaxKind::TokenAmpersand => {
                         // write `[],` for empty exterior when encountering &
                         f.write_str("[], ")?;
-- 
2.43.0


From 8e9abdd4e113d07e9c29c9508cc35233ab453d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:13 +0000
Subject: [PATCH 18/34] fix: a line break before \end must not swallow the
 blank behind it

---
 crates/mitex/src/converter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index f1da3ec..5dfce7e 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -984,6 +984,8 @@ impl Converter {
             }
         }
 
+        // a line break at the end of the body has no say in the blanks behind \end
+        self.skip_next_space = false;
         self.write_label(f, outer_label)
     }
 
-- 
2.43.0


From 77fe786a228fdabe2f04f5dfae7dd0c0325b34ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:15 +0000
Subject: [PATCH 19/34] fix: an environment whose arguments are greedy must not
 panic

---
 crates/mitex-parser/src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 7b8b4e6..763033a 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -573,7 +573,13 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
             let searcher = right_pat.map(|right_pat| self.arg_matchers.start_match(right_pat));
 
             if let Some(searcher) = searcher {
-                self.match_arguments::<false>(searcher);
+                if searcher.is_greedy() {
+                    self.builder.start_node(ClauseArgument.into());
+                    self.match_arguments::<true>(searcher);
+                    self.builder.finish_node();
+                } else {
+                    self.match_arguments::<false>(searcher);
+                }
             }
 
             self.builder.finish_node();
-- 
2.43.0


From 7bce716156f0b39ee0d0893094ecd681e27c2caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:19 +0000
Subject: [PATCH 20/34] fix: committing a snapshot of a map written to before
 it must not panic

---
 crates/mitex-lexer/src/snapshot_map.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/mitex-lexer/src/snapshot_map.rs b/crates/mitex-lexer/src/snapshot_map.rs
index 60134a0..437dd98 100644
--- a/crates/mitex-lexer/src/snapshot_map.rs
+++ b/crates/mitex-lexer/src/snapshot_map.rs
@@ -73,11 +73,11 @@ where
     pub fn insert(&mut self, key: K, value: V) -> bool {
         match self.map.borrow_mut().insert(key.clone(), value) {
             None => {
-                self.undo_log.push(UndoLog::Inserted(key));
+                self.log(UndoLog::Inserted(key));
                 true
             }
             Some(old_value) => {
-                self.undo_log.push(UndoLog::Overwrite(key, old_value));
+                self.log(UndoLog::Overwrite(key, old_value));
                 false
             }
         }
@@ -86,13 +86,20 @@ where
     pub fn remove(&mut self, key: K) -> bool {
         match self.map.borrow_mut().remove(&key) {
             Some(old_value) => {
-                self.undo_log.push(UndoLog::Overwrite(key, old_value));
+                self.log(UndoLog::Overwrite(key, old_value));
                 true
             }
             None => false,
         }
     }
 
+    /// Without an open snapshot there is nothing to roll back to
+    fn log(&mut self, undo: UndoLog<K, V>) {
+        if self.undo_log.in_snapshot() {
+            self.undo_log.push(undo);
+        }
+    }
+
     pub fn get<Q>(&self, k: &Q) -> Option<&V>
     where
         K: Borrow<Q>,
-- 
2.43.0


From e62d621ec455c51b8f1390e09d7386c07fe75227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:43 +0000
Subject: [PATCH 21/34] fix: \color under a specification that gives it no
 argument must not panic

---
 crates/mitex/src/converter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 5dfce7e..8d341f3 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -621,7 +621,10 @@ impl Converter {
 
         // Parse arguments: (model, color, body)
         let (model, color, body) = if cmd_name == "\\color" {
-            let root = cmd.arguments().next().expect("greedy cmd has args");
+            let root = cmd
+                .arguments()
+                .next()
+                .ok_or_else(|| "\\color command must have one argument".to_owned())?;
             let mut iter = root.children_with_tokens().peekable();
 
             // Skip trivia
-- 
2.43.0


From cc6a64f5bf5984d51eee266d8bb9952b91d9dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:46 +0000
Subject: [PATCH 22/34] fix: the default output of compile must not be its
 input

---
 crates/mitex-cli/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-cli/src/lib.rs b/crates/mitex-cli/src/lib.rs
index d961afb..e51b134 100644
--- a/crates/mitex-cli/src/lib.rs
+++ b/crates/mitex-cli/src/lib.rs
@@ -227,7 +227,7 @@ fn process_opts(mut opts: Opts) -> Result<Opts, clap::Error> {
         }
         if args.output.is_empty() {
             std::path::Path::new(&args.input)
-                .with_extension("tex")
+                .with_extension("typ")
                 .to_str()
                 .ok_or_else(|| {
                     clap::Error::raw(
-- 
2.43.0


From 60e1d1849f89e8c4a9a3a583211d82d8567e02a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:50 +0000
Subject: [PATCH 23/34] hook: expose how compile chooses its input and output
 to verification builds

---
 crates/mitex-cli/src/lib.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/crates/mitex-cli/src/lib.rs b/crates/mitex-cli/src/lib.rs
index e51b134..26cfd95 100644
--- a/crates/mitex-cli/src/lib.rs
+++ b/crates/mitex-cli/src/lib.rs
@@ -1,5 +1,8 @@
 //! The CLI for MiTeX.
 
+// `mitex_verif` is set by verification builds only
+#![allow(unexpected_cfgs)]
+
 pub mod utils;
 mod version;
 
@@ -242,6 +245,33 @@ fn process_opts(mut opts: Opts) -> Result<Opts, clap::Error> {
     Ok(opts)
 }
 
+/// Input and output of `compile` for given named and positional arguments.
+///
+/// # Errors
+/// Errors if the command line arguments are invalid.
+#[cfg(mitex_verif)]
+pub fn verif_compile_paths(
+    input: &str,
+    output: &str,
+    positional: &[&str],
+) -> Result<(String, String), clap::Error> {
+    let args = CompileArgs {
+        input: input.to_owned(),
+        output: output.to_owned(),
+        _i_or_o_args: positional.iter().map(|x| (*x).to_owned()).collect(),
+        ..CompileArgs::default()
+    };
+    let opts = process_opts(Opts {
+        version: false,
+        vv: VersionFormat::None,
+        sub: Some(Subcommands::Compile(args)),
+    })?;
+    match opts.sub {
+        Some(Subcommands::Compile(args)) => Ok((args.input, args.output)),
+        _ => unreachable!(),
+    }
+}
+
 /// Get CLI options from command line arguments.
 ///
 /// # Errors
-- 
2.43.0


From 055f50afcbffc9cf7361a36c3312d49b5630e20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 24/34] hook: expose compile to verification builds

---
 crates/mitex-cli/src/main.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/mitex-cli/src/main.rs b/crates/mitex-cli/src/main.rs
index 1473539..bb2c19b 100644
--- a/crates/mitex-cli/src/main.rs
+++ b/crates/mitex-cli/src/main.rs
@@ -131,6 +131,16 @@ fn compile(input_path: &str, output_path: &str, is_ast: bool) -> Result<(), Erro
     Ok(())
 }
 
+/// [`compile`] for checks of the file it writes.
+///
+/// # Errors
+/// Errors as `mitex compile` does.
+#[cfg(mitex_verif)]
+#[allow(dead_code)]
+pub fn verif_compile(input_path: &str, output_path: &str, is_ast: bool) -> Result<(), Error> {
+    compile(input_path, output_path, is_ast)
+}
+
 fn generate() {
     // typst query --root . .\packages\latex-spec\mod.typ "<mitex-packages>"
     let project_root = std::env::var("CARGO_MANIFEST_DIR").unwrap();
-- 
2.43.0


From 5a0438fb028d62b94e06f0fa225d5014c6923d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:04 +0000
Subject: [PATCH 25/34] fix: compile must say why it cannot convert a file

---
 crates/mitex-cli/src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-cli/src/utils.rs b/crates/mitex-cli/src/utils.rs
index 8fd0bdb..0c1be1f 100644
--- a/crates/mitex-cli/src/utils.rs
+++ b/crates/mitex-cli/src/utils.rs
@@ -31,7 +31,8 @@ impl From<&str> for Error {
 
 impl From<anyhow::Error> for Error {
     fn from(err: anyhow::Error) -> Self {
-        Self(err.to_string().into_boxed_str())
+        // with its causes, as the context alone does not say what is wrong
+        Self(format!("{err:#}").into_boxed_str())
     }
 }
 
-- 
2.43.0


From 09a861ea65d85d40a0ec4997e07f0d7f583422b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:51 +0000
Subject: [PATCH 26/34] fix: text words must escape what starts raw text,
 labels, headings and lists in Typst

---
 crates/mitex/src/converter.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 8d341f3..79f36d0 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -180,8 +180,14 @@ impl Converter {
                         f.write_char(' ')?;
                     }
                 } else {
-                    // write the word directly in text mode
-                    f.write_str(elem.as_token().unwrap().text())?;
+                    // write the word directly in text mode, except for the characters that
+                    // start raw text, labels, headings and lists in Typst
+                    for c in elem.as_token().unwrap().text().chars() {
+                        if matches!(c, '`' | '<' | '=' | '+') {
+                            f.write_char('\\')?;
+                        }
+                        f.write_char(c)?;
+                    }
                 }
             }
             // do nothing
-- 
2.43.0


From 82335cfaa7c0b8a2c6a937c0d063db312b2f1c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:59 +0000
Subject: [PATCH 27/34] fix: comments and blanks in labels, paths, options,
 colour models and column specifications are not part of them

---
 crates/mitex/src/converter.rs | 53 ++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 79f36d0..a6dd4da 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -132,6 +132,32 @@ fn strip_braces(arg: &str) -> &str {
     }
 }
 
+/// The text of (a part of) an argument that is read as it stands, like a label
+/// or a path, without the comments in it and the line breaks and blanks behind
+/// them
+fn plain_text(elems: impl Iterator<Item = LatexSyntaxElem>) -> String {
+    fn collect(elem: LatexSyntaxElem, text: &mut String, after_comment: &mut bool) {
+        match elem {
+            LatexSyntaxElem::Node(n) if n.kind() == LatexSyntaxKind::ItemBlockComment => {}
+            LatexSyntaxElem::Node(n) => n
+                .children_with_tokens()
+                .for_each(|child| collect(child, text, after_comment)),
+            LatexSyntaxElem::Token(t) if t.kind() == LatexSyntaxKind::TokenComment => {
+                *after_comment = true;
+            }
+            LatexSyntaxElem::Token(t) if *after_comment && t.kind().is_trivia() => {}
+            LatexSyntaxElem::Token(t) => {
+                *after_comment = false;
+                text.push_str(t.text());
+            }
+        }
+    }
+
+    let (mut text, mut after_comment) = (String::new(), false);
+    elems.for_each(|elem| collect(elem, &mut text, &mut after_comment));
+    text
+}
+
 impl Converter {
     fn convert(
         &mut self,
@@ -515,7 +541,7 @@ impl Converter {
             .next()
             .ok_or_else(|| "\\label command must have one argument".to_owned())?;
         // remove { and } then trim
-        let label = arg.text().to_string();
+        let label = plain_text(arg.children_with_tokens());
         let label = strip_braces(&label);
         let label = label.trim();
         match self.env {
@@ -551,13 +577,13 @@ impl Converter {
             })
             .ok_or_else(|| "\\includegraphics command must have one argument".to_owned())?;
         // remove { and } then trim
-        let body = arg.text().to_string();
+        let body = plain_text(arg.children_with_tokens());
         let body = strip_braces(&body);
         let body = body.trim();
         f.write_str("#image(")?;
         // optional arguments
         if let Some(opt_arg) = opt_arg {
-            let arg_text = opt_arg.text().to_string();
+            let arg_text = plain_text(opt_arg.children_with_tokens());
             let arg_text = &arg_text[1..(arg_text.len() - 1)];
             let arg_text = arg_text.trim();
             // example: \includegraphics[width=0.5\textwidth, height=3cm,
@@ -646,19 +672,12 @@ impl Converter {
                 .is_some_and(|e| e.kind() == LatexSyntaxKind::TokenLBracket)
             {
                 iter.next(); // Eat '['
-                let mut s = String::new();
                 // Collect text until ']'
                 // Use by_ref() to keep the iterator alive for subsequent use
-                for e in iter.by_ref() {
-                    if e.kind() == LatexSyntaxKind::TokenRBracket {
-                        break;
-                    }
-                    match e {
-                        LatexSyntaxElem::Node(n) => s.push_str(&n.text().to_string()),
-                        LatexSyntaxElem::Token(t) => s.push_str(t.text()),
-                    }
-                }
-                Some(s)
+                let model = iter
+                    .by_ref()
+                    .take_while(|e| e.kind() != LatexSyntaxKind::TokenRBracket);
+                Some(plain_text(model))
             } else {
                 None
             };
@@ -680,7 +699,7 @@ impl Converter {
             });
 
             if is_model {
-                let text = first.unwrap().text().to_string();
+                let text = plain_text(first.unwrap().children_with_tokens());
                 // Remove brackets safely
                 let model = text.get(1..text.len() - 1).map(String::from);
                 (
@@ -1100,7 +1119,7 @@ impl Converter {
             .arguments()
             .next()
             .ok_or_else(|| "tabular environment must have one argument".to_owned())?;
-        let arg = arg.text().to_string();
+        let arg = plain_text(arg.children_with_tokens());
         // remove { and } then trim
         let arg = strip_braces(&arg);
         let arg = arg.trim();
@@ -1108,7 +1127,7 @@ impl Converter {
         let mut alignments: Vec<char> = vec![];
         let mut vlines: Vec<usize> = vec![];
         let mut index = 0;
-        for ch in arg.chars() {
+        for ch in arg.chars().filter(|ch| !ch.is_whitespace()) {
             match ch {
                 'l' | 'c' | 'r' => {
                     alignments.push(ch);
-- 
2.43.0


From efb864aa5b84cf6a3d644b52b643e017cf36cae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:59 +0000
Subject: [PATCH 28/34] fix: \DeclareRobustCommand must redefine a command that
 is there

---
 crates/mitex-lexer/src/macro_engine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index d57cf5e..4fcf5ad 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -328,6 +328,7 @@ enum UpdateAction {
     New,
     Renew,
     Provide,
+    Declare,
 }
 
 #[derive(Clone, Copy, PartialEq)]
@@ -592,6 +593,8 @@ impl<'a> MacroEngine<'a> {
                             self.add_macro(name, m);
                         }
                     }
+                    // redefines a command that is there already
+                    UpdateAction::Declare => self.add_macro(name, m),
                 }
 
                 None
@@ -726,7 +729,7 @@ impl<'a> MacroEngine<'a> {
                     UpdateAction::New
                 }
             }
-            DeclareCmdOrEnv::DeclareRobustCommand { star: _ } => UpdateAction::New,
+            DeclareCmdOrEnv::DeclareRobustCommand { star: _ } => UpdateAction::Declare,
             DeclareCmdOrEnv::ProvideCommand { star: _ } => UpdateAction::Provide,
             DeclareCmdOrEnv::NewEnvironment { renew, star: _ } => {
                 is_env = true;
-- 
2.43.0


From 72ce6854c6e8ff10867bba756eceac15db0a9304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:21 +0000
Subject: [PATCH 29/34] fix: commands with 255 arguments must not overflow the
 argument counter

---
 crates/mitex-parser/src/arg_match.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-parser/src/arg_match.rs b/crates/mitex-parser/src/arg_match.rs
index cc96df1..3dfddea 100644
--- a/crates/mitex-parser/src/arg_match.rs
+++ b/crates/mitex-parser/src/arg_match.rs
@@ -65,7 +65,10 @@ impl ArgMatcher {
                     return false;
                 }
                 let ct = *counter < *max;
-                *counter += 1;
+                // not beyond `max`, which may be the largest number there is
+                if ct {
+                    *counter += 1;
+                }
                 ct
             }
             Self::Glob { ref re, prefix } => {
-- 
2.43.0


From 8e621c4d339f86c1173d643f071ecce1116b40f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:04 +0000
Subject: [PATCH 30/34] fix: colour commands the given specification does not
 hold must be refused

---
 crates/mitex/src/converter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index a6dd4da..13caedd 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -646,9 +646,12 @@ impl Converter {
             .name_tok()
             .map(|t| t.text().to_string())
             .unwrap_or_default();
+        let name = cmd_name.strip_prefix('\\').unwrap_or("");
         let alias = spec
-            .get_cmd(cmd_name.strip_prefix('\\').unwrap_or(""))
-            .and_then(|s| s.alias.as_deref())
+            .get_cmd(name)
+            .ok_or_else(|| format!("unknown command: \\{}", name))?
+            .alias
+            .as_deref()
             .unwrap_or("mitexcolor");
 
         // Parse arguments: (model, color, body)
-- 
2.43.0


From 18c09a4478c1d488ace41d67b896c28cfd5c748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:26 +0000
Subject: [PATCH 31/34] fix: a prefix match must hold wherever the text ends in
 the pattern, nested braces included

---
 crates/mitex-glob/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/mitex-glob/src/lib.rs b/crates/mitex-glob/src/lib.rs
index 0721bd7..bb692b4 100644
--- a/crates/mitex-glob/src/lib.rs
+++ b/crates/mitex-glob/src/lib.rs
@@ -73,6 +73,11 @@ fn glob_match_internal<'a>(
   }
 
   while state.glob_index < glob.len() || state.path_index < path.len() {
+    // The whole path is matched, which is all a prefix match asks for, wherever it ends in the pattern.
+    if is_prefix && state.path_index == path.len() {
+      return !negated;
+    }
+
     if state.glob_index < glob.len() {
       match glob[state.glob_index] {
         b'*' => {
-- 
2.43.0


From 390ebb3032cd72976ac030408d70e534561f5673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:26 +0000
Subject: [PATCH 32/34] fix: an environment macro that is never closed must not
 drop the rest of the document

---
 crates/mitex-lexer/src/macro_engine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 4fcf5ad..b73875b 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -848,7 +848,10 @@ impl<'a> MacroEngine<'a> {
         let mut bc = 0;
         let mut body = Vec::new();
         loop {
-            let e = ctx.peek_full()?;
+            let Some(e) = ctx.peek_full() else {
+                ctx.push_outer((Token::Error, "unmatched environment"));
+                return None;
+            };
             if e.0 == Token::CommandName(CommandName::EndEnvironment) {
                 if bc == 0 {
                     if e.1 != name {
-- 
2.43.0


From 4ef8fb12f7d0e36e0550441f2f65e51e8ba1e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:26 +0000
Subject: [PATCH 33/34] fix: \renewcommand and \providecommand must see the
 commands of the specification

---
 crates/mitex-lexer/src/macro_engine.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index b73875b..157d45b 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -582,14 +582,14 @@ impl<'a> MacroEngine<'a> {
                         self.add_macro(name, m);
                     }
                     UpdateAction::Renew => {
-                        if self.get_macro(name).is_none() {
+                        if !self.is_defined(name) {
                             ctx.push_outer((Token::Error, name));
                         }
 
                         self.add_macro(name, m);
                     }
                     UpdateAction::Provide => {
-                        if self.get_macro(name).is_none() {
+                        if !self.is_defined(name) {
                             self.add_macro(name, m);
                         }
                     }
@@ -953,6 +953,11 @@ impl<'a> MacroEngine<'a> {
         self.macros.to_mut().rollback_to(snapshot);
     }
 
+    /// Whether a name is there already, as a macro or in the specification
+    fn is_defined(&self, name: &str) -> bool {
+        self.get_macro(name).is_some() || self.spec.get(name).is_some()
+    }
+
     /// Peek the next token and its text
     pub fn add_macro(&mut self, name: &'a str, value: Macro<'a>) {
         self.macros.to_mut().insert(name, value);
-- 
2.43.0


From 1d158de43d40c1f283c0c978866c25674ee144c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:42 +0000
Subject: [PATCH 34/34] fix: macros in the branch \iffalse skips must not be
 defined or expanded

---
 crates/mitex-lexer/src/macro_engine.rs | 48 ++++++++++++++------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 157d45b..ded6c8f 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -446,28 +446,31 @@ impl<'a> MacroEngine<'a> {
         ctx.peek_outer.peeked = ctx.peek_outer.buf.pop();
     }
 
-    /// Skip tokens until a balanced \fi
-    fn skip_false_tokens(&mut self, ctx: &mut StreamContext<'a>) {
-        let mut nested = 0;
-        while let Some(kind) = ctx.peek() {
-            match kind {
-                Token::CommandName(CommandName::If(..)) => {
-                    ctx.next_token();
-                    nested += 1;
-                }
-                Token::CommandName(CommandName::Else) | Token::CommandName(CommandName::EndIf)
-                    if nested == 0 =>
-                {
-                    break;
-                }
-                Token::CommandName(CommandName::EndIf) => {
-                    ctx.next_token();
-                    nested -= 1;
-                }
-                _ => {
-                    ctx.next_token();
+    /// Skip tokens until a balanced \else or \fi, macros among them have no
+    /// effect. They are kept as the content of a comment if `keep` is set
+    fn skip_false_tokens(&mut self, ctx: &mut StreamContext<'a>, keep: bool) {
+        // Whether the nested conditionals are shown to the parser
+        let mut nested = Vec::new();
+        while let Some(token) = ctx.peek_full() {
+            let shown = match token.0 {
+                Token::CommandName(CommandName::If(i)) => {
+                    nested.push(i != IfCommandName::IfTrue);
+                    i != IfCommandName::IfTrue
                 }
+                Token::CommandName(CommandName::Else) => match nested.last() {
+                    Some(shown) => *shown,
+                    None => break,
+                },
+                Token::CommandName(CommandName::EndIf) => match nested.pop() {
+                    Some(shown) => shown,
+                    None => break,
+                },
+                _ => true,
+            };
+            if keep && shown {
+                ctx.push_outer(token);
             }
+            ctx.next_token();
         }
     }
 
@@ -479,6 +482,7 @@ impl<'a> MacroEngine<'a> {
             IfCommandName::IfFalse => {
                 ctx.push_outer(token);
                 self.reading_if.push(Some(IfState::LitFalse));
+                self.skip_false_tokens(ctx, true);
             }
             IfCommandName::IfTrue => {
                 self.reading_if.push(Some(IfState::True));
@@ -505,11 +509,11 @@ impl<'a> MacroEngine<'a> {
                     .last_mut()
                     .unwrap()
                     .replace(IfState::TypstFalse);
-                self.skip_false_tokens(ctx);
+                self.skip_false_tokens(ctx, false);
             }
             Some(IfState::True) => {
                 self.reading_if.last_mut().unwrap().replace(IfState::False);
-                self.skip_false_tokens(ctx);
+                self.skip_false_tokens(ctx, false);
             }
             Some(IfState::False) => {
                 self.reading_if.last_mut().unwrap().replace(IfState::True);
-- 
2.43.0

