From f3af681613e5e604ecb23c39494b7791b21597e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 01/56] fix: do not panic on a macro body that ends with a hash

---
 crates/mitex-lexer/src/macro_engine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 64e5ba9..950ab08 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -954,7 +954,9 @@ impl<'a> MacroEngine<'a> {
         let mut empty_texts = false;
         for i in 0..def.len() {
             if def[i].0 == Token::Hash {
-                let next = def.get_mut(i + 1).unwrap();
+                let Some(next) = def.get_mut(i + 1) else {
+                    break;
+                };
                 if next.0 == Token::Word {
                     let Some(first_char) = next.1.chars().next() else {
                         continue;
-- 
2.43.0


From 1dd7443e955c94c1b7408152e232aa8a52873d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 02/56] fix: do not panic when an environment clause stands in
 for the macro name

---
 crates/mitex-lexer/src/macro_engine.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 950ab08..59bfad1 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -672,8 +672,7 @@ impl<'a> MacroEngine<'a> {
         } else {
             ctx.peek_cmd_name_opt(BraceKind::Curly)?
                 .1
-                .strip_prefix('\\')
-                .unwrap()
+                .strip_prefix('\\')?
         };
 
         #[derive(Clone, Copy, PartialEq)]
-- 
2.43.0


From b7b38cd86dc920dc1974930397e1ff97ce3b7932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 03/56] fix: count the characters of a word once when reading
 macro arguments

---
 crates/mitex-lexer/src/macro_engine.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 59bfad1..255c161 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -803,6 +803,8 @@ impl<'a> MacroEngine<'a> {
                     if num_of_read == num_args {
                         break;
                     }
+                    // every character of the word has been counted already
+                    continue;
                 }
                 Some(_) => {
                     args.push(vec![ctx.peek_full().unwrap()]);
-- 
2.43.0


From 1abdb0b4ddf3003c92323bba3354849a3259c141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 04/56] fix: an else inside a skipped conditional does not
 close it

---
 crates/mitex-lexer/src/macro_engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 255c161..df6837b 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -454,7 +454,8 @@ impl<'a> MacroEngine<'a> {
                     ctx.next_token();
                     nested += 1;
                 }
-                Token::CommandName(CommandName::Else) | Token::CommandName(CommandName::EndIf) => {
+                Token::CommandName(CommandName::Else) if nested == 0 => break,
+                Token::CommandName(CommandName::EndIf) => {
                     if nested == 0 {
                         break;
                     }
-- 
2.43.0


From b8a75d00a669fa83cd6255e85ac363a2c4970679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 05/56] fix: report macros that expand to themselves instead of
 looping forever

---
 crates/mitex-lexer/src/macro_engine.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index df6837b..b5e41fc 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -359,8 +359,14 @@ pub struct MacroEngine<'a> {
     reading_if: Vec<Option<IfState>>,
     /// Toekns used by macro stack
     pub scanned_tokens: Vec<Tok<'a>>,
+    /// The number of tokens produced by macro expansion so far
+    expanded_tokens: usize,
 }
 
+/// The maximum number of tokens that macro expansion may produce. It is only
+/// reached by macros which (mutually) expand to themselves forever.
+const MAX_EXPANDED_TOKENS: usize = 1 << 20;
+
 impl<'a> TokenStream<'a> for MacroEngine<'a> {
     fn bump(&mut self, ctx: &mut StreamContext<'a>) {
         self.do_bump(ctx);
@@ -383,6 +389,7 @@ impl<'a> MacroEngine<'a> {
             reading_macro: Vec::new(),
             reading_if: Vec::new(),
             scanned_tokens: Vec::new(),
+            expanded_tokens: 0,
         }
     }
 
@@ -619,6 +626,9 @@ impl<'a> MacroEngine<'a> {
                 let args = Self::read_macro_args(ctx, cmd.num_args, cmd.opt.clone())?;
                 // Expand tokens by arguments
                 let expanded = Self::expand_tokens(&args, &cmd.def);
+                if !Self::check_expansion(&mut self.expanded_tokens, ctx, expanded.len()) {
+                    return None;
+                }
 
                 // Push the reversed tokens to inner stream
                 ctx.extend_inner(expanded.into_iter().rev());
@@ -638,6 +648,10 @@ impl<'a> MacroEngine<'a> {
                 let body = Self::read_env_body(ctx, &env.name)?;
                 let expanded_begin = Self::expand_tokens(&args, &env.begin_def);
                 let expanded_end = Self::expand_tokens(&args, &env.end_def);
+                let produced = expanded_begin.len() + body.len() + expanded_end.len();
+                if !Self::check_expansion(&mut self.expanded_tokens, ctx, produced) {
+                    return None;
+                }
 
                 ctx.extend_inner(
                     expanded_end
@@ -658,6 +672,18 @@ impl<'a> MacroEngine<'a> {
         }
     }
 
+    /// Account for the tokens produced by an expansion, raise a macro error (and
+    /// give up the expansion) if there are too many of them.
+    fn check_expansion(total: &mut usize, ctx: &mut StreamContext<'a>, produced: usize) -> bool {
+        *total += produced.max(1);
+        if *total > MAX_EXPANDED_TOKENS {
+            ctx.push_outer((Token::Error, "too many macro expansions"));
+            return false;
+        }
+
+        true
+    }
+
     fn identify_macro_update(
         ctx: &mut StreamContext<'a>,
         c: &DeclareCmdOrEnv,
-- 
2.43.0


From 2297bea8098bc0d9b42b3bef0616f5b7dea88375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 06/56] fix: report labels, captions, images and tables without
 their argument instead of panicking

---
 crates/mitex/src/converter.rs | 42 ++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 32cc3c0..9b862c0 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -495,11 +495,10 @@ impl Converter {
         let arg = cmd
             .arguments()
             .next()
-            .expect("\\label command must have one argument");
+            .ok_or_else(|| "\\label command must have one argument".to_owned())?;
         // remove { and } then trim
         let label = arg.text().to_string();
-        let label = &label[1..(label.len() - 1)];
-        let label = label.trim();
+        let label = strip_delimiters(&label, '{', '}').trim();
         match self.env {
             LaTeXEnv::None | LaTeXEnv::Itemize | LaTeXEnv::Enumerate => {
                 if matches!(self.mode, LaTeXMode::Text) {
@@ -522,30 +521,24 @@ impl Converter {
         cmd: &CmdItem,
     ) -> Result<(), ConvertError> {
         let opt_arg = cmd.arguments().find(|arg| {
-            matches!(
-                arg.first_child().unwrap().kind(),
-                LatexSyntaxKind::ItemBracket
-            )
+            arg.first_child()
+                .is_some_and(|child| child.kind() == LatexSyntaxKind::ItemBracket)
         });
         let arg = cmd
             .arguments()
             .find(|arg| {
-                matches!(
-                    arg.first_child().unwrap().kind(),
-                    LatexSyntaxKind::ItemCurly
-                )
+                arg.first_child()
+                    .is_some_and(|child| child.kind() == LatexSyntaxKind::ItemCurly)
             })
-            .expect("\\includegraphics command must have one argument");
+            .ok_or_else(|| "\\includegraphics command must have one argument".to_owned())?;
         // remove { and } then trim
         let body = arg.text().to_string();
-        let body = &body[1..(body.len() - 1)];
-        let body = body.trim();
+        let body = strip_delimiters(&body, '{', '}').trim();
         f.write_str("#image(")?;
         // optional arguments
         if let Some(opt_arg) = opt_arg {
             let arg_text = opt_arg.text().to_string();
-            let arg_text = &arg_text[1..(arg_text.len() - 1)];
-            let arg_text = arg_text.trim();
+            let arg_text = strip_delimiters(&arg_text, '[', ']').trim();
             // example: \includegraphics[width=0.5\textwidth, height=3cm,
             // angle=45]{example-image} split by comma and convert
             // to key-value pairs
@@ -1016,7 +1009,7 @@ impl Converter {
                     let arg = cmd
                         .arguments()
                         .next()
-                        .expect("\\caption command must have one argument");
+                        .ok_or_else(|| "\\caption command must have one argument".to_owned())?;
                     caption = Some(arg);
                 }
             }
@@ -1062,11 +1055,10 @@ impl Converter {
         let arg = env
             .arguments()
             .next()
-            .expect("tabular environment must have one argument");
+            .ok_or_else(|| "tabular environment must have one argument".to_owned())?;
         let arg = arg.text().to_string();
         // remove { and } then trim
-        let arg = &arg[1..(arg.len() - 1)];
-        let arg = arg.trim();
+        let arg = strip_delimiters(&arg, '{', '}').trim();
         // split arg to get alignments and vertical lines
         let mut alignments: Vec<char> = vec![];
         let mut vlines: Vec<usize> = vec![];
@@ -1190,6 +1182,16 @@ impl Converter {
     }
 }
 
+/// Remove the delimiters around the text of an argument. The text is not
+/// delimited if the argument is a single token, and lacks the closing delimiter
+/// if the argument is not closed.
+fn strip_delimiters(text: &str, open: char, close: char) -> &str {
+    match text.strip_prefix(open) {
+        Some(body) => body.strip_suffix(close).unwrap_or(body),
+        None => text,
+    }
+}
+
 struct TypstRepr {
     elem: LatexSyntaxElem,
     mode: LaTeXMode,
-- 
2.43.0


From ab9ea190709e5909a8eb5e6ba6db7cacf10e6766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 07/56] fix: a command inside a script does not wrap items
 outside of it

---
 crates/mitex-parser/src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 063f13a..dfd9e90 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -812,7 +812,12 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
 
         if has_script {
             self.trivia();
+            // The items before the script are not in the list of the script
+            let parent_state = self.list_state;
+            self.list_state.may_store_start(None);
+            self.list_state.may_store_last(None);
             self.content(false);
+            self.list_state = parent_state;
         }
 
         self.builder.finish_node();
-- 
2.43.0


From 5f068086d184d3cc7aae23e0b116ad366582227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 08/56] fix: scripts and infix commands do not reach into the
 previous cells of an environment

---
 crates/mitex-parser/src/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index dfd9e90..7dc12c2 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -316,7 +316,7 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
         self.list_state = ListState::new(scope);
         self.list_state.store_start(current);
 
-        while self.peek().is_some_and(|kind| !self.stop_by_scope(kind)) {
+        while let Some(kind) = self.peek().filter(|&kind| !self.stop_by_scope(kind)) {
             let attachable = self.content(true);
 
             // If the item is not attachable, then we should
@@ -325,6 +325,13 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                 self.list_state.store_last(current);
             }
             current = self.builder.checkpoint();
+
+            // The items of a cell neither attach to nor wrap the items of the cells before it
+            if scope == ParseScope::Environment && matches!(kind, Token::Ampersand | Token::NewLine)
+            {
+                self.list_state = ListState::new(scope);
+                self.list_state.store_start(current);
+            }
         }
 
         self.list_state = parent_state;
-- 
2.43.0


From 50d488f05cca365cd4b582fe6562a6beac8d0eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 09/56] fix: close the last cell of a table whose last row is
 not terminated

---
 crates/mitex/src/converter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 9b862c0..c543078 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1176,6 +1176,10 @@ impl Converter {
                 }
             }
         }
+        // close the last cell if the last row is not terminated
+        if !exterior {
+            f.write_str("],\n")?;
+        }
         f.write_str(");")?;
         self.exit_env(prev);
         Ok(())
-- 
2.43.0


From 679e243bbbd860a968c991264744239da41f1afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 10/56] fix: convert with the command specification that the
 caller passes

---
 crates/mitex/src/converter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index c543078..7f18c5b 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1221,7 +1221,8 @@ pub fn convert_inner(
     spec: Option<CommandSpec>,
     do_parse: fn(input: &str, spec: CommandSpec) -> SyntaxNode,
 ) -> Result<String, String> {
-    let node = do_parse(input, spec.unwrap_or_else(|| DEFAULT_SPEC.clone()));
+    let spec = spec.unwrap_or_else(|| DEFAULT_SPEC.clone());
+    let node = do_parse(input, spec.clone());
     // println!("{:#?}", node);
     // println!("{:#?}", node.text());
     let mut output = String::new();
@@ -1230,7 +1231,7 @@ pub fn convert_inner(
     let repr = TypstRepr {
         elem: LatexSyntaxElem::Node(node),
         mode,
-        spec: DEFAULT_SPEC.clone(),
+        spec,
         error: err.clone(),
     };
     core::fmt::write(&mut output, format_args!("{}", repr)).map_err(|_| err.borrow().to_owned())?;
-- 
2.43.0


From 8fdad44124dd731f96ac64d7d6e957282cfdd888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 11/56] fix: the default output of the cli is the input with
 the .typ extension, not the input itself

---
 crates/mitex-cli/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-cli/src/lib.rs b/crates/mitex-cli/src/lib.rs
index d961afb..e51b134 100644
--- a/crates/mitex-cli/src/lib.rs
+++ b/crates/mitex-cli/src/lib.rs
@@ -227,7 +227,7 @@ fn process_opts(mut opts: Opts) -> Result<Opts, clap::Error> {
         }
         if args.output.is_empty() {
             std::path::Path::new(&args.input)
-                .with_extension("tex")
+                .with_extension("typ")
                 .to_str()
                 .ok_or_else(|| {
                     clap::Error::raw(
-- 
2.43.0


From 9add40311578ead98b67e09fa82f5ba2aa223d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 12/56] fix: the cli tells why it fails to read or convert a
 file

---
 crates/mitex-cli/src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-cli/src/utils.rs b/crates/mitex-cli/src/utils.rs
index 8fd0bdb..d84084a 100644
--- a/crates/mitex-cli/src/utils.rs
+++ b/crates/mitex-cli/src/utils.rs
@@ -31,7 +31,8 @@ impl From<&str> for Error {
 
 impl From<anyhow::Error> for Error {
     fn from(err: anyhow::Error) -> Self {
-        Self(err.to_string().into_boxed_str())
+        // The alternate form also tells the causes of the error
+        Self(format!("{err:#}").into_boxed_str())
     }
 }
 
-- 
2.43.0


From eebb3c969bcc88982159acffbecdb37d0affcce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 13/56] fix: escaped characters stand for themselves in text
 mode

---
 crates/mitex/src/converter.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 7f18c5b..97920f0 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -741,6 +741,13 @@ impl Converter {
             } else if name == "textit" {
                 typst_name = "#emph";
             }
+            // the names of these symbols would be plain words in text mode
+            match name {
+                "#" => typst_name = "\\#",
+                "$" => typst_name = "\\$",
+                "&" => typst_name = "&",
+                _ => {}
+            }
         }
 
         // normal command
-- 
2.43.0


From 1ae2008d7123bcc7ee9fa14665c479bf58734027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:51 +0000
Subject: [PATCH 14/56] fix: report items that are nested too deeply instead of
 overflowing the stack

---
 crates/mitex-parser/src/parser.rs | 49 +++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 7dc12c2..bbde522 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -6,6 +6,10 @@ use crate::syntax::SyntaxKind::{self, *};
 use crate::{ArgPattern, ArgShape, CommandSpec};
 use mitex_lexer::{BraceKind, CommandName, IfCommandName, Lexer, MacroEngine, Token, TokenStream};
 
+/// The maximum depth of nested items. Items that are nested deeper are reported
+/// as errors, since the parser and the users of the syntax tree are recursive.
+const MAX_DEPTH: usize = 256;
+
 /// Stacked scope for parsing
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 enum ParseScope {
@@ -40,6 +44,8 @@ mod list_state {
         start: Option<Checkpoint>,
         /// The checkpoint of the last item in the list
         last: Option<Checkpoint>,
+        /// The number of times the last item (or the list) has been wrapped
+        wrapped: usize,
         /// The current scope
         pub scope: ParseScope,
     }
@@ -49,6 +55,7 @@ mod list_state {
             Self {
                 start: None,
                 last: None,
+                wrapped: 0,
                 scope: ParseScope::Root,
             }
         }
@@ -89,6 +96,14 @@ mod list_state {
         /// Store the last position of the list
         pub fn store_last(&mut self, current: Checkpoint) {
             self.last = Some(current);
+            self.wrapped = 0;
+        }
+
+        /// Count one more wrapping of the last item, and return whether there
+        /// are not too many of them
+        pub fn try_wrap(&mut self) -> bool {
+            self.wrapped += 1;
+            self.wrapped <= super::MAX_DEPTH
         }
 
         /// Store the last position of the list
@@ -122,6 +137,8 @@ pub struct Parser<'a, S: TokenStream<'a> = ()> {
     /// State used by item_list/argument_list parser
     /// The current state
     list_state: ListState,
+    /// The number of items that are being parsed
+    depth: usize,
 }
 
 impl<'a> Parser<'a> {
@@ -134,6 +151,7 @@ impl<'a> Parser<'a> {
             spec,
             arg_matchers: ArgMatcherBuilder::default(),
             list_state: Default::default(),
+            depth: 0,
             trivia_buffer: Vec::new(),
         }
     }
@@ -147,6 +165,7 @@ impl<'a> Parser<'a> {
             spec,
             arg_matchers: ArgMatcherBuilder::default(),
             list_state: Default::default(),
+            depth: 0,
             trivia_buffer: Vec::new(),
         }
     }
@@ -367,6 +386,14 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
         self.builder.finish_node();
     }
 
+    /// Item parsers
+    /// Report the next token as an error
+    fn error(&mut self) {
+        self.builder.start_node(TokenError.into());
+        self.eat();
+        self.builder.finish_node();
+    }
+
     /// Item parsers
     /// Parse any syntax item, which is the entry point of the item parsers.
     ///
@@ -378,6 +405,21 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
         let Some(c) = self.peek() else {
             return true;
         };
+        if self.depth >= MAX_DEPTH {
+            self.error();
+            return false;
+        }
+
+        self.depth += 1;
+        let attachable = self.item(c, not_prefer_single_char);
+        self.depth -= 1;
+
+        attachable
+    }
+
+    /// Item parsers
+    /// Parse the syntax item that starts with the given token
+    fn item(&mut self, c: Token, not_prefer_single_char: bool) -> bool {
         match c {
             Token::Ampersand
             | Token::NewLine
@@ -504,6 +546,10 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                 self.builder.finish_node();
                 return true;
             }
+            Some(ArgShape::Left1) if !self.list_state.try_wrap() => {
+                self.error();
+                return false;
+            }
             Some(ArgShape::Left1) => {
                 // Wrap previous item
                 self.start_command_at(self.list_last().or(self.list_start()));
@@ -804,6 +850,9 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
     /// Parse a component
     fn attach_component(&mut self, has_script: bool) {
         if let Some(list_last) = self.list_last() {
+            if !self.list_state.try_wrap() {
+                return self.error();
+            }
             self.builder
                 .start_node_at(list_last, ItemAttachComponent.into());
             self.builder.start_node_at(list_last, ClauseArgument.into());
-- 
2.43.0


From 707a4b32a684271ea385c4509a16b06e5cbd2f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 15/56] fix: skip the spaces between the parts of a macro
 definition

---
 crates/mitex-lexer/src/macro_engine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index b5e41fc..b90f0df 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -715,7 +715,7 @@ impl<'a> MacroEngine<'a> {
         let mut opt = None;
         let def;
         'match_loop: loop {
-            let nx = ctx.peek()?;
+            let nx = ctx.peek_not_trivia()?;
 
             match (state, nx) {
                 (MatchState::NArgs, Token::Left(BraceKind::Bracket)) => {
@@ -756,7 +756,7 @@ impl<'a> MacroEngine<'a> {
             DeclareCmdOrEnv::NewEnvironment { renew, star: _ } => {
                 is_env = true;
 
-                if matches!(ctx.peek()?, Token::Left(BraceKind::Curly)) {
+                if matches!(ctx.peek_not_trivia()?, Token::Left(BraceKind::Curly)) {
                     ctx.next_token();
                     end_def = Some(ctx.read_until_balanced(BraceKind::Curly));
                 }
-- 
2.43.0


From aab44a2060e4627988681299df2810f9d3618b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 16/56] fix: a comment ends with its line break inside begin
 and end clauses

---
 crates/mitex-lexer/src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/token.rs b/crates/mitex-lexer/src/token.rs
index e5bf6d8..0531332 100644
--- a/crates/mitex-lexer/src/token.rs
+++ b/crates/mitex-lexer/src/token.rs
@@ -374,10 +374,10 @@ fn lex_begin_end(lexer: &mut logos::Lexer<Token>, is_begin: bool) -> CommandName
                 if c == '%' {
                     self.collected += c.len_utf8();
                     for c in self.chars.by_ref() {
+                        self.collected += c.len_utf8();
                         if c == '\n' || c == '\r' {
                             break;
                         }
-                        self.collected += c.len_utf8();
                     }
                     continue;
                 }
-- 
2.43.0


From 2909e8d544e4b37a3de2b4e6c49a146daa68ed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 17/56] fix: a group with nothing but a comment is an empty
 group

---
 crates/mitex/src/converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 97920f0..9c71c34 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -346,7 +346,7 @@ impl Converter {
         let mut zws = true;
         for child in elem.as_node().unwrap().children_with_tokens() {
             match &child.kind() {
-                TokenWhiteSpace | TokenLineBreak | TokenLBrace | TokenRBrace => {}
+                TokenWhiteSpace | TokenLineBreak | TokenComment | TokenLBrace | TokenRBrace => {}
                 _ => {
                     zws = false;
                 }
-- 
2.43.0


From c4c1436d00b54f291be780988db2a7e8ebca38c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 18/56] fix: a factorial sign after a script does not become
 part of the script

---
 crates/mitex/src/converter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 9c71c34..c976ea1 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -165,6 +165,11 @@ impl Converter {
                 if matches!(self.mode, LaTeXMode::Math) {
                     // break up words into individual characters and add a space
                     let text = elem.as_token().unwrap().text().to_string();
+                    // keep the factorial sign off a script in front of it: `x^(n)!` means
+                    // `x^((n)!)` in typst
+                    if text.starts_with('!') {
+                        f.write_char(' ')?;
+                    }
                     for prev in text.chars() {
                         f.write_char(prev)?;
                         f.write_char(' ')?;
-- 
2.43.0


From 06747a84b6ef6b5041a1f97cde911cbe53e2ce5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 19/56] fix: the label of a figure is not taken by an
 environment inside it

---
 crates/mitex/src/converter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index c976ea1..6825bc2 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -884,6 +884,9 @@ impl Converter {
             return Ok(());
         }
 
+        // the label of an outer environment is not for this one
+        let outer_label = self.label.take();
+
         // is environment for math
         let is_math_env = matches!(
             env_kind,
@@ -978,9 +981,9 @@ impl Converter {
                 f.write_char('<')?;
                 f.write_str(label.as_str())?;
                 f.write_char('>')?;
-                self.label = None;
             }
         }
+        self.label = self.label.take().or(outer_label);
 
         Ok(())
     }
-- 
2.43.0


From 68f5ac6d3c04093c9e9e5a5880e8562f2b41ebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:01 +0000
Subject: [PATCH 20/56] fix: images as wide as the text, and widths relative to
 the line

---
 crates/mitex/src/converter.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 6825bc2..d6697bd 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -563,16 +563,18 @@ impl Converter {
                     f.write_str(key)?;
                     f.write_char(':')?;
                     f.write_char(' ')?;
-                    if value.ends_with("\\textwidth") {
-                        let value = value.trim_end_matches("\\textwidth");
-                        f.write_str(value)?;
-                        f.write_str(" * 100%")?;
-                    } else if value.ends_with("\\textheight") {
-                        let value = value.trim_end_matches("\\textheight");
-                        f.write_str(value)?;
-                        f.write_str(" * 100%")?;
-                    } else {
-                        f.write_str(value)?;
+                    let relative = [
+                        "\\textwidth",
+                        "\\linewidth",
+                        "\\columnwidth",
+                        "\\textheight",
+                    ]
+                    .iter()
+                    .find_map(|unit| value.strip_suffix(unit));
+                    match relative.map(str::trim) {
+                        Some("") => f.write_str("100%")?,
+                        Some(factor) => write!(f, "{} * 100%", factor)?,
+                        None => f.write_str(value)?,
                     }
                     f.write_char(',')?;
                     f.write_char(' ')?;
-- 
2.43.0


From 49efe3af2baff8ade49b0515f8e9fbf7c194bd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 21/56] fix: quotes and backslashes in an image path stay part
 of the path

---
 crates/mitex/src/converter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index d6697bd..a427f04 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -582,8 +582,9 @@ impl Converter {
             }
         }
         // image path
+        let body = body.replace('\\', "\\\\").replace('"', "\\\"");
         f.write_char('"')?;
-        f.write_str(body)?;
+        f.write_str(&body)?;
         f.write_char('"')?;
         f.write_char(')')?;
         Ok(())
-- 
2.43.0


From 9dc712aa6db822afbdc318f29cc1817c645ba1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 22/56] fix: labels with characters that do not fit between
 angle brackets

---
 crates/mitex/src/converter.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index a427f04..2506660 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -507,9 +507,7 @@ impl Converter {
         match self.env {
             LaTeXEnv::None | LaTeXEnv::Itemize | LaTeXEnv::Enumerate => {
                 if matches!(self.mode, LaTeXMode::Text) {
-                    f.write_char('<')?;
-                    f.write_str(label)?;
-                    f.write_char('>')?;
+                    write_label(f, label)?;
                 }
             }
             _ => {
@@ -981,9 +979,7 @@ impl Converter {
         // handle label, only add <label> for text mode
         if matches!(self.mode, LaTeXMode::Text) {
             if let Some(label) = self.label.take() {
-                f.write_char('<')?;
-                f.write_str(label.as_str())?;
-                f.write_char('>')?;
+                write_label(f, &label)?;
             }
         }
         self.label = self.label.take().or(outer_label);
@@ -1204,6 +1200,17 @@ impl Converter {
     }
 }
 
+/// Write a label, in the function form if it does not fit in `<label>`
+fn write_label(f: &mut fmt::Formatter<'_>, label: &str) -> fmt::Result {
+    let is_plain = |c: char| c.is_alphanumeric() || matches!(c, '_' | '-' | ':' | '.');
+    if label.chars().all(is_plain) {
+        write!(f, "<{}>", label)
+    } else {
+        let label = label.replace('\\', "\\\\").replace('"', "\\\"");
+        write!(f, "#label(\"{}\");", label)
+    }
+}
+
 /// Remove the delimiters around the text of an argument. The text is not
 /// delimited if the argument is a single token, and lacks the closing delimiter
 /// if the argument is not closed.
-- 
2.43.0


From 9071b3c72477b6e4f7b7862033d386738ee7b917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 23/56] fix: what follows a list on the same line is not part
 of its last item

---
 crates/mitex/src/converter.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 2506660..00cf8ed 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -882,6 +882,15 @@ impl Converter {
 
             self.exit_env(prev);
 
+            // what follows on the same line is not part of the last item
+            if is_followed_on_same_line(&elem) {
+                f.write_char('\n')?;
+                for _ in 0..self.indent {
+                    f.write_char(' ')?;
+                }
+                self.skip_next_space = true;
+            }
+
             return Ok(());
         }
 
@@ -1211,6 +1220,24 @@ fn write_label(f: &mut fmt::Formatter<'_>, label: &str) -> fmt::Result {
     }
 }
 
+/// Whether an environment is followed by content on its last line
+fn is_followed_on_same_line(env: &LatexSyntaxElem) -> bool {
+    use LatexSyntaxKind::*;
+    let mut next = env.next_sibling_or_token();
+    while let Some(elem) = next {
+        match elem.kind() {
+            TokenWhiteSpace | TokenComment => next = elem.next_sibling_or_token(),
+            TokenLineBreak | ItemEnd => return false,
+            ItemCmd => {
+                let cmd = CmdItem::cast(elem.as_node().unwrap().clone()).unwrap();
+                return cmd.name_tok().map_or(true, |name| name.text() != "\\item");
+            }
+            _ => return true,
+        }
+    }
+    false
+}
+
 /// Remove the delimiters around the text of an argument. The text is not
 /// delimited if the argument is a single token, and lacks the closing delimiter
 /// if the argument is not closed.
-- 
2.43.0


From c5f3eee40a405de52ff15ecbb3c071e2d3a14051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 24/56] fix: a comment between the rows of a table does not
 start a cell

---
 crates/mitex/src/converter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 00cf8ed..46c1f7b 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1138,7 +1138,9 @@ impl Converter {
             // preprocess if exterior
             if exterior {
                 match child.kind() {
-                    LatexSyntaxKind::TokenWhiteSpace | LatexSyntaxKind::TokenLineBreak => {}
+                    LatexSyntaxKind::TokenWhiteSpace
+                    | LatexSyntaxKind::TokenLineBreak
+                    | LatexSyntaxKind::TokenComment => {}
                     LatexSyntaxKind::TokenAmpersand => {
                         // write `[],` for empty exterior when encountering &
                         f.write_str("[], ")?;
-- 
2.43.0


From 8fc83a76b1b87f9b7d2f1b613834484cf4af0ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 25/56] fix: fill up short rows of a table so that the next row
 starts in the first column

---
 crates/mitex/src/converter.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 46c1f7b..4df1b23 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1109,7 +1109,8 @@ impl Converter {
         // stroke: none,
         f.write_str("stroke: none,\n")?;
         // columns: 2,
-        f.write_str(format!("columns: {},\n", alignments.len()).as_str())?;
+        let columns = alignments.len();
+        f.write_str(format!("columns: {},\n", columns).as_str())?;
         // align: (left, center, right, ),
         f.write_str("align: (")?;
         for align in alignments {
@@ -1127,6 +1128,8 @@ impl Converter {
         }
         f.write_str("\n")?;
         let mut exterior = true;
+        // number of completed cells of the current row
+        let mut cells = 0;
         for child in elem.as_node().unwrap().children_with_tokens() {
             // skip \begin and \end commands
             if matches!(
@@ -1144,10 +1147,13 @@ impl Converter {
                     LatexSyntaxKind::TokenAmpersand => {
                         // write `[],` for empty exterior when encountering &
                         f.write_str("[], ")?;
+                        cells += 1;
                     }
                     LatexSyntaxKind::ItemNewLine => {
                         // write `[],\n` for empty exterior when encountering //
                         f.write_str("[],\n")?;
+                        fill_row(f, cells + 1, columns)?;
+                        cells = 0;
                     }
                     LatexSyntaxKind::ItemCmd => {
                         let cmd_name = CmdItem::cast(child.as_node().unwrap().clone())
@@ -1188,11 +1194,14 @@ impl Converter {
                     LatexSyntaxKind::TokenAmpersand => {
                         // write `[],` when encountering &
                         f.write_str("], ")?;
+                        cells += 1;
                         exterior = true;
                     }
                     LatexSyntaxKind::ItemNewLine => {
                         // write `[],\n` when encountering //
                         f.write_str("],\n")?;
+                        fill_row(f, cells + 1, columns)?;
+                        cells = 0;
                         exterior = true;
                     }
                     _ => {
@@ -1240,6 +1249,15 @@ fn is_followed_on_same_line(env: &LatexSyntaxElem) -> bool {
     false
 }
 
+/// Write the cells that a row does not mention, so that the next row starts in
+/// the first column
+fn fill_row(f: &mut fmt::Formatter<'_>, cells: usize, columns: usize) -> fmt::Result {
+    for _ in cells..columns {
+        f.write_str("[], ")?;
+    }
+    Ok(())
+}
+
 /// Remove the delimiters around the text of an argument. The text is not
 /// delimited if the argument is a single token, and lacks the closing delimiter
 /// if the argument is not closed.
-- 
2.43.0


From 28e2cba585d2f71c7603bd8630417a1f4a705794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 26/56] fix: an apostrophe or script in a figure or table does
 not hide the caption or line before it

---
 crates/mitex/src/converter.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 4df1b23..e788a74 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1021,7 +1021,7 @@ impl Converter {
         }
         // collect named args
         let mut caption = None;
-        for child in elem.as_node().unwrap().children_with_tokens() {
+        for child in text_children(&elem) {
             if is_named_arg(&child) {
                 let cmd = CmdItem::cast(child.as_node().unwrap().clone()).unwrap();
                 let name = cmd.name_tok().unwrap();
@@ -1048,7 +1048,7 @@ impl Converter {
             f.write_str("],")?;
         }
         f.write_str(")[")?;
-        for child in elem.as_node().unwrap().children_with_tokens() {
+        for child in text_children(&elem) {
             // skip \begin and \end commands
             if matches!(
                 child.kind(),
@@ -1130,7 +1130,7 @@ impl Converter {
         let mut exterior = true;
         // number of completed cells of the current row
         let mut cells = 0;
-        for child in elem.as_node().unwrap().children_with_tokens() {
+        for child in text_children(&elem) {
             // skip \begin and \end commands
             if matches!(
                 child.kind(),
@@ -1220,6 +1220,20 @@ impl Converter {
     }
 }
 
+/// The children of an element in text mode, where apostrophes, carets and
+/// underscores are not attached to the items before them
+fn text_children(elem: &LatexSyntaxElem) -> Vec<LatexSyntaxElem> {
+    use LatexSyntaxKind::*;
+    let mut children = vec![];
+    for child in elem.as_node().unwrap().children_with_tokens() {
+        match child.kind() {
+            ItemAttachComponent | ClauseArgument => children.extend(text_children(&child)),
+            _ => children.push(child),
+        }
+    }
+    children
+}
+
 /// Write a label, in the function form if it does not fit in `<label>`
 fn write_label(f: &mut fmt::Formatter<'_>, label: &str) -> fmt::Result {
     let is_plain = |c: char| c.is_alphanumeric() || matches!(c, '_' | '-' | ':' | '.');
-- 
2.43.0


From 58ddb392e9df397e2babb00d8f3afd492854fb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 27/56] fix: an apostrophe right after a list is not part of
 its last item

---
 crates/mitex/src/converter.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index e788a74..a09d80d 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1248,10 +1248,20 @@ fn write_label(f: &mut fmt::Formatter<'_>, label: &str) -> fmt::Result {
 /// Whether an environment is followed by content on its last line
 fn is_followed_on_same_line(env: &LatexSyntaxElem) -> bool {
     use LatexSyntaxKind::*;
-    let mut next = env.next_sibling_or_token();
+    // An apostrophe or script after the environment has it as its base
+    let next_of = |elem: &LatexSyntaxElem| {
+        let next = elem.next_sibling_or_token();
+        next.or_else(|| {
+            let parents = elem.parent()?.ancestors();
+            let mut bases =
+                parents.take_while(|p| matches!(p.kind(), ClauseArgument | ItemAttachComponent));
+            bases.find_map(|p| p.next_sibling_or_token())
+        })
+    };
+    let mut next = next_of(env);
     while let Some(elem) = next {
         match elem.kind() {
-            TokenWhiteSpace | TokenComment => next = elem.next_sibling_or_token(),
+            TokenWhiteSpace | TokenComment => next = next_of(&elem),
             TokenLineBreak | ItemEnd => return false,
             ItemCmd => {
                 let cmd = CmdItem::cast(elem.as_node().unwrap().clone()).unwrap();
-- 
2.43.0


From f228f291bd1468081820f660cf1ef16e02b6bb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:33 +0000
Subject: [PATCH 28/56] fix: keep the space after an environment whose last
 line is empty

---
 crates/mitex/src/converter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index a09d80d..c4693cf 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -992,6 +992,8 @@ impl Converter {
             }
         }
         self.label = self.label.take().or(outer_label);
+        // the space after the environment is not at the beginning of a line
+        self.skip_next_space = false;
 
         Ok(())
     }
-- 
2.43.0


From 6a3943b7c3b5cf54ce5c130e1152363f0fb17f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 29/56] fix: the arguments of an environment end before its end

---
 crates/mitex-parser/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index bbde522..59f0cfd 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -748,7 +748,7 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                 //   e.g.(don't stops) \begin{matrix}\frac{1} \\ {2}\end{matrix}
                 Token::NewLine if GREEDY && self.inside_env() => return,
                 // Argument matches is stopped on these tokens anyway
-                Token::Ampersand => return,
+                Token::Ampersand | Token::CommandName(CommandName::EndEnvironment) => return,
                 // k_wrap_args!() also determines whether it could be regards as an attachment.
                 Token::Caret | Token::Underscore if k_wrap_args!() => {
                     return;
-- 
2.43.0


From 4ecbd1c5ce4d562c78a8cc0b15b30ebff022a5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 30/56] fix: a glob has the prefix if the path ends within an
 alternative of its braces

---
 crates/mitex-glob/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/mitex-glob/src/lib.rs b/crates/mitex-glob/src/lib.rs
index 0721bd7..0310cac 100644
--- a/crates/mitex-glob/src/lib.rs
+++ b/crates/mitex-glob/src/lib.rs
@@ -288,6 +288,11 @@ fn glob_match_internal<'a>(
       }
     }
 
+    // All of the path is matched, only the glob has something left.
+    if is_prefix && state.path_index == path.len() {
+      return !negated;
+    }
+
     // If we didn't match, restore state to the previous star pattern.
     if state.wildcard.path_index > 0 && state.wildcard.path_index as usize <= path.len() {
       state.backtrack();
-- 
2.43.0


From 731cfcef47999c29c23b85393f62b643765e94f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 31/56] fix: a tie is a space that does not break in text mode,
 too

---
 crates/mitex/src/converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index c4693cf..983067c 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -246,7 +246,7 @@ impl Converter {
                 if matches!(self.mode, LaTeXMode::Math) {
                     f.write_str("space.nobreak ")?;
                 } else {
-                    f.write_str("\\~")?;
+                    f.write_char('~')?;
                 }
             }
             TokenAmpersand => match self.env {
-- 
2.43.0


From fd6b8a344c7773b27a0f476c5ab2cdf1e6c5879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 32/56] fix: words of text that are markup in typst stand for
 themselves

---
 crates/mitex/src/converter.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 983067c..2ffb2ca 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -175,8 +175,8 @@ impl Converter {
                         f.write_char(' ')?;
                     }
                 } else {
-                    // write the word directly in text mode
-                    f.write_str(elem.as_token().unwrap().text())?;
+                    // write the word in text mode, without the markup that it would be in typst
+                    write_text_word(f, elem.as_token().unwrap().text())?;
                 }
             }
             // do nothing
@@ -1236,6 +1236,31 @@ fn text_children(elem: &LatexSyntaxElem) -> Vec<LatexSyntaxElem> {
     children
 }
 
+/// Write a word of running text: quotes are no raw text, and neither a less-than
+/// sign nor the word as a whole is markup
+fn write_text_word(f: &mut fmt::Formatter<'_>, word: &str) -> fmt::Result {
+    let number = word.strip_suffix('.').unwrap_or_default();
+    let is_number = !number.is_empty() && number.chars().all(|c| c.is_ascii_digit());
+    if is_number {
+        // an item of an enumeration
+        return write!(f, "{}\\.", number);
+    }
+    if matches!(word, "-" | "+") || word.chars().all(|c| c == '=') {
+        // an item of a list, or a heading
+        f.write_char('\\')?;
+    }
+    let mut last = None;
+    for c in word.chars() {
+        match (last, c) {
+            (_, '`') => f.write_char('‘')?,
+            (_, '<') | (Some('-'), '?') => write!(f, "\\{}", c)?,
+            _ => f.write_char(c)?,
+        }
+        last = Some(c);
+    }
+    Ok(())
+}
+
 /// Write a label, in the function form if it does not fit in `<label>`
 fn write_label(f: &mut fmt::Formatter<'_>, label: &str) -> fmt::Result {
     let is_plain = |c: char| c.is_alphanumeric() || matches!(c, '_' | '-' | ':' | '.');
-- 
2.43.0


From ea35070bc781c96e74aee9542cd1721bba8453b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 33/56] fix: a coloured formula that starts with a space is not
 a block equation

---
 crates/mitex/src/converter.rs | 45 ++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 2ffb2ca..33dda4c 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -697,9 +697,11 @@ impl Converter {
         f.write_char('[')?;
         for elem in body {
             if matches!(self.mode, LaTeXMode::Math) {
-                f.write_char('$')?;
-                self.convert(f, elem, spec)?;
-                f.write_char('$')?;
+                // Spaces inside both dollar signs would make it a block equation
+                let body = self.convert_to_string(elem, spec)?;
+                let trimmed = body.trim_start();
+                let body = if trimmed.is_empty() { &body } else { trimmed };
+                write!(f, "${body}$")?;
             } else {
                 self.convert(f, elem, spec)?;
             }
@@ -712,6 +714,43 @@ impl Converter {
         Ok(())
     }
 
+    /// Convert an element on its own, for code that depends on the result
+    fn convert_to_string(
+        &mut self,
+        elem: LatexSyntaxElem,
+        spec: &CommandSpec,
+    ) -> Result<String, ConvertError> {
+        struct Repr<'a> {
+            converter: RefCell<&'a mut Converter>,
+            elem: LatexSyntaxElem,
+            spec: &'a CommandSpec,
+            error: RefCell<Option<ConvertError>>,
+        }
+        impl fmt::Display for Repr<'_> {
+            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                let mut converter = self.converter.borrow_mut();
+                converter
+                    .convert(f, self.elem.clone(), self.spec)
+                    .map_err(|e| {
+                        self.error.replace(Some(e));
+                        fmt::Error
+                    })
+            }
+        }
+
+        let repr = Repr {
+            converter: RefCell::new(self),
+            elem,
+            spec,
+            error: RefCell::new(None),
+        };
+        let mut output = String::new();
+        match write!(output, "{repr}") {
+            Ok(()) => Ok(output),
+            Err(e) => Err(repr.error.take().unwrap_or(ConvertError::Fmt(e))),
+        }
+    }
+
     /// Convert normal command
     fn convert_normal_command(
         &mut self,
-- 
2.43.0


From 67171b007c5b647d89f951d722e905fdf9a9ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:09 +0000
Subject: [PATCH 34/56] fix: spaces between the columns of a tabular
 specification

---
 crates/mitex/src/converter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 33dda4c..8453e90 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1136,6 +1136,7 @@ impl Converter {
                 '|' => {
                     vlines.push(index);
                 }
+                ch if ch.is_whitespace() => {}
                 _ => {
                     // unknown character
                     Err(format!("unknown alignment: {}", ch))?;
-- 
2.43.0


From 7c83f70afc74e030f2f672b84104c90f4104b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 35/56] fix: the model of a colour is a text, not code

---
 crates/mitex/src/converter.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 8453e90..4bab4b1 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -677,7 +677,11 @@ impl Converter {
 
         // Arg 1: Model
         match model {
-            Some(m) => write!(f, "[{}], ", m)?,
+            Some(m) => {
+                f.write_char('[')?;
+                write_literal(f, &m)?;
+                f.write_str("], ")?;
+            }
             None => f.write_str("none, ")?,
         }
 
@@ -1301,6 +1305,17 @@ fn write_text_word(f: &mut fmt::Formatter<'_>, word: &str) -> fmt::Result {
     Ok(())
 }
 
+/// Write a text whose characters all stand for themselves
+fn write_literal(f: &mut fmt::Formatter<'_>, text: &str) -> fmt::Result {
+    for c in text.chars() {
+        if c.is_ascii_punctuation() {
+            f.write_char('\\')?;
+        }
+        f.write_char(c)?;
+    }
+    Ok(())
+}
+
 /// Write a label, in the function form if it does not fit in `<label>`
 fn write_label(f: &mut fmt::Formatter<'_>, label: &str) -> fmt::Result {
     let is_plain = |c: char| c.is_alphanumeric() || matches!(c, '_' | '-' | ':' | '.');
-- 
2.43.0


From 2770c0845bf84f48a70de6604ce2a6aef6e0f6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:34 +0000
Subject: [PATCH 36/56] fix: a macro takes no closing brace or \end clause as
 its argument

---
 crates/mitex-lexer/src/macro_engine.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index b90f0df..01eb638 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -833,13 +833,18 @@ impl<'a> MacroEngine<'a> {
                     // every character of the word has been counted already
                     continue;
                 }
+                // The group or the environment ends before the argument
+                Some(
+                    Token::Right(BraceKind::Curly)
+                    | Token::CommandName(CommandName::EndEnvironment),
+                )
+                | None => {
+                    break;
+                }
                 Some(_) => {
                     args.push(vec![ctx.peek_full().unwrap()]);
                     ctx.next_token();
                 }
-                None => {
-                    break;
-                }
             }
 
             num_of_read += 1;
-- 
2.43.0


From 7439cdca1ff627fc91033ec0144b120f8c806d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 37/56] fix: an unclosed environment macro is an error, not the
 end of the output

---
 crates/mitex-lexer/src/macro_engine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 01eb638..33b73b3 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -875,7 +875,10 @@ impl<'a> MacroEngine<'a> {
         let mut bc = 0;
         let mut body = Vec::new();
         loop {
-            let e = ctx.peek_full()?;
+            let Some(e) = ctx.peek_full() else {
+                ctx.push_outer((Token::Error, "unclosed environment"));
+                return None;
+            };
             if e.0 == Token::CommandName(CommandName::EndEnvironment) {
                 if bc == 0 {
                     if e.1 != name {
-- 
2.43.0


From 80f49d3761fbb482eb784cbaa3e335f89dba2a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 38/56] fix: \renewcommand of a command of the specification is
 no error

---
 crates/mitex-lexer/src/macro_engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 33b73b3..03db2a3 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -587,7 +587,8 @@ impl<'a> MacroEngine<'a> {
                         self.add_macro(name, m);
                     }
                     UpdateAction::Renew => {
-                        if self.get_macro(name).is_none() {
+                        // The commands and environments of the specification are defined, too
+                        if self.get_macro(name).is_none() && self.spec.get(name).is_none() {
                             ctx.push_outer((Token::Error, name));
                         }
 
-- 
2.43.0


From 16dab56ca4d6ab7d04f6ee874d20b3db97c5e4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:18 +0000
Subject: [PATCH 39/56] fix: definitions in the skipped branch of a conditional
 took effect

---
 crates/mitex-lexer/src/macro_engine.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 03db2a3..70fe129 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -426,6 +426,13 @@ impl<'a> MacroEngine<'a> {
                 Token::CommandName(CommandName::EndIf) => {
                     self.trapped_by_endif(ctx, token);
                 }
+                // The text behind \iffalse is skipped, it neither defines nor uses macros
+                Token::CommandName(CommandName::Generic | CommandName::BeginEnvironment)
+                    if self.reading_if.contains(&Some(IfState::LitFalse)) =>
+                {
+                    ctx.push_outer(token);
+                    ctx.next_token();
+                }
                 // a generic command token traps stream into a macro checking
                 //
                 // If it is a real macro, it will be expanded into tokens so parser is unaware of
-- 
2.43.0


From d118b94b953b3dea5df1a9a87559ff1f269586f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:18 +0000
Subject: [PATCH 40/56] fix: a skipped block took the place of an argument or
 of a base

---
 crates/mitex-parser/src/parser.rs | 39 ++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 59f0cfd..d5347e3 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -268,8 +268,14 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
     /// Lexer Interface
     /// Consume tokens until the next non-trivia token
     fn trivia(&mut self) {
-        while self.peek().as_ref().is_some_and(Token::is_trivia) {
-            self.eat();
+        loop {
+            match self.peek() {
+                Some(Token::CommandName(CommandName::If(IfCommandName::IfFalse))) => {
+                    self.block_comment()
+                }
+                Some(kind) if kind.is_trivia() => self.eat(),
+                _ => break,
+            }
         }
     }
 
@@ -472,7 +478,10 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                     self.item_group(ParseScope::CmdFormula);
                     return false;
                 }
-                CommandName::If(IfCommandName::IfFalse) => self.block_comment(),
+                CommandName::If(IfCommandName::IfFalse) => {
+                    self.block_comment();
+                    return false;
+                }
                 CommandName::If(IfCommandName::IfTypst) => self.typst_code(),
                 CommandName::If(..) | CommandName::Else | CommandName::EndIf => {
                     return self.command()
@@ -652,6 +661,22 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
         self.builder.finish_node();
     }
 
+    /// Drop a block comment between a command and its arguments
+    fn drop_block_comment(&mut self) {
+        let mut nested = 0;
+        while let Some(kind) = self.peek() {
+            self.drop();
+            match kind {
+                Token::CommandName(CommandName::If(..)) => nested += 1,
+                Token::CommandName(CommandName::EndIf) => nested -= 1,
+                _ => {}
+            }
+            if nested == 0 {
+                break;
+            }
+        }
+    }
+
     fn typst_code(&mut self) {
         self.builder.start_node(ItemTypstCode.into());
         self.drop();
@@ -733,6 +758,14 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                         self.hold_trivia();
                     }
                 }
+                // A block comment is no argument
+                Token::CommandName(CommandName::If(IfCommandName::IfFalse)) => {
+                    if GREEDY {
+                        self.block_comment();
+                    } else {
+                        self.drop_block_comment();
+                    }
+                }
                 // Argument matches is stopped on these tokens
                 // However, newline is also a command (with name `\`), hence this is different from
                 // mark and (`&`)
-- 
2.43.0


From b83a8cf359e3216cc665f1e8a0b61cb8f4784bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 41/56] fix: a second space behind a list made the following
 text part of its last item

---
 crates/mitex/src/converter.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 4bab4b1..f1b3456 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -131,11 +131,17 @@ impl Converter {
     ) -> Result<(), ConvertError> {
         use LatexSyntaxKind::*;
 
-        match elem.kind() {
-            TokenWhiteSpace => {}
-            _ => {
-                self.skip_next_space = false;
-            }
+        // these write nothing on their own
+        if !matches!(
+            elem.kind(),
+            TokenWhiteSpace
+                | TokenComment
+                | ItemBlockComment
+                | ItemCurly
+                | TokenLBrace
+                | TokenRBrace
+        ) {
+            self.skip_next_space = false;
         }
         match elem.kind() {
             TokenError => Err(match elem {
@@ -186,7 +192,6 @@ impl Converter {
             TokenWhiteSpace => {
                 // indent for itemize and enumerate
                 if self.skip_next_space {
-                    self.skip_next_space = false;
                     return Ok(());
                 }
                 write!(f, "{}", elem.as_token().unwrap().text())?;
-- 
2.43.0


From cd15bccd3d0c64459dab4a775802a72ea09019ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 42/56] fix: a group with nothing but skipped text is an empty
 group

---
 crates/mitex/src/converter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index f1b3456..f88c5f1 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -356,7 +356,8 @@ impl Converter {
         let mut zws = true;
         for child in elem.as_node().unwrap().children_with_tokens() {
             match &child.kind() {
-                TokenWhiteSpace | TokenLineBreak | TokenComment | TokenLBrace | TokenRBrace => {}
+                TokenWhiteSpace | TokenLineBreak | TokenComment | ItemBlockComment | TokenLBrace
+                | TokenRBrace => {}
                 _ => {
                     zws = false;
                 }
-- 
2.43.0


From 733d7cc32b174289aec76caae9168d971b9b05aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:27 +0000
Subject: [PATCH 43/56] fix: deep stacks of conditionals made every macro
 lookup walk the whole stack

---
 crates/mitex-lexer/src/macro_engine.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 70fe129..e86a573 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -357,6 +357,8 @@ pub struct MacroEngine<'a> {
     /// If the value is Some(true), it means the if is evaluated to true
     /// If the value is Some(false), it means the if is evaluated to false
     reading_if: Vec<Option<IfState>>,
+    /// The number of \iffalse in the if stack whose text is skipped
+    skipping_if: usize,
     /// Toekns used by macro stack
     pub scanned_tokens: Vec<Tok<'a>>,
     /// The number of tokens produced by macro expansion so far
@@ -388,6 +390,7 @@ impl<'a> MacroEngine<'a> {
             env_stack: Vec::new(),
             reading_macro: Vec::new(),
             reading_if: Vec::new(),
+            skipping_if: 0,
             scanned_tokens: Vec::new(),
             expanded_tokens: 0,
         }
@@ -428,7 +431,7 @@ impl<'a> MacroEngine<'a> {
                 }
                 // The text behind \iffalse is skipped, it neither defines nor uses macros
                 Token::CommandName(CommandName::Generic | CommandName::BeginEnvironment)
-                    if self.reading_if.contains(&Some(IfState::LitFalse)) =>
+                    if self.skipping_if > 0 =>
                 {
                     ctx.push_outer(token);
                     ctx.next_token();
@@ -491,6 +494,7 @@ impl<'a> MacroEngine<'a> {
             IfCommandName::IfFalse => {
                 ctx.push_outer(token);
                 self.reading_if.push(Some(IfState::LitFalse));
+                self.skipping_if += 1;
             }
             IfCommandName::IfTrue => {
                 self.reading_if.push(Some(IfState::True));
@@ -534,6 +538,7 @@ impl<'a> MacroEngine<'a> {
             }
             Some(IfState::LitFalse) => {
                 self.reading_if.last_mut().unwrap().replace(IfState::True);
+                self.skipping_if -= 1;
                 ctx.push_outer((Token::CommandName(CommandName::EndIf), "\\fi"));
             }
             None => {
@@ -547,6 +552,9 @@ impl<'a> MacroEngine<'a> {
     fn trapped_by_endif(&mut self, ctx: &mut StreamContext<'a>, token: Tok<'a>) {
         ctx.next_token();
         let last_if = self.reading_if.pop().unwrap_or(None);
+        if last_if == Some(IfState::LitFalse) {
+            self.skipping_if -= 1;
+        }
         match last_if {
             Some(IfState::True | IfState::False) => {}
             Some(IfState::TypstFalse | IfState::TypstTrue | IfState::LitFalse) | None => {
-- 
2.43.0


From 5f57d5e91687351a7713c8dd9d8fd2d83d33dc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:24 +0000
Subject: [PATCH 44/56] fix: a command table with an empty argument pattern was
 restored through a null pointer

---
 crates/mitex-spec/src/lib.rs | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-spec/src/lib.rs b/crates/mitex-spec/src/lib.rs
index d3ad1aa..bbb1172 100644
--- a/crates/mitex-spec/src/lib.rs
+++ b/crates/mitex-spec/src/lib.rs
@@ -174,8 +174,6 @@ pub mod argument_kind {
 
 /// A shared string that represents a glob pattern.
 #[derive(Debug, Clone)]
-#[cfg_attr(feature = "rkyv", derive(Archive, rDeser, rSer))]
-#[cfg_attr(feature = "rkyv-validation", archive(check_bytes))]
 pub struct GlobStr(pub Arc<str>);
 
 impl From<&str> for GlobStr {
@@ -183,6 +181,38 @@ impl From<&str> for GlobStr {
         Self(s.into())
     }
 }
+/// Archives a pattern as a string. rkyv cannot restore an empty `Arc<str>` (it
+/// makes it from a null pointer), and an empty pattern is a valid one.
+#[cfg(feature = "rkyv")]
+mod glob_str_archive {
+
+    use super::GlobStr;
+    use rkyv::ser::Serializer;
+    use rkyv::string::{ArchivedString, StringResolver};
+    use rkyv::{Archive, Deserialize, Fallible, Serialize};
+
+    impl Archive for GlobStr {
+        type Archived = ArchivedString;
+        type Resolver = StringResolver;
+
+        unsafe fn resolve(&self, pos: usize, resolver: Self::Resolver, out: *mut Self::Archived) {
+            ArchivedString::resolve_from_str(&self.0, pos, resolver, out);
+        }
+    }
+
+    impl<S: Serializer + ?Sized> Serialize<S> for GlobStr {
+        fn serialize(&self, serializer: &mut S) -> Result<Self::Resolver, S::Error> {
+            ArchivedString::serialize_from_str(&self.0, serializer)
+        }
+    }
+
+    impl<D: Fallible + ?Sized> Deserialize<GlobStr, D> for ArchivedString {
+        fn deserialize(&self, _: &mut D) -> Result<GlobStr, D::Error> {
+            Ok(GlobStr(self.as_str().into()))
+        }
+    }
+}
+
 #[cfg(feature = "serde")]
 mod glob_str_impl {
 
-- 
2.43.0


From 4849cc81ca6934cad17e587306795e4a0144c19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:07 +0000
Subject: [PATCH 45/56] fix: deep nesting that the library accepts exhausted
 the call stack of the plugin

---
 crates/mitex-parser/src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index d5347e3..a1b6c32 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -7,8 +7,9 @@ use crate::{ArgPattern, ArgShape, CommandSpec};
 use mitex_lexer::{BraceKind, CommandName, IfCommandName, Lexer, MacroEngine, Token, TokenStream};
 
 /// The maximum depth of nested items. Items that are nested deeper are reported
-/// as errors, since the parser and the users of the syntax tree are recursive.
-const MAX_DEPTH: usize = 256;
+/// as errors, since the parser and the users of the syntax tree are recursive, and
+/// the plugin runs on a call stack of limited depth.
+const MAX_DEPTH: usize = 128;
 
 /// Stacked scope for parsing
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
-- 
2.43.0


From d2f8d6deb26db2b46524ce04ae23f44aa9cd4df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:09 +0000
Subject: [PATCH 46/56] fix: documents written by the CLI bound Typst's own
 names to nothing and left command names unbound

---
 crates/mitex-cli/src/main.rs | 73 +++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 22 deletions(-)

diff --git a/crates/mitex-cli/src/main.rs b/crates/mitex-cli/src/main.rs
index 1473539..1d0067c 100644
--- a/crates/mitex-cli/src/main.rs
+++ b/crates/mitex-cli/src/main.rs
@@ -14,7 +14,7 @@ use std::path::Path;
 use std::process::exit;
 
 use anyhow::Context;
-use mitex_spec::{CmdShape, CommandSpecItem, EnvShape};
+use mitex_spec::{CmdShape, CommandSpecItem, ContextFeature, EnvShape};
 use serde::{Deserialize, Serialize};
 
 use mitex_cli::utils::{Error, UnwrapOrExit};
@@ -69,6 +69,12 @@ fn main() -> anyhow::Result<()> {
     }
 }
 
+/// Words that cannot be bound in Typst.
+const KEYWORDS: &[&str] = &[
+    "none", "auto", "true", "false", "not", "and", "or", "let", "set", "show", "context", "if",
+    "else", "for", "in", "while", "break", "continue", "return", "import", "include", "as",
+];
+
 fn compile(input_path: &str, output_path: &str, is_ast: bool) -> Result<(), Error> {
     let input = std::fs::read_to_string(input_path)
         .with_context(|| format!("failed to read input file: {input_path}"))?;
@@ -88,33 +94,56 @@ fn compile(input_path: &str, output_path: &str, is_ast: bool) -> Result<(), Erro
 
     // Insert preludes
     // todo: better way?
-    let mut builtin_set = std::collections::HashSet::<&'static str>::new();
-    builtin_set.extend(["and", "or", "in", "not"]);
-    let mut alias_set = std::collections::HashSet::<Box<str>>::new();
-    for (_, cmd) in spec.items() {
-        let alias = match cmd {
-            CommandSpecItem::Cmd(CmdShape {
-                alias: Some(alias), ..
-            }) => alias.as_str(),
+    let words = output
+        .split(|c: char| !c.is_ascii_alphanumeric())
+        .collect::<std::collections::HashSet<_>>();
+    let mut preludes = std::collections::BTreeMap::<&str, std::collections::BTreeSet<&str>>::new();
+    for (name, cmd) in spec.items() {
+        // the name in the generated code, and where it comes from if the package
+        // doesn't define it
+        let (name, module) = match cmd {
+            CommandSpecItem::Cmd(CmdShape { alias, .. }) => {
+                let name = alias.as_deref().unwrap_or(name);
+                match name.strip_prefix('#') {
+                    Some(name) => (name, "std"),
+                    None => (name, "math"),
+                }
+            }
             CommandSpecItem::Env(EnvShape {
-                alias: Some(alias), ..
-            }) => alias.as_str(),
-            _ => continue,
+                alias, ctx_feature, ..
+            }) => (
+                alias.as_deref().unwrap_or(name),
+                match ctx_feature {
+                    ContextFeature::IsMath | ContextFeature::IsMatrix | ContextFeature::IsCases => {
+                        "math"
+                    }
+                    _ => "std",
+                },
+            ),
         };
-        if alias.is_empty() || !alias.chars().all(|c| c.is_ascii_alphanumeric()) {
-            continue;
+        // codes like `arrow.r` or `quote(block: true)` begin with a name, too
+        let name = name
+            .split(|c: char| !c.is_ascii_alphanumeric())
+            .next()
+            .unwrap_or_default();
+        if words.contains(name)
+            && name.starts_with(|c: char| c.is_ascii_alphabetic())
+            && !KEYWORDS.contains(&name)
+        {
+            preludes.entry(name).or_default().insert(module);
         }
-        if builtin_set.contains(alias) || alias_set.contains(alias) {
-            continue;
-        }
-        alias_set.insert(alias.into());
     }
+    // what has a meaning in formulas and another one outside keeps both
+    preludes.retain(|_, modules| modules.len() == 1);
 
-    let mut alias_set = alias_set.into_iter().collect::<Vec<_>>();
-    alias_set.sort();
-    let preludes_str = alias_set
+    let preludes_str = preludes
         .into_iter()
-        .map(|alias| format!(r#"#let {alias} = mitex-scope.at("{alias}", default: none);"#))
+        .flat_map(|(name, modules)| modules.into_iter().map(move |module| (name, module)))
+        .map(|(name, module)| {
+            format!(
+                r#"#let {name} = mitex-scope.at("{name}", default: dictionary({module}).at("{name}", default: none));"#
+            )
+        })
         .collect::<Vec<_>>()
         .join("\n");
     std::fs::write(
-- 
2.43.0


From e8a81e14f24f2e107b0f33d34cdd83a5cce0a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 47/56] fix: an empty alignedat environment called its function
 without the body

---
 crates/mitex/src/converter.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index f88c5f1..cbd413a 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -972,10 +972,25 @@ impl Converter {
 
             f.write_char('(')?;
             // named args
+            let mut has_args = false;
             for (index, arg) in args.enumerate() {
                 f.write_str(format!("arg{}: ", index).as_str())?;
                 self.convert(f, rowan::NodeOrToken::Node(arg), spec)?;
                 f.write_char(',')?;
+                has_args = true;
+            }
+            // behind named args, Typst takes nothing for no argument
+            let is_empty = || {
+                elem.as_node().unwrap().children_with_tokens().all(|child| {
+                    child.kind().is_trivia()
+                        || matches!(
+                            child.kind(),
+                            LatexSyntaxKind::ItemBegin | LatexSyntaxKind::ItemEnd
+                        )
+                })
+            };
+            if has_args && matches!(env_kind, LaTeXEnv::Math) && is_empty() {
+                f.write_str("zws ")?;
             }
 
             for child in elem.as_node().unwrap().children_with_tokens() {
-- 
2.43.0


From c30eb0ffa49d9022affab6792521d577a3e352b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:28 +0000
Subject: [PATCH 48/56] fix: an alignedat environment with only a label called
 its function without the body

---
 crates/mitex/src/converter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index cbd413a..1e5e771 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -980,6 +980,11 @@ impl Converter {
                 has_args = true;
             }
             // behind named args, Typst takes nothing for no argument
+            let is_label = |child: &LatexSyntaxElem| {
+                let cmd = child.as_node().cloned().and_then(CmdItem::cast);
+                let name = cmd.and_then(|cmd| cmd.name_tok());
+                name.map_or(false, |name| name.text() == "\\label")
+            };
             let is_empty = || {
                 elem.as_node().unwrap().children_with_tokens().all(|child| {
                     child.kind().is_trivia()
@@ -987,6 +992,7 @@ impl Converter {
                             child.kind(),
                             LatexSyntaxKind::ItemBegin | LatexSyntaxKind::ItemEnd
                         )
+                        || is_label(&child)
                 })
             };
             if has_args && matches!(env_kind, LaTeXEnv::Math) && is_empty() {
-- 
2.43.0


From fe8369aad750920abda9802b830bb4a3ad902da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:36 +0000
Subject: [PATCH 49/56] fix: comments within labels, paths, image options,
 columns and colour models were taken as their text

---
 crates/mitex/src/converter.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 1e5e771..7af418b 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -93,7 +93,7 @@ impl Converter {
 
 use mitex_parser::syntax::SyntaxElement as LatexSyntaxElem;
 use mitex_parser::syntax::SyntaxKind as LatexSyntaxKind;
-// use mitex_parser::syntax::SyntaxNode as LatexSyntaxNode;
+use mitex_parser::syntax::SyntaxNode as LatexSyntaxNode;
 
 #[derive(Debug)]
 enum ConvertError {
@@ -508,7 +508,7 @@ impl Converter {
             .next()
             .ok_or_else(|| "\\label command must have one argument".to_owned())?;
         // remove { and } then trim
-        let label = arg.text().to_string();
+        let label = literal_text(&arg);
         let label = strip_delimiters(&label, '{', '}').trim();
         match self.env {
             LaTeXEnv::None | LaTeXEnv::Itemize | LaTeXEnv::Enumerate => {
@@ -541,12 +541,12 @@ impl Converter {
             })
             .ok_or_else(|| "\\includegraphics command must have one argument".to_owned())?;
         // remove { and } then trim
-        let body = arg.text().to_string();
+        let body = literal_text(&arg);
         let body = strip_delimiters(&body, '{', '}').trim();
         f.write_str("#image(")?;
         // optional arguments
         if let Some(opt_arg) = opt_arg {
-            let arg_text = opt_arg.text().to_string();
+            let arg_text = literal_text(&opt_arg);
             let arg_text = strip_delimiters(&arg_text, '[', ']').trim();
             // example: \includegraphics[width=0.5\textwidth, height=3cm,
             // angle=45]{example-image} split by comma and convert
@@ -662,7 +662,7 @@ impl Converter {
             });
 
             if is_model {
-                let text = first.unwrap().text().to_string();
+                let text = literal_text(&first.unwrap());
                 // Remove brackets safely
                 let model = text.get(1..text.len() - 1).map(String::from);
                 (
@@ -1151,7 +1151,7 @@ impl Converter {
             .arguments()
             .next()
             .ok_or_else(|| "tabular environment must have one argument".to_owned())?;
-        let arg = arg.text().to_string();
+        let arg = literal_text(&arg);
         // remove { and } then trim
         let arg = strip_delimiters(&arg, '{', '}').trim();
         // split arg to get alignments and vertical lines
@@ -1401,6 +1401,15 @@ fn strip_delimiters(text: &str, open: char, close: char) -> &str {
     }
 }
 
+/// The text of an argument that is taken literally, without its comments
+fn literal_text(arg: &LatexSyntaxNode) -> String {
+    arg.descendants_with_tokens()
+        .filter_map(|elem| elem.into_token())
+        .filter(|token| token.kind() != LatexSyntaxKind::TokenComment)
+        .map(|token| token.text().to_string())
+        .collect()
+}
+
 struct TypstRepr {
     elem: LatexSyntaxElem,
     mode: LaTeXMode,
-- 
2.43.0


From 06e0c28af3159f6b44a13f85e5d9bc87037c6a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:05 +0000
Subject: [PATCH 50/56] fix: colours whose model has spaces or a comment around
 it were ignored

---
 crates/mitex/src/converter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 7af418b..da9a735 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -636,7 +636,8 @@ impl Converter {
                         break;
                     }
                     match e {
-                        LatexSyntaxElem::Node(n) => s.push_str(&n.text().to_string()),
+                        LatexSyntaxElem::Node(n) => s.push_str(&literal_text(&n)),
+                        LatexSyntaxElem::Token(t) if t.kind() == LatexSyntaxKind::TokenComment => {}
                         LatexSyntaxElem::Token(t) => s.push_str(t.text()),
                     }
                 }
@@ -685,7 +686,7 @@ impl Converter {
         match model {
             Some(m) => {
                 f.write_char('[')?;
-                write_literal(f, &m)?;
+                write_literal(f, m.trim())?;
                 f.write_str("], ")?;
             }
             None => f.write_str("none, ")?,
-- 
2.43.0


From c42259ca7d1f92b5acd9475a78b1ae5bb457c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:53 +0000
Subject: [PATCH 51/56] fix: image sizes that Typst does not know were written
 as code that breaks the document

---
 crates/mitex/src/converter.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index da9a735..25f37b3 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -562,8 +562,10 @@ impl Converter {
                     (key, value)
                 })
                 .collect::<Vec<_>>();
-            for (key, value) in args.iter() {
-                if matches!(key, &"width" | &"height") {
+            for (index, (key, value)) in args.iter().enumerate() {
+                // the last one counts
+                let is_overridden = args[index + 1..].iter().any(|(other, _)| other == key);
+                if matches!(key, &"width" | &"height") && !is_overridden {
                     f.write_str(key)?;
                     f.write_char(':')?;
                     f.write_char(' ')?;
@@ -575,10 +577,20 @@ impl Converter {
                     ]
                     .iter()
                     .find_map(|unit| value.strip_suffix(unit));
-                    match relative.map(str::trim) {
-                        Some("") => f.write_str("100%")?,
-                        Some(factor) => write!(f, "{} * 100%", factor)?,
-                        None => f.write_str(value)?,
+                    let number = |num: &str| num.parse::<f64>().ok().filter(|n| n.is_finite());
+                    let absolute = || {
+                        let unit = ["pt", "mm", "cm", "in", "em"]
+                            .into_iter()
+                            .find(|unit| value.ends_with(unit))?;
+                        Some((number(value.strip_suffix(unit)?.trim())?, unit))
+                    };
+                    match (relative.map(str::trim), absolute()) {
+                        (Some(""), _) => f.write_str("100%")?,
+                        (Some(factor), _) if number(factor).is_some() => {
+                            write!(f, "{} * 100%", number(factor).unwrap_or_default())?
+                        }
+                        (None, Some((num, unit))) => write!(f, "{}{}", num, unit)?,
+                        _ => Err(format!("unsupported image size: {}", value))?,
                     }
                     f.write_char(',')?;
                     f.write_char(' ')?;
-- 
2.43.0


From f1edac4f4003edc36cd669c674f79a0dec146886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:43 +0000
Subject: [PATCH 52/56] fix: a line break in the text of a cell or group was
 written as the end of a row, or lost

---
 crates/mitex/src/converter.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 25f37b3..90f717c 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -874,6 +874,12 @@ impl Converter {
             f.write_char(')')?;
         } else {
             // Text mode
+            // the text is not split into the cells and rows that are around it
+            let is_split = matches!(
+                self.env,
+                LaTeXEnv::Matrix | LaTeXEnv::Cases | LaTeXEnv::MathCurlyGroup
+            );
+            let outer_env = is_split.then(|| self.enter_env(LaTeXEnv::Math));
             for arg in args {
                 let kind = arg.kind();
                 if matches!(kind, LatexSyntaxKind::ClauseArgument) {
@@ -884,6 +890,9 @@ impl Converter {
                     f.write_char(']')?;
                 }
             }
+            if let Some(outer_env) = outer_env {
+                self.exit_env(outer_env);
+            }
             f.write_char(';')?;
         }
 
-- 
2.43.0


From 3c1ec32dfcab7065c41650fdf4e369e9d4a32584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:39 +0000
Subject: [PATCH 53/56] fix: special commands that the given table lacks were
 converted, or panicked

---
 crates/mitex/src/converter.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 90f717c..1af4eaf 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -275,6 +275,7 @@ impl Converter {
                 let name = &name[1..];
 
                 match name {
+                    _ if spec.get_cmd(name).is_none() => Err(unknown_command(name))?,
                     "item" => {
                         self.convert_command_item(f)?;
                     }
@@ -471,7 +472,7 @@ impl Converter {
         // get cmd_shape and arg_shape from spec
         let cmd_shape = spec
             .get_cmd(name)
-            .ok_or_else(|| format!("unknown command: \\{}", name))?;
+            .ok_or_else(|| unknown_command(name))?;
         // typst alias name
         let typst_name = cmd_shape.alias.as_deref().unwrap_or(name);
         // write to output
@@ -624,7 +625,10 @@ impl Converter {
 
         // Parse arguments: (model, color, body)
         let (model, color, body) = if cmd_name == "\\color" {
-            let root = cmd.arguments().next().expect("greedy cmd has args");
+            let root = cmd
+                .arguments()
+                .next()
+                .ok_or_else(|| "\\color command must have one argument".to_owned())?;
             let mut iter = root.children_with_tokens().peekable();
 
             // Skip trivia
@@ -796,7 +800,7 @@ impl Converter {
         // get cmd_shape and arg_shape from spec
         let cmd_shape = spec
             .get_cmd(name)
-            .ok_or_else(|| format!("unknown command: \\{}", name))?;
+            .ok_or_else(|| unknown_command(name))?;
         let arg_shape = &cmd_shape.args;
 
         // typst alias name
@@ -1122,6 +1126,9 @@ impl Converter {
                 let name = name.text();
                 // remove prefix \
                 let name = &name[1..];
+                if spec.get_cmd(name).is_none() {
+                    Err(unknown_command(name))?
+                }
                 if name == "caption" {
                     let arg = cmd
                         .arguments()
@@ -1257,6 +1264,9 @@ impl Converter {
                             .unwrap();
                         let cmd_name = &cmd_name.text()[1..];
                         match cmd_name {
+                            _ if spec.get_cmd(cmd_name).is_none() => {
+                                Err(unknown_command(cmd_name))?
+                            }
                             "hline" => {
                                 f.write_str("table.hline(stroke: .5pt),\n")?;
                             }
@@ -1413,6 +1423,11 @@ fn fill_row(f: &mut fmt::Formatter<'_>, cells: usize, columns: usize) -> fmt::Re
     Ok(())
 }
 
+/// The message for a command that the specification does not have
+fn unknown_command(name: &str) -> String {
+    format!("unknown command: \\{}", name)
+}
+
 /// Remove the delimiters around the text of an argument. The text is not
 /// delimited if the argument is a single token, and lacks the closing delimiter
 /// if the argument is not closed.
-- 
2.43.0


From 0359cb358a253ea028d865be9fcabafbc89bf3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:02 +0000
Subject: [PATCH 54/56] fix: the optional argument of a macro was read as the
 last one, and never from brackets

---
 crates/mitex-lexer/src/macro_engine.rs | 44 +++++++++++++++++++-------
 crates/mitex-lexer/src/stream.rs       | 22 +++++++++++++
 2 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index e86a573..ef5f220 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -821,6 +821,36 @@ impl<'a> MacroEngine<'a> {
         }
 
         let mut num_of_read: u8 = 0;
+
+        // The optional argument is the first one, in brackets or the default
+        if let Some(default) = opt {
+            let mut trivia = Vec::new();
+            while let Some(e) = ctx.peek_full().filter(|e| e.0.is_trivia()) {
+                trivia.push(e);
+                ctx.next_token();
+            }
+
+            if ctx.peek() == Some(Token::Left(BraceKind::Bracket)) {
+                ctx.next_token();
+                let Some(arg) = ctx.read_bracketed() else {
+                    ctx.push_outer((Token::Error, "unclosed optional argument"));
+                    return None;
+                };
+                args.push(arg);
+            } else {
+                args.push(default);
+                ctx.extend_inner(trivia.into_iter().rev());
+                if ctx.peek_inner.peeked.is_none() {
+                    ctx.next_token();
+                }
+            }
+
+            num_of_read += 1;
+            if num_of_read == num_args {
+                return Some(args);
+            }
+        }
+
         loop {
             match ctx.peek_not_trivia() {
                 Some(Token::Left(BraceKind::Curly)) => {
@@ -870,18 +900,8 @@ impl<'a> MacroEngine<'a> {
         }
 
         if num_of_read != num_args {
-            let mut ok = false;
-            if num_args - num_of_read == 1 {
-                if let Some(opt) = opt {
-                    args.push(opt);
-                    ok = true;
-                }
-            }
-
-            if !ok {
-                ctx.push_outer((Token::Error, "invalid number of arguments"));
-                return None;
-            }
+            ctx.push_outer((Token::Error, "invalid number of arguments"));
+            return None;
         }
 
         Some(args)
diff --git a/crates/mitex-lexer/src/stream.rs b/crates/mitex-lexer/src/stream.rs
index 1f75098..a1dfc48 100644
--- a/crates/mitex-lexer/src/stream.rs
+++ b/crates/mitex-lexer/src/stream.rs
@@ -207,4 +207,26 @@ impl<'a> StreamContext<'a> {
         self.eat_if(until_tok);
         res
     }
+
+    /// Read the tokens up to the closing bracket, which must stand in the same
+    /// group
+    pub fn read_bracketed(&mut self) -> Option<Vec<Tok<'a>>> {
+        let mut curly_level = 0;
+        let mut res = Vec::new();
+        while let Some(tok) = self.peek_full() {
+            match tok.0 {
+                Token::Right(BraceKind::Bracket) if curly_level == 0 => {
+                    self.next_token();
+                    return Some(res);
+                }
+                Token::Left(BraceKind::Curly) => curly_level += 1,
+                Token::Right(BraceKind::Curly) if curly_level == 0 => return None,
+                Token::Right(BraceKind::Curly) => curly_level -= 1,
+                _ => {}
+            }
+            res.push(tok);
+            self.next_token();
+        }
+        None
+    }
 }
-- 
2.43.0


From 3ac403b031e9de7ff62031bfc448d0ed31da60fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:59 +0000
Subject: [PATCH 55/56] fix: an environment with greedy arguments panicked

---
 crates/mitex-parser/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index a1b6c32..7e8c52d 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -719,7 +719,8 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
     /// - Term/t: any rest of terms, typically {} or single char
     #[inline]
     fn match_arguments_<const GREEDY: bool>(&mut self, mut searcher: ArgMatcher) {
-        assert!((GREEDY == searcher.is_greedy()), "GREEDY mismatched");
+        // The greedy arguments of an environment are wrapped like any others
+        assert!((!GREEDY || searcher.is_greedy()), "GREEDY mismatched");
 
         // const WRAP_ARGS = !GREEDY
         macro_rules! k_wrap_args {
-- 
2.43.0


From 6c924da6d24c2e4edc077cbff4005aa2a82b2a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:03 +0000
Subject: [PATCH 56/56] fix: a command with up to 255 arguments overflowed
 their count

---
 crates/mitex-parser/src/arg_match.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-parser/src/arg_match.rs b/crates/mitex-parser/src/arg_match.rs
index cc96df1..a6c225d 100644
--- a/crates/mitex-parser/src/arg_match.rs
+++ b/crates/mitex-parser/src/arg_match.rs
@@ -65,7 +65,9 @@ impl ArgMatcher {
                     return false;
                 }
                 let ct = *counter < *max;
-                *counter += 1;
+                if ct {
+                    *counter += 1;
+                }
                 ct
             }
             Self::Glob { ref re, prefix } => {
-- 
2.43.0

