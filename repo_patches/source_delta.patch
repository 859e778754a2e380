From 2529ce2f75fc4f5b8f6f827110f3d0d8a79fd14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 01/51] fix: default the compile output to the .typ file
 instead of overwriting the .tex input

---
 crates/mitex-cli/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-cli/src/lib.rs b/crates/mitex-cli/src/lib.rs
index d961afb..e51b134 100644
--- a/crates/mitex-cli/src/lib.rs
+++ b/crates/mitex-cli/src/lib.rs
@@ -227,7 +227,7 @@ fn process_opts(mut opts: Opts) -> Result<Opts, clap::Error> {
         }
         if args.output.is_empty() {
             std::path::Path::new(&args.input)
-                .with_extension("tex")
+                .with_extension("typ")
                 .to_str()
                 .ok_or_else(|| {
                     clap::Error::raw(
-- 
2.43.0


From 673db84235b5f430c3be3666b27e66934e7393fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 02/51] fix: do not count a single-character macro argument
 twice

---
 crates/mitex-lexer/src/macro_engine.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 64e5ba9..e64f656 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -804,6 +804,8 @@ impl<'a> MacroEngine<'a> {
                     if num_of_read == num_args {
                         break;
                     }
+                    // already counted per character
+                    continue;
                 }
                 Some(_) => {
                     args.push(vec![ctx.peek_full().unwrap()]);
-- 
2.43.0


From 06410ebfd4ebdcf418e9e2cd041c1d3d5c7f367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 03/51] fix: an else clause does not close a nested conditional
 in a skipped branch

---
 crates/mitex-lexer/src/macro_engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index e64f656..104bbf6 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -454,7 +454,8 @@ impl<'a> MacroEngine<'a> {
                     ctx.next_token();
                     nested += 1;
                 }
-                Token::CommandName(CommandName::Else) | Token::CommandName(CommandName::EndIf) => {
+                Token::CommandName(CommandName::Else) if nested == 0 => break,
+                Token::CommandName(CommandName::EndIf) => {
                     if nested == 0 {
                         break;
                     }
-- 
2.43.0


From 1640d366e56ec39c9d7d054221f997e90d38a06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 04/51] fix: do not panic on a macro definition that ends with
 a hash

---
 crates/mitex-lexer/src/macro_engine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 104bbf6..889ae0e 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -957,7 +957,9 @@ impl<'a> MacroEngine<'a> {
         let mut empty_texts = false;
         for i in 0..def.len() {
             if def[i].0 == Token::Hash {
-                let next = def.get_mut(i + 1).unwrap();
+                let Some(next) = def.get_mut(i + 1) else {
+                    continue;
+                };
                 if next.0 == Token::Word {
                     let Some(first_char) = next.1.chars().next() else {
                         continue;
-- 
2.43.0


From b1c0356d10eaee29f600c5d2ee91cfa4576c9dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 05/51] fix: count the line break after a comment when lexing
 an environment name

---
 crates/mitex-lexer/src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/token.rs b/crates/mitex-lexer/src/token.rs
index e5bf6d8..0531332 100644
--- a/crates/mitex-lexer/src/token.rs
+++ b/crates/mitex-lexer/src/token.rs
@@ -374,10 +374,10 @@ fn lex_begin_end(lexer: &mut logos::Lexer<Token>, is_begin: bool) -> CommandName
                 if c == '%' {
                     self.collected += c.len_utf8();
                     for c in self.chars.by_ref() {
+                        self.collected += c.len_utf8();
                         if c == '\n' || c == '\r' {
                             break;
                         }
-                        self.collected += c.len_utf8();
                     }
                     continue;
                 }
-- 
2.43.0


From bfc3fe2b16abf12c5dba5eb2f8f8df3fa1e9e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 06/51] fix: do not panic when an environment clause is given
 as the macro name

---
 crates/mitex-lexer/src/macro_engine.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 889ae0e..27c3892 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -673,8 +673,7 @@ impl<'a> MacroEngine<'a> {
         } else {
             ctx.peek_cmd_name_opt(BraceKind::Curly)?
                 .1
-                .strip_prefix('\\')
-                .unwrap()
+                .strip_prefix('\\')?
         };
 
         #[derive(Clone, Copy, PartialEq)]
-- 
2.43.0


From 26c5da97a18817b1063b430135b4c7013b1194c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 07/51] fix: skip spaces and comments between the parts of a
 macro definition

---
 crates/mitex-lexer/src/macro_engine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 27c3892..d17a0c5 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -689,7 +689,7 @@ impl<'a> MacroEngine<'a> {
         let mut opt = None;
         let def;
         'match_loop: loop {
-            let nx = ctx.peek()?;
+            let nx = ctx.peek_not_trivia()?;
 
             match (state, nx) {
                 (MatchState::NArgs, Token::Left(BraceKind::Bracket)) => {
@@ -730,7 +730,7 @@ impl<'a> MacroEngine<'a> {
             DeclareCmdOrEnv::NewEnvironment { renew, star: _ } => {
                 is_env = true;
 
-                if matches!(ctx.peek()?, Token::Left(BraceKind::Curly)) {
+                if matches!(ctx.peek_not_trivia()?, Token::Left(BraceKind::Curly)) {
                     ctx.next_token();
                     end_def = Some(ctx.read_until_balanced(BraceKind::Curly));
                 }
-- 
2.43.0


From 4b91c96869d236b74f80ca3786670b2243dbfca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 08/51] fix: do not define or expand macros inside of a
 commented-out \iffalse block

---
 crates/mitex-lexer/src/macro_engine.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index d17a0c5..d445adf 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -423,11 +423,11 @@ impl<'a> MacroEngine<'a> {
                 //
                 // If it is a real macro, it will be expanded into tokens so parser is unaware of
                 // the macro.
-                Token::CommandName(CommandName::Generic) => {
+                Token::CommandName(CommandName::Generic) if !self.inside_iffalse() => {
                     self.trapped_by_macro(ctx, token, &token.1[1..], false);
                 }
                 // a begin environment token traps stream into a macro checking
-                Token::CommandName(CommandName::BeginEnvironment) => {
+                Token::CommandName(CommandName::BeginEnvironment) if !self.inside_iffalse() => {
                     self.trapped_by_macro(ctx, token, token.1, true);
                 }
                 // The token is impossible to relate to some macro
@@ -445,6 +445,12 @@ impl<'a> MacroEngine<'a> {
         ctx.peek_outer.peeked = ctx.peek_outer.buf.pop();
     }
 
+    /// Whether the stream is inside of a false branch, which is kept as a block
+    /// comment. Macros are neither defined nor expanded there.
+    fn inside_iffalse(&self) -> bool {
+        self.reading_if.contains(&Some(IfState::LitFalse))
+    }
+
     /// Skip tokens until a balanced \fi
     fn skip_false_tokens(&mut self, ctx: &mut StreamContext<'a>) {
         let mut nested = 0;
-- 
2.43.0


From 9e9827bb926dbca1d47f554faebb020ef38f02b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 09/51] fix: report an unclosed user-defined environment
 instead of dropping its body

---
 crates/mitex-lexer/src/macro_engine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index d445adf..e00259f 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -850,7 +850,10 @@ impl<'a> MacroEngine<'a> {
         let mut bc = 0;
         let mut body = Vec::new();
         loop {
-            let e = ctx.peek_full()?;
+            let Some(e) = ctx.peek_full() else {
+                ctx.push_outer((Token::Error, "unclosed environment"));
+                return None;
+            };
             if e.0 == Token::CommandName(CommandName::EndEnvironment) {
                 if bc == 0 {
                     if e.1 != name {
-- 
2.43.0


From 461edd8fea8a4ff66968f9c0c077eab59e903acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 10/51] fix: treat the first macro argument as the optional one
 if it has a default value

---
 crates/mitex-lexer/src/macro_engine.rs | 31 +++++++++++++-------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index e00259f..3df7734 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -785,7 +785,19 @@ impl<'a> MacroEngine<'a> {
         }
 
         let mut num_of_read: u8 = 0;
-        loop {
+
+        // The first argument is optional if it has a default value
+        if let Some(opt) = opt {
+            if ctx.peek_not_trivia() == Some(Token::Left(BraceKind::Bracket)) {
+                ctx.next_token();
+                args.push(ctx.read_until_balanced(BraceKind::Bracket));
+            } else {
+                args.push(opt);
+            }
+            num_of_read += 1;
+        }
+
+        while num_of_read != num_args {
             match ctx.peek_not_trivia() {
                 Some(Token::Left(BraceKind::Curly)) => {
                     ctx.next_token();
@@ -823,24 +835,11 @@ impl<'a> MacroEngine<'a> {
             }
 
             num_of_read += 1;
-            if num_of_read == num_args {
-                break;
-            }
         }
 
         if num_of_read != num_args {
-            let mut ok = false;
-            if num_args - num_of_read == 1 {
-                if let Some(opt) = opt {
-                    args.push(opt);
-                    ok = true;
-                }
-            }
-
-            if !ok {
-                ctx.push_outer((Token::Error, "invalid number of arguments"));
-                return None;
-            }
+            ctx.push_outer((Token::Error, "invalid number of arguments"));
+            return None;
         }
 
         Some(args)
-- 
2.43.0


From cd4de5c7c27672bbed894dd207f7554497325327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 11/51] fix: allow to renew the commands and environments of
 the specification

---
 crates/mitex-lexer/src/macro_engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 3df7734..1b732a4 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -586,7 +586,7 @@ impl<'a> MacroEngine<'a> {
                         self.add_macro(name, m);
                     }
                     UpdateAction::Renew => {
-                        if self.get_macro(name).is_none() {
+                        if self.get_macro(name).is_none() && self.spec.get(name).is_none() {
                             ctx.push_outer((Token::Error, name));
                         }
 
-- 
2.43.0


From ee468eb36d330bd3d457cedca97a296d6d460e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 12/51] fix: do not panic on a label command without a braced
 argument

---
 crates/mitex/src/converter.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 32cc3c0..24dc992 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -495,11 +495,10 @@ impl Converter {
         let arg = cmd
             .arguments()
             .next()
-            .expect("\\label command must have one argument");
+            .ok_or_else(|| "\\label command must have one argument".to_owned())?;
         // remove { and } then trim
         let label = arg.text().to_string();
-        let label = &label[1..(label.len() - 1)];
-        let label = label.trim();
+        let label = strip_delimiters(&label, '{', '}');
         match self.env {
             LaTeXEnv::None | LaTeXEnv::Itemize | LaTeXEnv::Enumerate => {
                 if matches!(self.mode, LaTeXMode::Text) {
@@ -1190,6 +1189,12 @@ impl Converter {
     }
 }
 
+/// Remove the delimiters around an argument (if any) then trim it
+fn strip_delimiters(text: &str, left: char, right: char) -> &str {
+    let text = text.strip_prefix(left).unwrap_or(text);
+    text.strip_suffix(right).unwrap_or(text).trim()
+}
+
 struct TypstRepr {
     elem: LatexSyntaxElem,
     mode: LaTeXMode,
-- 
2.43.0


From c3ef468bc1d7a451eb102edb1e68fd799da504e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 13/51] fix: do not panic on a caption command without an
 argument

---
 crates/mitex/src/converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 24dc992..5fb0193 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1015,7 +1015,7 @@ impl Converter {
                     let arg = cmd
                         .arguments()
                         .next()
-                        .expect("\\caption command must have one argument");
+                        .ok_or_else(|| "\\caption command must have one argument".to_owned())?;
                     caption = Some(arg);
                 }
             }
-- 
2.43.0


From 43e77323f023439b490922d9d774460057d6d0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 14/51] fix: do not panic on an includegraphics command without
 a braced argument

---
 crates/mitex/src/converter.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 5fb0193..00db16a 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -521,30 +521,24 @@ impl Converter {
         cmd: &CmdItem,
     ) -> Result<(), ConvertError> {
         let opt_arg = cmd.arguments().find(|arg| {
-            matches!(
-                arg.first_child().unwrap().kind(),
-                LatexSyntaxKind::ItemBracket
-            )
+            arg.first_child()
+                .is_some_and(|child| child.kind() == LatexSyntaxKind::ItemBracket)
         });
         let arg = cmd
             .arguments()
             .find(|arg| {
-                matches!(
-                    arg.first_child().unwrap().kind(),
-                    LatexSyntaxKind::ItemCurly
-                )
+                arg.first_child()
+                    .is_some_and(|child| child.kind() == LatexSyntaxKind::ItemCurly)
             })
-            .expect("\\includegraphics command must have one argument");
+            .ok_or_else(|| "\\includegraphics command must have one argument".to_owned())?;
         // remove { and } then trim
         let body = arg.text().to_string();
-        let body = &body[1..(body.len() - 1)];
-        let body = body.trim();
+        let body = strip_delimiters(&body, '{', '}');
         f.write_str("#image(")?;
         // optional arguments
         if let Some(opt_arg) = opt_arg {
             let arg_text = opt_arg.text().to_string();
-            let arg_text = &arg_text[1..(arg_text.len() - 1)];
-            let arg_text = arg_text.trim();
+            let arg_text = strip_delimiters(&arg_text, '[', ']');
             // example: \includegraphics[width=0.5\textwidth, height=3cm,
             // angle=45]{example-image} split by comma and convert
             // to key-value pairs
-- 
2.43.0


From c793fde63d682f58f3e2236e0c4980b174780421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 15/51] fix: do not panic on a tabular environment without a
 braced argument

---
 crates/mitex/src/converter.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 00db16a..217d498 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1055,11 +1055,10 @@ impl Converter {
         let arg = env
             .arguments()
             .next()
-            .expect("tabular environment must have one argument");
+            .ok_or_else(|| "tabular environment must have one argument".to_owned())?;
         let arg = arg.text().to_string();
         // remove { and } then trim
-        let arg = &arg[1..(arg.len() - 1)];
-        let arg = arg.trim();
+        let arg = strip_delimiters(&arg, '{', '}');
         // split arg to get alignments and vertical lines
         let mut alignments: Vec<char> = vec![];
         let mut vlines: Vec<usize> = vec![];
-- 
2.43.0


From 921608683c825b99bdc7b5280eb6682c94a1ec24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 16/51] fix: convert with the given command specification
 instead of the default one

---
 crates/mitex/src/converter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 217d498..8fbe6f3 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1213,7 +1213,8 @@ pub fn convert_inner(
     spec: Option<CommandSpec>,
     do_parse: fn(input: &str, spec: CommandSpec) -> SyntaxNode,
 ) -> Result<String, String> {
-    let node = do_parse(input, spec.unwrap_or_else(|| DEFAULT_SPEC.clone()));
+    let spec = spec.unwrap_or_else(|| DEFAULT_SPEC.clone());
+    let node = do_parse(input, spec.clone());
     // println!("{:#?}", node);
     // println!("{:#?}", node.text());
     let mut output = String::new();
@@ -1222,7 +1223,7 @@ pub fn convert_inner(
     let repr = TypstRepr {
         elem: LatexSyntaxElem::Node(node),
         mode,
-        spec: DEFAULT_SPEC.clone(),
+        spec,
         error: err.clone(),
     };
     core::fmt::write(&mut output, format_args!("{}", repr)).map_err(|_| err.borrow().to_owned())?;
-- 
2.43.0


From 912a8a43b16f63bf8f722965fff2c963e948ea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 17/51] fix: do not panic on an infix or left-associative
 command used as a script

---
 crates/mitex-parser/src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 063f13a..edb700f 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -812,7 +812,13 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
 
         if has_script {
             self.trivia();
+            // The script must not associate with the items before the operator, which
+            // have been wrapped already
+            let list_state = self.list_state;
+            self.list_state.may_store_start(None);
+            self.list_state.may_store_last(None);
             self.content(false);
+            self.list_state = list_state;
         }
 
         self.builder.finish_node();
-- 
2.43.0


From dff6c8464530319bd14d6cff4b51b943ff40ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 18/51] fix: DeclareRobustCommand does not complain about an
 existing command

---
 crates/mitex-lexer/src/macro_engine.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 1b732a4..2b3fc6d 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -328,6 +328,7 @@ enum UpdateAction {
     New,
     Renew,
     Provide,
+    Declare,
 }
 
 #[derive(Clone, Copy, PartialEq)]
@@ -592,6 +593,9 @@ impl<'a> MacroEngine<'a> {
 
                         self.add_macro(name, m);
                     }
+                    UpdateAction::Declare => {
+                        self.add_macro(name, m);
+                    }
                     UpdateAction::Provide => {
                         if self.get_macro(name).is_none() {
                             self.add_macro(name, m);
@@ -731,7 +735,7 @@ impl<'a> MacroEngine<'a> {
                     UpdateAction::New
                 }
             }
-            DeclareCmdOrEnv::DeclareRobustCommand { star: _ } => UpdateAction::New,
+            DeclareCmdOrEnv::DeclareRobustCommand { star: _ } => UpdateAction::Declare,
             DeclareCmdOrEnv::ProvideCommand { star: _ } => UpdateAction::Provide,
             DeclareCmdOrEnv::NewEnvironment { renew, star: _ } => {
                 is_env = true;
-- 
2.43.0


From 5809ba961328f26e8eed22cc4e0302782ff4a8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 19/51] fix: do not panic on a color command that is not in the
 specification

---
 crates/mitex/src/converter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 8fbe6f3..61a925d 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -600,7 +600,10 @@ impl Converter {
 
         // Parse arguments: (model, color, body)
         let (model, color, body) = if cmd_name == "\\color" {
-            let root = cmd.arguments().next().expect("greedy cmd has args");
+            let root = cmd
+                .arguments()
+                .next()
+                .ok_or_else(|| "\\color command must have one argument".to_owned())?;
             let mut iter = root.children_with_tokens().peekable();
 
             // Skip trivia
-- 
2.43.0


From c4c4da331c9a247be4e4f10eb71bb6c59818b907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 20/51] fix: the end of a nested formula does not close the
 outer formula

---
 crates/mitex-parser/src/syntax.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/crates/mitex-parser/src/syntax.rs b/crates/mitex-parser/src/syntax.rs
index 445c768..c9de78b 100644
--- a/crates/mitex-parser/src/syntax.rs
+++ b/crates/mitex-parser/src/syntax.rs
@@ -255,18 +255,23 @@ impl FormulaItem {
 
     /// Checks whether the formula is valid
     pub fn is_valid(&self) -> bool {
-        self.syntax().first_token().is_some_and(|first_node| {
-            self.syntax().last_token().is_some_and(|last_node| {
-                if first_node.kind() == TokenDollar && last_node.kind() == TokenDollar {
-                    return (first_node.text() == "$" && last_node.text() == "$")
-                        || (first_node.text() == "$$" && last_node.text() == "$$");
-                } else if first_node.kind() == TokenBeginMath && last_node.kind() == TokenEndMath {
-                    return (first_node.text() == "\\(" && last_node.text() == "\\)")
-                        || (first_node.text() == "\\[" && last_node.text() == "\\]");
-                }
-                false
-            })
-        })
+        let first_token = self.syntax().first_child_or_token();
+        let last_token = self.syntax().last_child_or_token();
+        let (Some(first_node), Some(last_node)) = (
+            first_token.and_then(SyntaxElement::into_token),
+            last_token.and_then(SyntaxElement::into_token),
+        ) else {
+            return false;
+        };
+
+        if first_node.kind() == TokenDollar && last_node.kind() == TokenDollar {
+            return (first_node.text() == "$" && last_node.text() == "$")
+                || (first_node.text() == "$$" && last_node.text() == "$$");
+        } else if first_node.kind() == TokenBeginMath && last_node.kind() == TokenEndMath {
+            return (first_node.text() == "\\(" && last_node.text() == "\\)")
+                || (first_node.text() == "\\[" && last_node.text() == "\\]");
+        }
+        false
     }
 }
 
-- 
2.43.0


From 0f5d5f619aa6a7f3038313d14678e2527bf4d794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 21/51] fix: a group that only contains a comment is an empty
 group

---
 crates/mitex/src/converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 61a925d..c0fda8a 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -346,7 +346,7 @@ impl Converter {
         let mut zws = true;
         for child in elem.as_node().unwrap().children_with_tokens() {
             match &child.kind() {
-                TokenWhiteSpace | TokenLineBreak | TokenLBrace | TokenRBrace => {}
+                TokenWhiteSpace | TokenLineBreak | TokenComment | TokenLBrace | TokenRBrace => {}
                 _ => {
                     zws = false;
                 }
-- 
2.43.0


From 7f2f7eaaf673cb0a811c2825649ebd74117e7d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:32 +0000
Subject: [PATCH 22/51] fix: a comment does not start a table cell

---
 crates/mitex/src/converter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index c0fda8a..39d7a96 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1118,7 +1118,9 @@ impl Converter {
             // preprocess if exterior
             if exterior {
                 match child.kind() {
-                    LatexSyntaxKind::TokenWhiteSpace | LatexSyntaxKind::TokenLineBreak => {}
+                    LatexSyntaxKind::TokenWhiteSpace
+                    | LatexSyntaxKind::TokenLineBreak
+                    | LatexSyntaxKind::TokenComment => {}
                     LatexSyntaxKind::TokenAmpersand => {
                         // write `[],` for empty exterior when encountering &
                         f.write_str("[], ")?;
-- 
2.43.0


From 55a732335037c40ea6c22ce593473ba08d2519f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 23/51] fix: drop comments in the arguments that are used as
 raw text

---
 crates/mitex/src/converter.rs | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 39d7a96..a9af4c0 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -497,7 +497,7 @@ impl Converter {
             .next()
             .ok_or_else(|| "\\label command must have one argument".to_owned())?;
         // remove { and } then trim
-        let label = arg.text().to_string();
+        let label = raw_text(arg.into());
         let label = strip_delimiters(&label, '{', '}');
         match self.env {
             LaTeXEnv::None | LaTeXEnv::Itemize | LaTeXEnv::Enumerate => {
@@ -532,12 +532,12 @@ impl Converter {
             })
             .ok_or_else(|| "\\includegraphics command must have one argument".to_owned())?;
         // remove { and } then trim
-        let body = arg.text().to_string();
+        let body = raw_text(arg.into());
         let body = strip_delimiters(&body, '{', '}');
         f.write_str("#image(")?;
         // optional arguments
         if let Some(opt_arg) = opt_arg {
-            let arg_text = opt_arg.text().to_string();
+            let arg_text = raw_text(opt_arg.into());
             let arg_text = strip_delimiters(&arg_text, '[', ']');
             // example: \includegraphics[width=0.5\textwidth, height=3cm,
             // angle=45]{example-image} split by comma and convert
@@ -626,10 +626,7 @@ impl Converter {
                     if e.kind() == LatexSyntaxKind::TokenRBracket {
                         break;
                     }
-                    match e {
-                        LatexSyntaxElem::Node(n) => s.push_str(&n.text().to_string()),
-                        LatexSyntaxElem::Token(t) => s.push_str(t.text()),
-                    }
+                    s.push_str(&raw_text(e));
                 }
                 Some(s)
             } else {
@@ -648,12 +645,12 @@ impl Converter {
 
             // Check if the first argument is an optional [model]
             let is_model = first.as_ref().is_some_and(|n| {
-                let t = n.text().to_string();
+                let t = raw_text(n.clone().into());
                 t.starts_with('[') && t.ends_with(']') && t.len() >= 2
             });
 
             if is_model {
-                let text = first.unwrap().text().to_string();
+                let text = raw_text(first.unwrap().into());
                 // Remove brackets safely
                 let model = text.get(1..text.len() - 1).map(String::from);
                 (
@@ -1059,7 +1056,7 @@ impl Converter {
             .arguments()
             .next()
             .ok_or_else(|| "tabular environment must have one argument".to_owned())?;
-        let arg = arg.text().to_string();
+        let arg = raw_text(arg.into());
         // remove { and } then trim
         let arg = strip_delimiters(&arg, '{', '}');
         // split arg to get alignments and vertical lines
@@ -1187,6 +1184,21 @@ impl Converter {
     }
 }
 
+/// The source text of an argument without its comments
+fn raw_text(elem: LatexSyntaxElem) -> String {
+    match elem {
+        LatexSyntaxElem::Node(node) => node
+            .children_with_tokens()
+            .filter(|child| child.kind() != LatexSyntaxKind::ItemBlockComment)
+            .map(raw_text)
+            .collect(),
+        LatexSyntaxElem::Token(token) if token.kind() == LatexSyntaxKind::TokenComment => {
+            String::new()
+        }
+        LatexSyntaxElem::Token(token) => token.text().to_owned(),
+    }
+}
+
 /// Remove the delimiters around an argument (if any) then trim it
 fn strip_delimiters(text: &str, left: char, right: char) -> &str {
     let text = text.strip_prefix(left).unwrap_or(text);
-- 
2.43.0


From 48ac3c49ffe696d265a8c32135fa40f6248d2e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 24/51] fix: a prefix may end in the middle of a brace
 alternative

---
 crates/mitex-glob/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/mitex-glob/src/lib.rs b/crates/mitex-glob/src/lib.rs
index 0721bd7..fa73304 100644
--- a/crates/mitex-glob/src/lib.rs
+++ b/crates/mitex-glob/src/lib.rs
@@ -73,6 +73,11 @@ fn glob_match_internal<'a>(
   }
 
   while state.glob_index < glob.len() || state.path_index < path.len() {
+    // The whole path is matched by a part of the glob, possibly in the middle of an option.
+    if is_prefix && state.path_index == path.len() {
+      return !negated;
+    }
+
     if state.glob_index < glob.len() {
       match glob[state.glob_index] {
         b'*' => {
-- 
2.43.0


From c80892fd07f91feb3967b64410d842d03d1be507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 25/51] fix: report an unclosed macro argument instead of
 expanding forever

---
 crates/mitex-lexer/src/macro_engine.rs | 17 +++++++++++++++--
 crates/mitex-lexer/src/stream.rs       |  9 ++++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 2b3fc6d..78f8c94 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -794,7 +794,7 @@ impl<'a> MacroEngine<'a> {
         if let Some(opt) = opt {
             if ctx.peek_not_trivia() == Some(Token::Left(BraceKind::Bracket)) {
                 ctx.next_token();
-                args.push(ctx.read_until_balanced(BraceKind::Bracket));
+                args.push(Self::read_closed_arg(ctx, BraceKind::Bracket)?);
             } else {
                 args.push(opt);
             }
@@ -805,7 +805,7 @@ impl<'a> MacroEngine<'a> {
             match ctx.peek_not_trivia() {
                 Some(Token::Left(BraceKind::Curly)) => {
                     ctx.next_token();
-                    args.push(ctx.read_until_balanced(BraceKind::Curly));
+                    args.push(Self::read_closed_arg(ctx, BraceKind::Curly)?);
                 }
                 Some(Token::Word) => {
                     let t = ctx.peek_full().unwrap().1;
@@ -849,6 +849,19 @@ impl<'a> MacroEngine<'a> {
         Some(args)
     }
 
+    /// Read an argument whose opening brace is already consumed. An argument
+    /// that never ends is an error: substituting the rest of the input for it
+    /// may go on forever.
+    fn read_closed_arg(ctx: &mut StreamContext<'a>, bk: BraceKind) -> Option<Vec<Tok<'a>>> {
+        let (arg, closed) = ctx.read_balanced(bk);
+        if !closed {
+            ctx.push_outer((Token::Error, "unclosed argument"));
+            return None;
+        }
+
+        Some(arg)
+    }
+
     fn read_env_body(ctx: &mut StreamContext<'a>, name: &str) -> Option<Vec<Tok<'a>>> {
         let mut bc = 0;
         let mut body = Vec::new();
diff --git a/crates/mitex-lexer/src/stream.rs b/crates/mitex-lexer/src/stream.rs
index 1f75098..ff59e08 100644
--- a/crates/mitex-lexer/src/stream.rs
+++ b/crates/mitex-lexer/src/stream.rs
@@ -182,6 +182,12 @@ impl<'a> StreamContext<'a> {
     }
 
     pub fn read_until_balanced(&mut self, bk: BraceKind) -> Vec<Tok<'a>> {
+        self.read_balanced(bk).0
+    }
+
+    /// Like [`Self::read_until_balanced`], but also tells whether the closing
+    /// token was found before the end of the input
+    pub fn read_balanced(&mut self, bk: BraceKind) -> (Vec<Tok<'a>>, bool) {
         let until_tok = Token::Right(bk);
 
         let mut curly_level = 0;
@@ -204,7 +210,8 @@ impl<'a> StreamContext<'a> {
             .take_while(|(e, _)| match_curly(*e))
             .collect();
 
+        let closed = self.peek() == Some(until_tok);
         self.eat_if(until_tok);
-        res
+        (res, closed)
     }
 }
-- 
2.43.0


From 443cd0e02e4e03c413ea00c3ba5c05209677bcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 26/51] fix: a change outside of any snapshot does not make a
 later commit panic

---
 crates/mitex-lexer/src/snapshot_map.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/mitex-lexer/src/snapshot_map.rs b/crates/mitex-lexer/src/snapshot_map.rs
index 60134a0..3969e93 100644
--- a/crates/mitex-lexer/src/snapshot_map.rs
+++ b/crates/mitex-lexer/src/snapshot_map.rs
@@ -73,11 +73,11 @@ where
     pub fn insert(&mut self, key: K, value: V) -> bool {
         match self.map.borrow_mut().insert(key.clone(), value) {
             None => {
-                self.undo_log.push(UndoLog::Inserted(key));
+                self.record(UndoLog::Inserted(key));
                 true
             }
             Some(old_value) => {
-                self.undo_log.push(UndoLog::Overwrite(key, old_value));
+                self.record(UndoLog::Overwrite(key, old_value));
                 false
             }
         }
@@ -86,13 +86,20 @@ where
     pub fn remove(&mut self, key: K) -> bool {
         match self.map.borrow_mut().remove(&key) {
             Some(old_value) => {
-                self.undo_log.push(UndoLog::Overwrite(key, old_value));
+                self.record(UndoLog::Overwrite(key, old_value));
                 true
             }
             None => false,
         }
     }
 
+    /// Changes made outside of any snapshot are never undone
+    fn record(&mut self, undo: UndoLog<K, V>) {
+        if self.undo_log.in_snapshot() {
+            self.undo_log.push(undo);
+        }
+    }
+
     pub fn get<Q>(&self, k: &Q) -> Option<&V>
     where
         K: Borrow<Q>,
-- 
2.43.0


From 1d48d17914b0eee8a8f64e6aca66010cc7767b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 27/51] fix: accept options after the file names on the command
 line

With trailing_var_arg everything after the first file name became a file
name: 'a.tex -o' wrote a file called -o, and named and positional files
could be mixed without being rejected.
---
 crates/mitex-cli/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-cli/src/lib.rs b/crates/mitex-cli/src/lib.rs
index e51b134..ee57228 100644
--- a/crates/mitex-cli/src/lib.rs
+++ b/crates/mitex-cli/src/lib.rs
@@ -128,7 +128,7 @@ pub struct CompileArgs {
     /// ```bash
     /// mitex compile main.tex main.typ
     /// ```
-    #[arg(trailing_var_arg = true, hide = true)]
+    #[arg(hide = true)]
     _i_or_o_args: Vec<String>,
 }
 
-- 
2.43.0


From 3186fe4e4ba2fc465072b4842eec4d7b15b26ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:17 +0000
Subject: [PATCH 28/51] fix: close the last table cell of a row without line
 break

The content bracket of the last cell was left open when the last row did
not end with \\, which made the output invalid Typst.
---
 crates/mitex/src/converter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index a9af4c0..d9c5bc0 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1178,6 +1178,10 @@ impl Converter {
                 }
             }
         }
+        // close the last cell, which may end without `\\`
+        if !exterior {
+            f.write_str("],\n")?;
+        }
         f.write_str(");")?;
         self.exit_env(prev);
         Ok(())
-- 
2.43.0


From 2fde91cde9ef490bf86db85e9f930794724b9d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:20 +0000
Subject: [PATCH 29/51] fix: width=\textwidth without a factor is the whole
 width

---
 crates/mitex/src/converter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index d9c5bc0..37a426f 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -558,7 +558,9 @@ impl Converter {
                     f.write_str(key)?;
                     f.write_char(':')?;
                     f.write_char(' ')?;
-                    if value.ends_with("\\textwidth") {
+                    if matches!(*value, "\\textwidth" | "\\textheight") {
+                        f.write_str("100%")?;
+                    } else if value.ends_with("\\textwidth") {
                         let value = value.trim_end_matches("\\textwidth");
                         f.write_str(value)?;
                         f.write_str(" * 100%")?;
-- 
2.43.0


From 036123589946e1aab64adfbe8a1535abef31a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:09 +0000
Subject: [PATCH 30/51] fix: compiled files kept neither handlers without an
 alias nor the names of Typst

---
 crates/mitex-cli/src/main.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/crates/mitex-cli/src/main.rs b/crates/mitex-cli/src/main.rs
index 1473539..b35b105 100644
--- a/crates/mitex-cli/src/main.rs
+++ b/crates/mitex-cli/src/main.rs
@@ -89,18 +89,19 @@ fn compile(input_path: &str, output_path: &str, is_ast: bool) -> Result<(), Erro
     // Insert preludes
     // todo: better way?
     let mut builtin_set = std::collections::HashSet::<&'static str>::new();
-    builtin_set.extend(["and", "or", "in", "not"]);
+    builtin_set.extend([
+        "and", "or", "in", "not", "if", "else", "for", "while", "break", "continue", "return",
+        "let", "set", "show", "context", "import", "include", "as", "none", "auto", "true",
+        "false",
+    ]);
     let mut alias_set = std::collections::HashSet::<Box<str>>::new();
-    for (_, cmd) in spec.items() {
+    for (name, cmd) in spec.items() {
+        // A handler is found by the alias, or by the name if there is no alias.
         let alias = match cmd {
-            CommandSpecItem::Cmd(CmdShape {
-                alias: Some(alias), ..
-            }) => alias.as_str(),
-            CommandSpecItem::Env(EnvShape {
-                alias: Some(alias), ..
-            }) => alias.as_str(),
-            _ => continue,
+            CommandSpecItem::Cmd(CmdShape { alias, .. }) => alias.as_deref(),
+            CommandSpecItem::Env(EnvShape { alias, .. }) => alias.as_deref(),
         };
+        let alias = alias.unwrap_or(name).trim_start_matches('#');
         if alias.is_empty() || !alias.chars().all(|c| c.is_ascii_alphanumeric()) {
             continue;
         }
@@ -114,7 +115,7 @@ fn compile(input_path: &str, output_path: &str, is_ast: bool) -> Result<(), Erro
     alias_set.sort();
     let preludes_str = alias_set
         .into_iter()
-        .map(|alias| format!(r#"#let {alias} = mitex-scope.at("{alias}", default: none);"#))
+        .map(|alias| format!(r#"#let {alias} = mitex-name("{alias}");"#))
         .collect::<Vec<_>>()
         .join("\n");
     std::fs::write(
@@ -122,6 +123,8 @@ fn compile(input_path: &str, output_path: &str, is_ast: bool) -> Result<(), Erro
         format!(
             r#"
 #import "@preview/mitex:0.2.7": *
+// Names without a handler keep their meaning in Typst.
+#let mitex-name(it) = mitex-scope.at(it, default: dictionary(math).at(it, default: dictionary(std).at(it, default: none)));
 {preludes_str}
 
 {output}"#
-- 
2.43.0


From 6e75057901ed568849b7210fcd73b0d01e39c2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 31/51] fix: a tie in text mode is a nonbreaking space

---
 crates/mitex/src/converter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 37a426f..0656b6d 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -241,7 +241,7 @@ impl Converter {
                 if matches!(self.mode, LaTeXMode::Math) {
                     f.write_str("space.nobreak ")?;
                 } else {
-                    f.write_str("\\~")?;
+                    f.write_char('~')?;
                 }
             }
             TokenAmpersand => match self.env {
-- 
2.43.0


From 3eb7fa0e0a458a33d3f52aae05d6282569689fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 32/51] fix: escape words in text mode that typst reads as
 markup

---
 crates/mitex/src/converter.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 0656b6d..3cd0799 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -170,8 +170,25 @@ impl Converter {
                         f.write_char(' ')?;
                     }
                 } else {
-                    // write the word directly in text mode
-                    f.write_str(elem.as_token().unwrap().text())?;
+                    // write the word in text mode, escaping what typst would read as markup
+                    let text = elem.as_token().unwrap().text();
+                    let number = text
+                        .strip_suffix('.')
+                        .filter(|n| !n.is_empty() && n.bytes().all(|c| c.is_ascii_digit()));
+                    if let Some(number) = number {
+                        // `1.` would start a numbered item
+                        write!(f, "{number}\\.")?;
+                    } else if matches!(text, "-" | "+" | "-?") || text.bytes().all(|c| c == b'=') {
+                        // would start an item or a heading
+                        write!(f, "\\{text}")?;
+                    } else {
+                        for c in text.chars() {
+                            if matches!(c, '`' | '<') {
+                                f.write_char('\\')?;
+                            }
+                            f.write_char(c)?;
+                        }
+                    }
                 }
             }
             // do nothing
-- 
2.43.0


From 1802b8b65aa94d826c0748d8926e9f2a15194237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:04 +0000
Subject: [PATCH 33/51] fix: text after a list on the same line was part of the
 last item

---
 crates/mitex/src/converter.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 3cd0799..2707774 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -888,6 +888,31 @@ impl Converter {
 
             self.exit_env(prev);
 
+            // what follows on the same line is not part of the last item
+            let mut next = env.syntax().next_sibling_or_token();
+            while next.as_ref().is_some_and(|n| {
+                matches!(
+                    n.kind(),
+                    LatexSyntaxKind::TokenWhiteSpace
+                        | LatexSyntaxKind::TokenComment
+                        | LatexSyntaxKind::ItemBlockComment
+                )
+            }) {
+                next = next.and_then(|n| n.next_sibling_or_token());
+            }
+            if next.is_some_and(|n| {
+                !matches!(
+                    n.kind(),
+                    LatexSyntaxKind::TokenLineBreak | LatexSyntaxKind::ItemEnd
+                )
+            }) {
+                f.write_char('\n')?;
+                for _ in 0..self.indent {
+                    f.write_char(' ')?;
+                }
+                self.skip_next_space = true;
+            }
+
             return Ok(());
         }
 
-- 
2.43.0


From ab44696c30bb204d5719fbfa370d7b311a78ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 34/51] fix: symbols in text mode were shown by their names

---
 crates/mitex/src/converter.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 2707774..d3a07bd 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -762,6 +762,28 @@ impl Converter {
             }
         }
 
+        // a symbol in text mode, where a name would be shown literally, as is only
+        // right for the logos
+        let is_symbol = matches!(
+            arg_shape,
+            ArgShape::Right {
+                pattern: ArgPattern::None
+            }
+        );
+        let is_verbatim =
+            typst_name.is_empty() || typst_name.starts_with('#') || typst_name.ends_with("TeX");
+        if matches!(self.mode, LaTeXMode::Text) && is_symbol && !is_verbatim {
+            let is_markup = typst_name.starts_with('\\')
+                || !typst_name.is_ascii()
+                || typst_name.chars().all(|c| matches!(c, '-' | '+' | '%'));
+            if is_markup {
+                f.write_str(typst_name)?;
+            } else {
+                write!(f, "${typst_name}$")?;
+            }
+            return Ok(());
+        }
+
         // normal command
         write!(f, "{}", typst_name)?;
 
-- 
2.43.0


From 62d52192b02cbf3a0381bba0ad2d86cb46bdddfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:32 +0000
Subject: [PATCH 35/51] fix: style declarations in text mode were shown by
 their names

---
 crates/mitex/src/converter.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index d3a07bd..0b5ffe9 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -753,11 +753,11 @@ impl Converter {
         // typst alias name
         let mut typst_name = cmd_shape.alias.as_deref().unwrap_or(name);
 
-        // hack for textbf and textit
+        // hack for textbf, textit and their declarations
         if matches!(self.mode, LaTeXMode::Text) {
-            if name == "textbf" {
+            if matches!(name, "textbf" | "bf") {
                 typst_name = "#strong";
-            } else if name == "textit" {
+            } else if matches!(name, "textit" | "it") {
                 typst_name = "#emph";
             }
         }
@@ -784,6 +784,18 @@ impl Converter {
             return Ok(());
         }
 
+        // a style in text mode is applied by code
+        let is_text_greedy = matches!(self.mode, LaTeXMode::Text)
+            && matches!(
+                arg_shape,
+                ArgShape::Right {
+                    pattern: ArgPattern::Greedy
+                }
+            );
+        if is_text_greedy && !typst_name.starts_with('#') {
+            f.write_char('#')?;
+        }
+
         // normal command
         write!(f, "{}", typst_name)?;
 
@@ -802,7 +814,7 @@ impl Converter {
             pattern: ArgPattern::Greedy,
         } = arg_shape
         {
-            f.write_char('(')?;
+            f.write_char(if is_text_greedy { '[' } else { '(' })?;
             // there is only one arg in greedy
             let args = args
                 .first()
@@ -817,12 +829,13 @@ impl Converter {
                 cnt += 1;
                 let kind = arg.kind();
                 self.convert(f, arg, spec)?;
-                if matches!(kind, LatexSyntaxKind::ItemCurly) && cnt != args_len {
+                if matches!(kind, LatexSyntaxKind::ItemCurly) && cnt != args_len && !is_text_greedy
+                {
                     f.write_char(',')?;
                 }
             }
 
-            f.write_char(')')?;
+            f.write_str(if is_text_greedy { "];" } else { ")" })?;
         } else if matches!(self.mode, LaTeXMode::Math) && !typst_name.starts_with('#') {
             f.write_char('(')?;
 
-- 
2.43.0


From 82819b88fb53d96b933615f3fe000080adb3b79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:32 +0000
Subject: [PATCH 36/51] fix: a second script on a group was read inside the
 first one: {a_1}_2 showed a_{(1)_2}

---
 crates/mitex/src/converter.rs | 40 ++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 0b5ffe9..b837dc4 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -430,6 +430,8 @@ impl Converter {
         if matches!(self.mode, LaTeXMode::Math) {
             // if there is already a base, if not, we need to add zws, like `_1^2`
             let mut based = false;
+            // the base is a group whose last item has a script
+            let mut script_last = false;
             // is the first non-empty element
             let mut first = true;
             for child in elem.as_node().unwrap().children_with_tokens() {
@@ -440,14 +442,20 @@ impl Converter {
                         kind,
                         Some(LatexSyntaxKind::TokenUnderscore | LatexSyntaxKind::TokenCaret)
                     ) {
-                        if !based {
+                        // a second script on a group that ends with a script, like `{a_1}_2`
+                        if !based || script_last {
                             f.write_str("zws")?;
                         }
                         write!(f, "{}(", child.as_token().unwrap().text())?;
                         first = false;
                         continue;
                     } else if !matches!(kind, Some(LatexSyntaxKind::TokenWhiteSpace)) {
+                        if script_last && kind == Some(LatexSyntaxKind::TokenApostrophe) {
+                            f.write_str("zws")?;
+                            script_last = false;
+                        }
                         based = true;
+                        script_last |= is_group_with_script_last(&child);
                     }
                 }
                 self.convert(f, child, spec)?;
@@ -1282,6 +1290,36 @@ fn raw_text(elem: LatexSyntaxElem) -> String {
     }
 }
 
+/// Check whether the base of a script is a group whose last item has a script itself
+fn is_group_with_script_last(base: &LatexSyntaxElem) -> bool {
+    use LatexSyntaxKind::*;
+
+    let last_item = |node: &SyntaxNode| {
+        node.children_with_tokens()
+            .filter(|child| {
+                !matches!(
+                    child.kind(),
+                    TokenRBrace | TokenWhiteSpace | TokenLineBreak | TokenComment | ItemBlockComment
+                )
+            })
+            .last()
+    };
+    match base {
+        LatexSyntaxElem::Node(node) if node.kind() == ClauseArgument => {
+            last_item(node).is_some_and(|item| is_group_with_script_last(&item))
+        }
+        LatexSyntaxElem::Node(node) if node.kind() == ItemCurly => {
+            last_item(node).is_some_and(|item| match &item {
+                LatexSyntaxElem::Node(node) if node.kind() == ItemAttachComponent => node
+                    .children_with_tokens()
+                    .any(|child| matches!(child.kind(), TokenUnderscore | TokenCaret)),
+                _ => is_group_with_script_last(&item),
+            })
+        }
+        _ => false,
+    }
+}
+
 /// Remove the delimiters around an argument (if any) then trim it
 fn strip_delimiters(text: &str, left: char, right: char) -> &str {
     let text = text.strip_prefix(left).unwrap_or(text);
-- 
2.43.0


From 47b781dbf671fe8dfb7555c14a51359587432089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:28 +0000
Subject: [PATCH 37/51] fix: scripts and infix commands do not reach into the
 cell before

---
 crates/mitex-parser/src/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index edb700f..4a335a7 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -317,6 +317,7 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
         self.list_state.store_start(current);
 
         while self.peek().is_some_and(|kind| !self.stop_by_scope(kind)) {
+            let is_cell_end = matches!(self.peek(), Some(Token::Ampersand | Token::NewLine));
             let attachable = self.content(true);
 
             // If the item is not attachable, then we should
@@ -325,6 +326,12 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                 self.list_state.store_last(current);
             }
             current = self.builder.checkpoint();
+
+            // Neither a script nor an infix command takes the items of the cell before
+            if is_cell_end {
+                self.list_state.store_start(current);
+                self.list_state.may_store_last(None);
+            }
         }
 
         self.list_state = parent_state;
-- 
2.43.0


From 83f74c6daa324b4acc9c690409daab05520e4104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:28 +0000
Subject: [PATCH 38/51] fix: a comma as an argument is that comma alone: x_,y
 \frac,;

---
 crates/mitex-parser/src/parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 4a335a7..699eb3d 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -418,7 +418,13 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                     self.single_char();
                 }
             }
-            Token::Comma => self.text(),
+            Token::Comma => {
+                if not_prefer_single_char {
+                    self.text()
+                } else {
+                    self.eat()
+                }
+            }
             Token::Dollar => {
                 self.item_group(ParseScope::DollarFormula);
                 return false;
@@ -777,7 +783,7 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                         // Otherwise, whether it is right does not matter
                         current = Some(self.builder.checkpoint());
                     }
-                    let attachable = arg::<GREEDY, _, _>(self, |this| this.content(true));
+                    let attachable = arg::<GREEDY, _, _>(self, |this| this.content(GREEDY));
                     if !k_wrap_args!() && attachable {
                         self.list_state.may_store_last(current);
                     }
-- 
2.43.0


From 8fb4c4f4c1006125fdae87edbe8156a7b59d5174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:28 +0000
Subject: [PATCH 39/51] fix: a bracket that the argument pattern does not
 accept is an argument: \sqrt(

---
 crates/mitex-parser/src/arg_match.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-parser/src/arg_match.rs b/crates/mitex-parser/src/arg_match.rs
index cc96df1..648e189 100644
--- a/crates/mitex-parser/src/arg_match.rs
+++ b/crates/mitex-parser/src/arg_match.rs
@@ -50,7 +50,17 @@ impl ArgMatcher {
             Self::AtMostTerm { .. } => self
                 .try_match(ARGUMENT_KIND_TERM)
                 .then_some(text != ARGUMENT_KIND_TERM),
-            Self::Glob { .. } => self.try_match(text).then_some(false),
+            Self::Glob { re, prefix } => {
+                // a bracket which the pattern doesn't accept is a term, e.g. `\sqrt(`
+                for encoded in [text, ARGUMENT_KIND_TERM] {
+                    prefix.push(encoded);
+                    if glob_match_prefix(&re.0, prefix) {
+                        return Some(encoded != text);
+                    }
+                    prefix.pop();
+                }
+                None
+            }
         }
     }
 
-- 
2.43.0


From 75c173422717b56f0dd7687b4314ca854b4bf0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:28 +0000
Subject: [PATCH 40/51] fix: an exclamation mark after a script is not a part
 of it

---
 crates/mitex/src/converter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index b837dc4..e64f6ea 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -166,6 +166,10 @@ impl Converter {
                     // break up words into individual characters and add a space
                     let text = elem.as_token().unwrap().text().to_string();
                     for prev in text.chars() {
+                        // typst would read it as a part of a script before it
+                        if prev == '!' {
+                            f.write_char('\\')?;
+                        }
                         f.write_char(prev)?;
                         f.write_char(' ')?;
                     }
-- 
2.43.0


From 940498a9f7dac8842f4ad551aca6eaccc429bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:18 +0000
Subject: [PATCH 41/51] fix: a line with nothing but a comment in it started a
 new paragraph

---
 crates/mitex/src/converter.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index e64f6ea..32677c6 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -45,6 +45,10 @@ pub struct Converter {
     label: Option<String>,
     // skip the space at the beginning of the line
     skip_next_space: bool,
+    // nothing but white space and comments since the last line break
+    line_start: bool,
+    // there is a comment among them
+    comment_line: bool,
 }
 
 impl Converter {
@@ -55,6 +59,8 @@ impl Converter {
             indent: 0,
             label: None,
             skip_next_space: true,
+            line_start: false,
+            comment_line: false,
         }
     }
 
@@ -182,15 +188,18 @@ impl Converter {
                     if let Some(number) = number {
                         // `1.` would start a numbered item
                         write!(f, "{number}\\.")?;
-                    } else if matches!(text, "-" | "+" | "-?") || text.bytes().all(|c| c == b'=') {
+                    } else if matches!(text, "-" | "+") || text.bytes().all(|c| c == b'=') {
                         // would start an item or a heading
                         write!(f, "\\{text}")?;
                     } else {
+                        let mut prev = ' ';
                         for c in text.chars() {
-                            if matches!(c, '`' | '<') {
+                            // (`-?` would be a soft hyphen)
+                            if matches!(c, '`' | '<') || (prev == '-' && c == '?') {
                                 f.write_char('\\')?;
                             }
                             f.write_char(c)?;
+                            prev = c;
                         }
                     }
                 }
-- 
2.43.0


From 2b83890be8254394111bc28db68c482d461067ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:18 +0000
Subject: [PATCH 42/51] fix: -? inside a word was shown as a soft hyphen

---
 crates/mitex/src/converter.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 32677c6..ea7ae3c 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -143,6 +143,14 @@ impl Converter {
                 self.skip_next_space = false;
             }
         }
+        // a line with nothing but comments in it is not an empty line
+        let after_comment_line = self.comment_line;
+        (self.line_start, self.comment_line) = match elem.kind() {
+            TokenLineBreak => (true, false),
+            TokenWhiteSpace => (self.line_start, self.comment_line),
+            TokenComment | ItemBlockComment => (self.line_start, self.line_start),
+            _ => (false, false),
+        };
         match elem.kind() {
             TokenError => Err(match elem {
                 LatexSyntaxElem::Node(node) => format!("error unexpected: {:?}", node.text()),
-- 
2.43.0


From fc215c1ac518aebf673dfbe305d6e2702d1c8bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:18 +0000
Subject: [PATCH 43/51] fix: the space after the name of a declaration was
 shown in text mode

---
 crates/mitex/src/converter.rs | 36 +++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index ea7ae3c..a002efb 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -225,10 +225,16 @@ impl Converter {
                 write!(f, "{}", elem.as_token().unwrap().text())?;
             }
             TokenLineBreak => {
-                write!(f, "{}", elem.as_token().unwrap().text())?;
-                // indent for itemize and enumerate
-                for _ in 0..self.indent {
-                    f.write_char(' ')?;
+                let mut text = elem.as_token().unwrap().text();
+                if after_comment_line {
+                    text = text.strip_prefix("\r\n").unwrap_or_else(|| &text[1..]);
+                }
+                if !text.is_empty() {
+                    f.write_str(text)?;
+                    // indent for itemize and enumerate
+                    for _ in 0..self.indent {
+                        f.write_char(' ')?;
+                    }
                 }
                 self.skip_next_space = true;
             }
@@ -737,7 +743,13 @@ impl Converter {
 
         // Arg 3: Body
         f.write_char('[')?;
+        // the space after the name of a command does not show
+        let mut is_name_end = matches!(self.mode, LaTeXMode::Text);
         for elem in body {
+            is_name_end &= is_space(elem.kind());
+            if is_name_end {
+                continue;
+            }
             if matches!(self.mode, LaTeXMode::Math) {
                 f.write_char('$')?;
                 self.convert(f, elem, spec)?;
@@ -854,9 +866,15 @@ impl Converter {
                 .collect::<Vec<_>>();
             let mut cnt = 0;
             let args_len = args.len();
+            // the space after the name of a command does not show
+            let mut is_name_end = is_text_greedy;
             for arg in args {
                 cnt += 1;
                 let kind = arg.kind();
+                is_name_end &= is_space(kind);
+                if is_name_end {
+                    continue;
+                }
                 self.convert(f, arg, spec)?;
                 if matches!(kind, LatexSyntaxKind::ItemCurly) && cnt != args_len && !is_text_greedy
                 {
@@ -1296,6 +1314,16 @@ impl Converter {
     }
 }
 
+/// Whether an element is white space or a comment
+fn is_space(kind: LatexSyntaxKind) -> bool {
+    matches!(
+        kind,
+        LatexSyntaxKind::TokenWhiteSpace
+            | LatexSyntaxKind::TokenLineBreak
+            | LatexSyntaxKind::TokenComment
+    )
+}
+
 /// The source text of an argument without its comments
 fn raw_text(elem: LatexSyntaxElem) -> String {
     match elem {
-- 
2.43.0


From d38d3b482c175eb3daf03a8351ea7e024f659718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:12 +0000
Subject: [PATCH 44/51] fix: a function of math in text mode was not in a
 formula: \underline{a} was shown as "underline(a)"

---
 crates/mitex/src/converter.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index a002efb..5822ce7 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -837,6 +837,20 @@ impl Converter {
             f.write_char('#')?;
         }
 
+        // in text mode a function of math needs an equation around it
+        let is_math_call = matches!(self.mode, LaTeXMode::Text)
+            && !typst_name.starts_with('#')
+            && matches!(
+                arg_shape,
+                ArgShape::Right {
+                    pattern: ArgPattern::FixedLenTerm { len: 1.. }
+                        | ArgPattern::RangeLenTerm { max: 1.., .. }
+                }
+            );
+        if is_math_call {
+            f.write_char('$')?;
+        }
+
         // normal command
         write!(f, "{}", typst_name)?;
 
@@ -898,6 +912,19 @@ impl Converter {
             }
 
             f.write_char(')')?;
+        } else if is_math_call {
+            // text in a function of math
+            f.write_char('(')?;
+            let mut is_first = true;
+            for arg in args {
+                if matches!(arg.kind(), LatexSyntaxKind::ClauseArgument) {
+                    f.write_str(if is_first { "#[" } else { ",#[" })?;
+                    is_first = false;
+                    self.convert(f, arg, spec)?;
+                    f.write_char(']')?;
+                }
+            }
+            f.write_str(")$")?;
         } else {
             // Text mode
             for arg in args {
-- 
2.43.0


From 71424b3477baf444dde58763d8b30ae2a97fc820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:16 +0000
Subject: [PATCH 45/51] fix: the cells after a table row with fewer cells than
 columns moved into that row

---
 crates/mitex/src/converter.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 5822ce7..06f5117 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1231,6 +1231,15 @@ impl Converter {
                 }
             }
         }
+        let columns = alignments.len();
+        // end a row, which may have fewer cells than columns
+        let pad_row = |f: &mut fmt::Formatter<'_>, cells: &mut usize| {
+            for _ in (*cells + 1)..columns {
+                f.write_str(" [],")?;
+            }
+            *cells = 0;
+            f.write_char('\n')
+        };
         // convert to #figure
         let prev = self.enter_env(env_kind);
         f.write_char('#')?;
@@ -1239,7 +1248,7 @@ impl Converter {
         // stroke: none,
         f.write_str("stroke: none,\n")?;
         // columns: 2,
-        f.write_str(format!("columns: {},\n", alignments.len()).as_str())?;
+        f.write_str(format!("columns: {},\n", columns).as_str())?;
         // align: (left, center, right, ),
         f.write_str("align: (")?;
         for align in alignments {
@@ -1257,6 +1266,8 @@ impl Converter {
         }
         f.write_str("\n")?;
         let mut exterior = true;
+        // the number of closed cells in the current row
+        let mut cells = 0;
         for child in elem.as_node().unwrap().children_with_tokens() {
             // skip \begin and \end commands
             if matches!(
@@ -1274,10 +1285,12 @@ impl Converter {
                     LatexSyntaxKind::TokenAmpersand => {
                         // write `[],` for empty exterior when encountering &
                         f.write_str("[], ")?;
+                        cells += 1;
                     }
                     LatexSyntaxKind::ItemNewLine => {
                         // write `[],\n` for empty exterior when encountering //
-                        f.write_str("[],\n")?;
+                        f.write_str("[],")?;
+                        pad_row(f, &mut cells)?;
                     }
                     LatexSyntaxKind::ItemCmd => {
                         let cmd_name = CmdItem::cast(child.as_node().unwrap().clone())
@@ -1318,11 +1331,13 @@ impl Converter {
                     LatexSyntaxKind::TokenAmpersand => {
                         // write `[],` when encountering &
                         f.write_str("], ")?;
+                        cells += 1;
                         exterior = true;
                     }
                     LatexSyntaxKind::ItemNewLine => {
                         // write `[],\n` when encountering //
-                        f.write_str("],\n")?;
+                        f.write_str("],")?;
+                        pad_row(f, &mut cells)?;
                         exterior = true;
                     }
                     _ => {
-- 
2.43.0


From 009b7c3335f4ed8d31c96398193e55d85064f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:20 +0000
Subject: [PATCH 46/51] fix: a label in front of an inner environment was given
 to that environment

---
 crates/mitex/src/converter.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 06f5117..2af0a6c 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1025,6 +1025,12 @@ impl Converter {
             return Ok(());
         }
 
+        // a label before this environment belongs to the one around it
+        let outer_label = match self.mode {
+            LaTeXMode::Text => self.label.take(),
+            LaTeXMode::Math => None,
+        };
+
         // is environment for math
         let is_math_env = matches!(
             env_kind,
@@ -1121,6 +1127,7 @@ impl Converter {
                 f.write_char('>')?;
                 self.label = None;
             }
+            self.label = outer_label;
         }
 
         Ok(())
-- 
2.43.0


From c84ac74c9c9bc3fa392c23bdc2d1aef86109c3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:23 +0000
Subject: [PATCH 47/51] fix: an apostrophe after the color of a declaration
 became part of the color

---
 crates/mitex/src/converter.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 2af0a6c..fa7def3 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -691,7 +691,16 @@ impl Converter {
             while iter.peek().is_some_and(|e| e.kind().is_trivia()) {
                 iter.next();
             }
-            (model, iter.next(), iter.collect::<Vec<_>>())
+            // an apostrophe after the color is not part of it
+            let (color, mut body) = match iter.next() {
+                Some(color) => {
+                    let (color, primes) = split_primes(color);
+                    (Some(color), primes)
+                }
+                None => (None, vec![]),
+            };
+            body.extend(iter);
+            (model, color, body)
         } else {
             // \textcolor, \colorbox
             let mut args = cmd.arguments();
@@ -1388,6 +1397,25 @@ fn raw_text(elem: LatexSyntaxElem) -> String {
     }
 }
 
+/// Split the apostrophes from the element in front of them
+fn split_primes(elem: LatexSyntaxElem) -> (LatexSyntaxElem, Vec<LatexSyntaxElem>) {
+    let children = match &elem {
+        LatexSyntaxElem::Node(node) => node.children_with_tokens().collect::<Vec<_>>(),
+        LatexSyntaxElem::Token(..) => vec![],
+    };
+    match (elem.kind(), children.as_slice()) {
+        (LatexSyntaxKind::ClauseArgument, [arg]) => split_primes(arg.clone()),
+        (LatexSyntaxKind::ItemAttachComponent, [base, .., last])
+            if last.kind() == LatexSyntaxKind::TokenApostrophe =>
+        {
+            let (base, mut primes) = split_primes(base.clone());
+            primes.extend_from_slice(&children[1..]);
+            (base, primes)
+        }
+        _ => (elem, vec![]),
+    }
+}
+
 /// Check whether the base of a script is a group whose last item has a script itself
 fn is_group_with_script_last(base: &LatexSyntaxElem) -> bool {
     use LatexSyntaxKind::*;
-- 
2.43.0


From f67143761d7409f7868a547ef71a13f9b1c3a413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:27 +0000
Subject: [PATCH 48/51] fix: a line with nothing but the brace of a group was
 an empty line, a paragraph break

---
 crates/mitex/src/converter.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index fa7def3..e42b270 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -47,7 +47,7 @@ pub struct Converter {
     skip_next_space: bool,
     // nothing but white space and comments since the last line break
     line_start: bool,
-    // there is a comment among them
+    // there is a comment or a brace among them
     comment_line: bool,
 }
 
@@ -143,15 +143,19 @@ impl Converter {
                 self.skip_next_space = false;
             }
         }
-        // a line with nothing but comments in it is not an empty line
+        // a line with nothing but comments or the braces of groups in it is not an
+        // empty line
         let after_comment_line = self.comment_line;
         (self.line_start, self.comment_line) = match elem.kind() {
             TokenLineBreak => (true, false),
-            TokenWhiteSpace => (self.line_start, self.comment_line),
-            TokenComment | ItemBlockComment => (self.line_start, self.line_start),
+            TokenWhiteSpace | ItemCurly => (self.line_start, self.comment_line),
+            TokenComment | ItemBlockComment | TokenLBrace | TokenRBrace => {
+                (self.line_start, self.line_start)
+            }
             _ => (false, false),
         };
-        match elem.kind() {
+        let kind = elem.kind();
+        match kind {
             TokenError => Err(match elem {
                 LatexSyntaxElem::Node(node) => format!("error unexpected: {:?}", node.text()),
                 LatexSyntaxElem::Token(token) => format!("error unexpected: {:?}", token.text()),
@@ -334,6 +338,10 @@ impl Converter {
             }
         };
 
+        // braces of its arguments are not those of groups
+        if matches!(kind, ItemCmd | ItemEnv | ItemFormula | ItemAttachComponent) {
+            (self.line_start, self.comment_line) = (false, false);
+        }
         Ok(())
     }
 
-- 
2.43.0


From d6196348bfddca41c7c03b3df300ce9e3ab34b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:31 +0000
Subject: [PATCH 49/51] fix: spaces in the column specification of a table were
 an error

---
 crates/mitex/src/converter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index e42b270..fa05883 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1249,6 +1249,7 @@ impl Converter {
                 '|' => {
                     vlines.push(index);
                 }
+                ' ' | '\t' | '\r' | '\n' => {}
                 _ => {
                     // unknown character
                     Err(format!("unknown alignment: {}", ch))?;
-- 
2.43.0


From d819927914ca0e6a2c11b7b478b9d6686c6a87ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:34 +0000
Subject: [PATCH 50/51] fix: an apostrophe after a list was part of the last
 item

---
 crates/mitex/src/converter.rs | 41 ++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index fa05883..15d8d82 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1015,16 +1015,22 @@ impl Converter {
             self.exit_env(prev);
 
             // what follows on the same line is not part of the last item
-            let mut next = env.syntax().next_sibling_or_token();
-            while next.as_ref().is_some_and(|n| {
-                matches!(
-                    n.kind(),
-                    LatexSyntaxKind::TokenWhiteSpace
-                        | LatexSyntaxKind::TokenComment
-                        | LatexSyntaxKind::ItemBlockComment
-                )
-            }) {
-                next = next.and_then(|n| n.next_sibling_or_token());
+            let mut next = next_on_line(env.syntax().next_sibling_or_token());
+            let mut node = env.syntax().clone();
+            while next.is_none() {
+                // there is an apostrophe or a script behind it
+                node = match node.parent() {
+                    Some(parent)
+                        if matches!(
+                            parent.kind(),
+                            LatexSyntaxKind::ClauseArgument | LatexSyntaxKind::ItemAttachComponent
+                        ) =>
+                    {
+                        parent
+                    }
+                    _ => break,
+                };
+                next = next_on_line(node.next_sibling_or_token());
             }
             if next.is_some_and(|n| {
                 !matches!(
@@ -1406,6 +1412,21 @@ fn raw_text(elem: LatexSyntaxElem) -> String {
     }
 }
 
+/// Skip white space and comments
+fn next_on_line(mut next: Option<LatexSyntaxElem>) -> Option<LatexSyntaxElem> {
+    while next.as_ref().is_some_and(|n| {
+        matches!(
+            n.kind(),
+            LatexSyntaxKind::TokenWhiteSpace
+                | LatexSyntaxKind::TokenComment
+                | LatexSyntaxKind::ItemBlockComment
+        )
+    }) {
+        next = next.and_then(|n| n.next_sibling_or_token());
+    }
+    next
+}
+
 /// Split the apostrophes from the element in front of them
 fn split_primes(elem: LatexSyntaxElem) -> (LatexSyntaxElem, Vec<LatexSyntaxElem>) {
     let children = match &elem {
-- 
2.43.0


From 36cd2e67bfe94261b46a8cbd5b074f24c1320292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:37 +0000
Subject: [PATCH 51/51] fix: an apostrophe after a formula was attached to
 everything since the last item that is not a formula

---
 crates/mitex-parser/src/parser.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 699eb3d..32b1ea9 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -427,14 +427,12 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
             }
             Token::Dollar => {
                 self.item_group(ParseScope::DollarFormula);
-                return false;
             }
             Token::CommandName(name) => match name {
                 CommandName::Generic => return self.command(),
                 CommandName::BeginEnvironment => self.environment(),
                 CommandName::BeginMath => {
                     self.item_group(ParseScope::CmdFormula);
-                    return false;
                 }
                 CommandName::If(IfCommandName::IfFalse) => self.block_comment(),
                 CommandName::If(IfCommandName::IfTypst) => self.typst_code(),
-- 
2.43.0

