From 8eeee1aa3210d70d5dd8627a774dabbfb18dde14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:13 +0000
Subject: [PATCH 01/52] Add verification hooks to the shell, guarded by
 cfg(dune_verif)

---
 src/bin.rs | 75 +++++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 74 insertions(+), 1 deletion(-)

diff --git a/src/bin.rs b/src/bin.rs
index c85931b..44e696e 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -1,4 +1,5 @@
 #![allow(clippy::wildcard_in_or_patterns)]
+#![allow(unexpected_cfgs)]
 
 mod binary;
 
@@ -23,9 +24,13 @@ use std::{
     borrow::Cow::{self, Borrowed, Owned},
     path::PathBuf,
     process::exit,
-    sync::{Arc, Mutex},
 };
 
+#[cfg(not(dune_verif))]
+use std::sync::{Arc, Mutex};
+#[cfg(dune_verif)]
+use vshim::sync::{Arc, Mutex};
+
 #[rustfmt::skip]
 const INTRO_PRELUDE: &str = include_str!(".intro-dune-prelude");
 #[rustfmt::skip]
@@ -83,6 +88,10 @@ fn strip_ansi_escapes(text: impl ToString) -> String {
 
 fn readline(prompt: impl ToString, rl: &mut Editor<DuneHelper>) -> String {
     let prompt = prompt.to_string();
+    #[cfg(dune_verif)]
+    if let Some(line) = vshim::next_line(&prompt) {
+        return line;
+    }
     loop {
         // This MUST be called to update the prompt.
         if let Some(helper) = rl.helper_mut() {
@@ -681,3 +690,67 @@ fn main() -> Result<(), Error> {
 
     Ok(())
 }
+
+/// Access to private items for the verification harness. Never compiled without `--cfg dune_verif`.
+#[cfg(dune_verif)]
+pub mod verif {
+    use super::*;
+
+    pub fn init(env: &mut Environment) {
+        super::binary::init(env)
+    }
+
+    pub fn strip(text: &str) -> String {
+        super::strip_ansi_escapes(text)
+    }
+
+    /// An editor as the interactive shell builds it, without a terminal.
+    pub struct Session(Editor<DuneHelper>);
+
+    impl Session {
+        pub fn new(env: &Environment, history: &[&str]) -> Self {
+            let mut rl = new_editor(env);
+            for line in history {
+                rl.add_history_entry(*line);
+            }
+            Self(rl)
+        }
+
+        pub fn update_env(&mut self, env: &Environment) {
+            self.0.helper_mut().expect("helper").update_env(env)
+        }
+
+        pub fn highlight(&self, line: &str, pos: usize) -> String {
+            self.0.helper().expect("helper").highlight(line, pos).into_owned()
+        }
+
+        pub fn hint(&self, line: &str, pos: usize) -> Option<String> {
+            let ctx = Context::new(self.0.history());
+            self.0.helper().expect("helper").hint(line, pos, &ctx)
+        }
+
+        pub fn complete(&self, line: &str, pos: usize) -> Option<(usize, Vec<(String, String)>)> {
+            let ctx = Context::new(self.0.history());
+            let (start, pairs) = self.0.helper().expect("helper").complete(line, pos, &ctx).ok()?;
+            Some((
+                start,
+                pairs.into_iter().map(|p| (p.display, p.replacement)).collect(),
+            ))
+        }
+    }
+
+    /// The interactive loops `main` runs: the first one, and the one its Ctrl-C handler starts.
+    #[derive(Clone)]
+    pub struct Repl(Arc<Mutex<Editor<DuneHelper>>>, Arc<Mutex<Environment>>);
+
+    impl Repl {
+        pub fn new(env: Environment) -> Self {
+            let rl = new_editor(&env);
+            Self(Arc::new(Mutex::new(rl)), Arc::new(Mutex::new(env)))
+        }
+
+        pub fn run(&self) -> Result<(), Error> {
+            repl(self.0.clone(), self.1.clone())
+        }
+    }
+}
-- 
2.43.0


From 7b39bef06e20ca27070214ba742f4a67c96ab376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:39 +0000
Subject: [PATCH 02/52] fix: do not split a multi-byte character after a
 backslash in a string literal

---
 src/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index c094193..ad0fe19 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -304,7 +304,9 @@ fn parse_escape(input: Input<'_>) -> TokenizationResult<'_, Diagnostic> {
             }
         }
         Err(_) => {
-            let (rest, range) = input.split_saturating(2);
+            // the backslash and the (possibly multi-byte) character after it
+            let len = input.chars().take(2).map(char::len_utf8).sum();
+            let (rest, range) = input.split_saturating(len);
             let ranges = vec![range].into_boxed_slice();
             return Ok((rest, Diagnostic::InvalidStringEscapes(ranges)));
         }
-- 
2.43.0


From 5244b31c214bed8cf3d557bf1d5fca1946bf3486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 03/52] fix: parse a negated argument instead of dropping what
 stands before it

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 32f8567..d793414 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -676,6 +676,11 @@ fn parse_range(input: Tokens<'_>) -> IResult<Tokens<'_>, Expression, SyntaxError
 
 fn parse_expression_prec_five(input: Tokens<'_>) -> IResult<Tokens<'_>, Expression, SyntaxError> {
     no_terminating_punctuation(input)?;
+    match parse_not(input) {
+        Err(nom::Err::Error(_)) => {}
+        result => return result,
+    }
+
     let expr_parser = parse_expression_prec_four;
 
     let (input, mut head) = expr_parser(input)?;
@@ -710,8 +715,6 @@ fn parse_expression_prec_five(input: Tokens<'_>) -> IResult<Tokens<'_>, Expressi
                     vec![head, to],
                 ),
             ));
-        } else if let Ok(result) = parse_not(input) {
-            return Ok(result);
         } else {
             return Ok((input, head));
         }
-- 
2.43.0


From cf8ba48c98c2be02c7c8d71eac2723a2a9af7f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:32 +0000
Subject: [PATCH 04/52] fix: parse nested expressions in polynomial time and to
 a bounded depth

---
 src/parser.rs | 70 ++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 67 insertions(+), 3 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d793414..fa1bb82 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -8,7 +8,10 @@ use nom::{
     IResult,
 };
 
-use std::collections::BTreeMap;
+use std::{
+    cell::RefCell,
+    collections::{BTreeMap, HashMap},
+};
 
 use crate::{
     tokens::{Input, Tokens},
@@ -159,16 +162,69 @@ pub fn parse_script(input: &str) -> Result<Expression, nom::Err<SyntaxError>> {
     // remove whitespace
     token_vec.retain(|t| !matches!(t.kind, TokenKind::Whitespace | TokenKind::Comment));
 
-    let (_, expr) = parse_script_tokens(
+    PARSED.with(|parsed| parsed.take());
+    let result = parse_script_tokens(
         Tokens {
             str: &str,
             slice: token_vec.as_slice(),
         },
         true,
-    )?;
+    );
+    PARSED.with(|parsed| parsed.take());
+
+    let (_, expr) = result?;
     Ok(expr)
 }
 
+/// The deepest nesting of expressions that is accepted.
+const MAX_NESTING: usize = 1000;
+
+type Parsed = Result<(usize, Expression), nom::Err<SyntaxError>>;
+
+thread_local! {
+    /// How deep the expression being parsed is nested, and what each rule made of the
+    /// tokens at each position (identified by the number of tokens left). Without it, the
+    /// alternatives of the grammar parse a nested expression anew on every level.
+    static PARSED: RefCell<(usize, HashMap<(u8, usize), Parsed>)> = RefCell::default();
+}
+
+fn memoize<'a>(
+    rule: u8,
+    input: Tokens<'a>,
+    parser: impl Fn(Tokens<'a>) -> IResult<Tokens<'a>, Expression, SyntaxError>,
+) -> IResult<Tokens<'a>, Expression, SyntaxError> {
+    let key = (rule, input.len());
+
+    let known = PARSED.with(|parsed| parsed.borrow().1.get(&key).cloned());
+    let parsed = match known {
+        Some(parsed) => parsed,
+        None => {
+            let depth = PARSED.with(|parsed| {
+                parsed.borrow_mut().0 += 1;
+                parsed.borrow().0
+            });
+            let parsed = if depth > 2 * MAX_NESTING {
+                Err(SyntaxError::unrecoverable(
+                    input.get_str_slice(),
+                    "an expression",
+                    Some("too many nested expressions".into()),
+                    Some("try splitting the expression into several statements"),
+                ))
+            } else {
+                parser(input).map(|(rest, expr)| (input.len() - rest.len(), expr))
+            };
+            PARSED.with(|memo| {
+                let mut memo = memo.borrow_mut();
+                memo.0 -= 1;
+                memo.1.insert(key, parsed.clone());
+            });
+            parsed
+        }
+    };
+
+    parsed.map(|(count, expr)| (input.skip_n(count), expr))
+}
+
 #[inline]
 fn is_symbol_like(kind: TokenKind) -> bool {
     matches!(
@@ -542,6 +598,10 @@ fn parse_apply_operator(input: Tokens<'_>) -> IResult<Tokens<'_>, Expression, Sy
 }
 
 fn parse_expression(input: Tokens<'_>) -> IResult<Tokens<'_>, Expression, SyntaxError> {
+    memoize(0, input, parse_pipeline)
+}
+
+fn parse_pipeline(input: Tokens<'_>) -> IResult<Tokens<'_>, Expression, SyntaxError> {
     no_terminating_punctuation(input)?;
 
     let expr_parser = parse_expression_prec_seven;
@@ -820,6 +880,10 @@ fn parse_expression_prec_two(input: Tokens<'_>) -> IResult<Tokens<'_>, Expressio
 }
 
 fn parse_expression_prec_one(input: Tokens<'_>) -> IResult<Tokens<'_>, Expression, SyntaxError> {
+    memoize(1, input, parse_operand)
+}
+
+fn parse_operand(input: Tokens<'_>) -> IResult<Tokens<'_>, Expression, SyntaxError> {
     alt((
         parse_group,
         parse_quote,
-- 
2.43.0


From 81554f0a9cd624ed4e4bbc9d61636147e55e7e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:48 +0000
Subject: [PATCH 05/52] fix: report runaway recursion through builtins instead
 of overflowing the stack

---
 src/bin.rs  | 25 +++++++++++++++++++++++--
 src/expr.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 63 insertions(+), 2 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index 44e696e..c12582b 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -3,7 +3,10 @@
 
 mod binary;
 
-use dune::{parse_script, Diagnostic, Environment, Error, Expression, SyntaxError, TokenKind};
+use dune::{
+    parse_script, Diagnostic, Environment, Error, Expression, SyntaxError, TokenKind,
+    EVAL_STACK_SIZE,
+};
 
 use clap::{arg, crate_authors, crate_description, App};
 
@@ -552,7 +555,24 @@ fn run_file(path: PathBuf, env: &mut Environment) -> Result<Expression, Error> {
     }
 }
 
+/// Run something that evaluates expressions on a thread with a sufficient stack.
+fn with_eval_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
+    let thread = std::thread::Builder::new()
+        .stack_size(EVAL_STACK_SIZE)
+        .spawn(f)
+        .expect("Failed to start a thread");
+
+    match thread.join() {
+        Ok(result) => result,
+        Err(panic) => std::panic::resume_unwind(panic),
+    }
+}
+
 fn main() -> Result<(), Error> {
+    with_eval_stack(run)
+}
+
+fn run() -> Result<(), Error> {
     let matches = App::new(
         r#"
         888                            
@@ -682,7 +702,8 @@ fn main() -> Result<(), Error> {
     let env_ref_copy = env_ref.clone();
 
     ctrlc::set_handler(move || {
-        repl(editor_ref_copy.clone(), env_ref_copy.clone()).expect("Error in REPL");
+        let (editor, env) = (editor_ref_copy.clone(), env_ref_copy.clone());
+        with_eval_stack(move || repl(editor, env)).expect("Error in REPL");
     })
     .expect("Error setting Ctrl-C handler");
 
diff --git a/src/expr.rs b/src/expr.rs
index 639924e..c5d3b01 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -1,5 +1,6 @@
 use super::{Environment, Error, Int};
 use std::{
+    cell::RefCell,
     cmp::Ordering,
     collections::BTreeMap,
     fmt,
@@ -21,6 +22,40 @@ use prettytable::{
 /// we don't really want to do this because it's better to halt.
 const MAX_RECURSION_DEPTH: Option<usize> = Some(800);
 
+/// The maximum number of evaluations in progress on a thread. A builtin that evaluates
+/// its arguments starts a new evaluation with a depth of its own, so the depth alone does
+/// not keep recursive programs from exhausting the stack.
+const MAX_EVALUATIONS: usize = 8000;
+
+/// The stack size required by a thread that evaluates expressions.
+pub const EVAL_STACK_SIZE: usize = 512 << 20;
+
+thread_local! {
+    static EVALUATIONS: RefCell<usize> = RefCell::new(0);
+}
+
+/// An evaluation in progress on this thread.
+struct Evaluation;
+
+impl Evaluation {
+    fn start() -> Option<Self> {
+        EVALUATIONS.with(|count| {
+            let mut count = count.borrow_mut();
+            if *count >= MAX_EVALUATIONS {
+                return None;
+            }
+            *count += 1;
+            Some(Self)
+        })
+    }
+}
+
+impl Drop for Evaluation {
+    fn drop(&mut self) {
+        EVALUATIONS.with(|count| *count.borrow_mut() -= 1)
+    }
+}
+
 impl From<Int> for Expression {
     fn from(x: Int) -> Self {
         Self::Integer(x)
@@ -474,6 +509,11 @@ impl Expression {
     }
 
     fn eval_mut(mut self, env: &mut Environment, mut depth: usize) -> Result<Self, Error> {
+        let _evaluation = match Evaluation::start() {
+            Some(evaluation) => evaluation,
+            None => return Err(Error::RecursionDepth(self)),
+        };
+
         loop {
             if let Some(max_depth) = MAX_RECURSION_DEPTH {
                 if depth > max_depth {
-- 
2.43.0


From b5b78bf0a44dfd213597e4a98e9c556646104277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 06/52] fix: name the right line and text in syntax error
 reports

---
 src/error.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 27d69b8..f716ab8 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -1,7 +1,7 @@
 use common_macros::b_tree_map;
 use detached_str::{Str, StrSlice};
 
-use core::{cmp::max, fmt};
+use core::fmt;
 
 use crate::Diagnostic;
 
@@ -199,10 +199,10 @@ fn print_error_lines(
     let before = &string[..at.start()];
     let after = &string[at.end()..];
 
-    let line_before = before.lines().next_back().unwrap_or_default();
+    let line_before = before.rsplit('\n').next().unwrap_or_default();
     let line_after = after.lines().next().unwrap_or_default();
 
-    let first_line_number = max(before.lines().count(), 1);
+    let first_line_number = before.matches('\n').count() + 1;
 
     writeln!(f, "      |")?;
 
@@ -241,7 +241,7 @@ fn print_error_lines(
         let last_len = lines.last().unwrap().chars().count();
         let suffix = line_after
             .chars()
-            .take(max_width - last_len)
+            .take(max_width.saturating_sub(last_len))
             .chain(RESET.chars())
             .collect::<String>();
         writeln!(f, "\n{}", suffix)?;
-- 
2.43.0


From 42d06182efde7bebd418ff955c787e55ab5bfe6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 07/52] fix: report missing arguments to builtins instead of
 panicking

---
 src/binary/init/fmt_module.rs      | 23 +++++++++++++++++++++++
 src/binary/init/mod.rs             | 23 ++++++++++++++---------
 src/binary/init/operator_module.rs | 14 +++++++++++++-
 src/binary/init/string_module.rs   | 13 +++++++++++++
 src/binary/init/sys_module.rs      |  4 ++--
 5 files changed, 65 insertions(+), 12 deletions(-)

diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index e58d170..46d71dc 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -15,95 +15,118 @@ pub fn get() -> Expression {
             "create a hyperlink on the console"),
 
         String::from("bold") => Expression::builtin("bold", |args, env| {
+            super::check_args_len("bold", &args, 1..)?;
             Ok(format!("\x1b[1m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to bold on the console"),
 
         String::from("faint") => Expression::builtin("faint", |args, env| {
+            super::check_args_len("faint", &args, 1..)?;
             Ok(format!("\x1b[2m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to italics on the console"),
 
         String::from("italics") => Expression::builtin("italics", |args, env| {
+            super::check_args_len("italics", &args, 1..)?;
             Ok(format!("\x1b[3m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to italics on the console"),
 
         String::from("underline") => Expression::builtin("underline", |args, env| {
+            super::check_args_len("underline", &args, 1..)?;
             Ok(format!("\x1b[4m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "underline text on the console"),
 
         String::from("blink") => Expression::builtin("blink", |args, env| {
+            super::check_args_len("blink", &args, 1..)?;
             Ok(format!("\x1b[5m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "blink text on the console"),
 
         String::from("invert") => Expression::builtin("invert", |args, env| {
+            super::check_args_len("invert", &args, 1..)?;
             Ok(format!("\x1b[7m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "invert text on the console"),
 
         String::from("strike") => Expression::builtin("strike", |args, env| {
+            super::check_args_len("strike", &args, 1..)?;
             Ok(format!("\x1b[9m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "strike out text on the console"),
 
         String::from("black") => Expression::builtin("black", |args, env| {
+            super::check_args_len("black", &args, 1..)?;
             Ok(format!("\x1b[90m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to black on the console"),
 
         String::from("red") => Expression::builtin("red", |args, env| {
+            super::check_args_len("red", &args, 1..)?;
             Ok(format!("\x1b[91m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to red on the console"),
 
         String::from("green") => Expression::builtin("green", |args, env| {
+            super::check_args_len("green", &args, 1..)?;
             Ok(format!("\x1b[92m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to green on the console"),
 
         String::from("yellow") => Expression::builtin("yellow", |args, env| {
+            super::check_args_len("yellow", &args, 1..)?;
             Ok(format!("\x1b[93m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to yellow on the console"),
 
         String::from("blue") => Expression::builtin("blue", |args, env| {
+            super::check_args_len("blue", &args, 1..)?;
             Ok(format!("\x1b[94m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to blue on the console"),
 
         String::from("magenta") => Expression::builtin("magenta", |args, env| {
+            super::check_args_len("magenta", &args, 1..)?;
             Ok(format!("\x1b[95m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to magenta on the console"),
 
         String::from("cyan") => Expression::builtin("cyan", |args, env| {
+            super::check_args_len("cyan", &args, 1..)?;
             Ok(format!("\x1b[96m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to cyan on the console"),
 
         String::from("white") => Expression::builtin("white", |args, env| {
+            super::check_args_len("white", &args, 1..)?;
             Ok(format!("\x1b[97m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
         }, "convert text to white on the console"),
 
         String::from("dark") => b_tree_map! {
             String::from("black") => Expression::builtin("black", |args, env| {
+                super::check_args_len("black", &args, 1..)?;
                 Ok(format!("\x1b[30m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to black on the console"),
 
             String::from("red") => Expression::builtin("red", |args, env| {
+                super::check_args_len("red", &args, 1..)?;
                 Ok(format!("\x1b[31m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to red on the console"),
 
             String::from("green") => Expression::builtin("green", |args, env| {
+                super::check_args_len("green", &args, 1..)?;
                 Ok(format!("\x1b[32m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to green on the console"),
 
             String::from("yellow") => Expression::builtin("yellow", |args, env| {
+                super::check_args_len("yellow", &args, 1..)?;
                 Ok(format!("\x1b[33m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to yellow on the console"),
 
             String::from("blue") => Expression::builtin("blue", |args, env| {
+                super::check_args_len("blue", &args, 1..)?;
                 Ok(format!("\x1b[34m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to blue on the console"),
 
             String::from("magenta") => Expression::builtin("magenta", |args, env| {
+                super::check_args_len("magenta", &args, 1..)?;
                 Ok(format!("\x1b[35m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to magenta on the console"),
 
             String::from("cyan") => Expression::builtin("cyan", |args, env| {
+                super::check_args_len("cyan", &args, 1..)?;
                 Ok(format!("\x1b[36m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to cyan on the console"),
 
             String::from("white") => Expression::builtin("white", |args, env| {
+                super::check_args_len("white", &args, 1..)?;
                 Ok(format!("\x1b[37m{}\x1b[m\x6b[0m", args[0].eval(env)?).into())
             }, "convert text to white on the console"),
         }.into()
diff --git a/src/binary/init/mod.rs b/src/binary/init/mod.rs
index 4d8e79a..f5c34a0 100644
--- a/src/binary/init/mod.rs
+++ b/src/binary/init/mod.rs
@@ -191,13 +191,13 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "str",
-        |args, env| Ok(Expression::String(args[0].eval(env)?.to_string())),
+        |args, env| Ok(Expression::String(first_arg("str", &args)?.eval(env)?.to_string())),
         "format an expression to a string",
     );
 
     env.define_builtin(
         "int",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("int", &args)?.eval(env)? {
             Expression::Integer(x) => Ok(Expression::Integer(x)),
             Expression::Float(x) => Ok(Expression::Integer(x as Int)),
             Expression::String(x) => {
@@ -264,7 +264,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "keys",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("keys", &args)?.eval(env)? {
             Expression::Map(m) => Ok(m.into_keys().collect::<Vec<_>>().into()),
             otherwise => Err(Error::CustomError(format!(
                 "cannot get the keys of {}",
@@ -276,7 +276,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "vals",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("vals", &args)?.eval(env)? {
             Expression::Map(m) => Ok(m.into_values().collect::<Vec<_>>().into()),
             otherwise => Err(Error::CustomError(format!(
                 "cannot get the values of {}",
@@ -294,7 +294,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "len",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("len", &args)?.eval(env)? {
             Expression::Map(m) => Ok(Expression::Integer(m.len() as Int)),
             Expression::List(list) => Ok(Expression::Integer(list.len() as Int)),
             Expression::Symbol(x) | Expression::String(x) => {
@@ -371,7 +371,7 @@ pub fn init(env: &mut Environment) {
 
     env.define_builtin(
         "lines",
-        |args, env| match args[0].eval(env)? {
+        |args, env| match first_arg("lines", &args)?.eval(env)? {
             Expression::String(x) => Ok(Expression::List(
                 x.lines()
                     .map(|ch| Expression::String(ch.to_string()))
@@ -389,14 +389,14 @@ pub fn init(env: &mut Environment) {
         "eval",
         |args, env| {
             let mut new_env = env.clone();
-            args[0].clone().eval(env)?.eval(&mut new_env)
+            first_arg("eval", &args)?.eval(env)?.eval(&mut new_env)
         },
         "evaluate an expression without changing the environment",
     );
 
     env.define_builtin(
         "exec",
-        |args, env| args[0].clone().eval(env)?.eval(env),
+        |args, env| first_arg("exec", &args)?.eval(env)?.eval(env),
         "evaluate an expression in the current environment",
     );
 
@@ -424,7 +424,7 @@ pub fn init(env: &mut Environment) {
     env.define_builtin(
         "report",
         |args, env| {
-            let val = args[0].eval(env)?;
+            let val = first_arg("report", &args)?.eval(env)?;
             match val {
                 Expression::Map(_) => println!("{}", val),
                 Expression::String(s) => println!("{}", s),
@@ -453,6 +453,11 @@ fn check_args_len(
     }
 }
 
+fn first_arg(name: impl ToString, args: &[Expression]) -> Result<&Expression, Error> {
+    check_args_len(name, args, 1..)?;
+    Ok(&args[0])
+}
+
 fn check_exact_args_len(
     name: impl ToString,
     args: &[Expression],
diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index f12eef4..0d310d1 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -1,4 +1,4 @@
-use super::{curry, reverse_curry};
+use super::{check_args_len, curry, reverse_curry};
 use dune::{Environment, Error, Expression};
 use std::{
     io::Write,
@@ -6,6 +6,7 @@ use std::{
 };
 
 fn add_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
+    check_args_len("+", &args, 1..)?;
     let mut result = args[0].clone().eval(env)?;
     if args.len() == 1 {
         return Expression::Apply(
@@ -45,6 +46,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "-",
         |args, env| {
+            check_args_len("-", &args, 1..)?;
             // If there are two expressions or more, subtract them
             let mut result = args[0].clone().eval(env)?;
 
@@ -74,6 +76,7 @@ pub fn get(env: &mut Environment) -> Expression {
             Expression::builtin(
                 "*",
                 |args, env| {
+                    check_args_len("*", &args, 1..)?;
                     let mut result = args[0].clone().eval(env)?;
                     for arg in &args[1..] {
                         let old_result = result.clone();
@@ -100,6 +103,7 @@ pub fn get(env: &mut Environment) -> Expression {
             Expression::builtin(
                 "//",
                 |args, env| {
+                    check_args_len("//", &args, 1..)?;
                     let mut result = args[0].clone().eval(env)?;
                     for arg in &args[1..] {
                         let old_result = result.clone();
@@ -126,6 +130,7 @@ pub fn get(env: &mut Environment) -> Expression {
             Expression::builtin(
                 "%",
                 |args, env| {
+                    check_args_len("%", &args, 1..)?;
                     let mut result = args[0].clone().eval(env)?;
                     for arg in &args[1..] {
                         let old_result = result.clone();
@@ -191,6 +196,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "==",
         |args, env| {
+            check_args_len("==", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].eval(env)? == args[1].eval(env)?,
             ))
@@ -201,6 +207,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "!=",
         |args, env| {
+            check_args_len("!=", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].eval(env)? != args[1].eval(env)?,
             ))
@@ -211,6 +218,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "<",
         |args, env| {
+            check_args_len("<", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? < args[1].clone().eval(env)?,
             ))
@@ -221,6 +229,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "<=",
         |args, env| {
+            check_args_len("<=", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? <= args[1].clone().eval(env)?,
             ))
@@ -231,6 +240,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         ">",
         |args, env| {
+            check_args_len(">", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? > args[1].clone().eval(env)?,
             ))
@@ -241,6 +251,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         ">=",
         |args, env| {
+            check_args_len(">=", &args, 2..)?;
             Ok(Expression::Boolean(
                 args[0].clone().eval(env)? >= args[1].clone().eval(env)?,
             ))
@@ -251,6 +262,7 @@ pub fn get(env: &mut Environment) -> Expression {
     tmp.define_builtin(
         "@",
         |args, env| {
+            check_args_len("@", &args, 1..)?;
             let mut val = args[0].eval(env)?;
             for arg in &args[1..] {
                 val = match arg {
diff --git a/src/binary/init/string_module.rs b/src/binary/init/string_module.rs
index 62b7a76..dee5513 100644
--- a/src/binary/init/string_module.rs
+++ b/src/binary/init/string_module.rs
@@ -105,6 +105,7 @@ pub fn get() -> Expression {
         }, "get the width of a string"),
 
         String::from("is-whitespace?") => Expression::builtin("is-whitespace?", |args, env| {
+            super::check_args_len("is-whitespace?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_whitespace())))
@@ -117,6 +118,7 @@ pub fn get() -> Expression {
         }, "is this string whitespace?"),
 
         String::from("is-alpha?") => Expression::builtin("is-alpha?", |args, env| {
+            super::check_args_len("is-alpha?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_alphabetic())))
@@ -129,6 +131,7 @@ pub fn get() -> Expression {
         }, "is this string alphabetic?"),
 
         String::from("is-alphanumeric?") => Expression::builtin("is-alphanumeric?", |args, env| {
+            super::check_args_len("is-alphanumeric?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_alphanumeric())))
@@ -141,6 +144,7 @@ pub fn get() -> Expression {
         }, "is this string alphanumeric?"),
 
         String::from("is-numeric?") => Expression::builtin("is-numeric?", |args, env| {
+            super::check_args_len("is-numeric?", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_numeric())))
@@ -160,6 +164,7 @@ pub fn get() -> Expression {
         }, "split a string on a given character"),
 
         String::from("to-lower") => Expression::builtin("to-lower", |args, env| {
+            super::check_args_len("to-lower", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.to_lowercase()))
@@ -172,6 +177,7 @@ pub fn get() -> Expression {
         }, "convert a string to lowercase"),
 
         String::from("to-upper") => Expression::builtin("to-upper", |args, env| {
+            super::check_args_len("to-upper", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.to_uppercase()))
@@ -184,6 +190,7 @@ pub fn get() -> Expression {
         }, "convert a string to uppercase"),
 
         String::from("to-title") => Expression::builtin("to-title", |args, env| {
+            super::check_args_len("to-title", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     let mut title = String::new();
@@ -209,6 +216,7 @@ pub fn get() -> Expression {
         }, "convert a string to title case"),
 
         String::from("is-lower") => Expression::builtin("is-lower", |args, env| {
+            super::check_args_len("is-lower", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_lowercase())))
@@ -221,6 +229,7 @@ pub fn get() -> Expression {
         }, "is this string lowercase?"),
 
         String::from("is-upper") => Expression::builtin("is-upper", |args, env| {
+            super::check_args_len("is-upper", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::Boolean(x.chars().all(|c| c.is_uppercase())))
@@ -233,6 +242,7 @@ pub fn get() -> Expression {
         }, "is this string uppercase?"),
 
         String::from("is-title") => Expression::builtin("is-title", |args, env| {
+            super::check_args_len("is-title", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     let mut title = String::new();
@@ -357,6 +367,7 @@ pub fn get() -> Expression {
         }, "split a string at a given index"),
 
         String::from("trim") => Expression::builtin("trim", |args, env| {
+            super::check_args_len("trim", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.trim().to_string()))
@@ -369,6 +380,7 @@ pub fn get() -> Expression {
         }, "trim whitespace from a string"),
 
         String::from("trim-start") => Expression::builtin("trim-start", |args, env| {
+            super::check_args_len("trim-start", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.trim_start().to_string()))
@@ -381,6 +393,7 @@ pub fn get() -> Expression {
         }, "trim whitespace from the start of a string"),
 
         String::from("trim-end") => Expression::builtin("trim-end", |args, env| {
+            super::check_args_len("trim-end", &args, 1..)?;
             match args[0].eval(env)? {
                 Expression::Symbol(x) | Expression::String(x) => {
                     Ok(Expression::String(x.trim_end().to_string()))
diff --git a/src/binary/init/sys_module.rs b/src/binary/init/sys_module.rs
index 3ab218b..111fc17 100644
--- a/src/binary/init/sys_module.rs
+++ b/src/binary/init/sys_module.rs
@@ -21,11 +21,11 @@ pub fn get() -> Expression {
 
         String::from("eval") => Expression::builtin("eval", |args, env| {
             let mut new_env = env.clone();
-            args[0].clone().eval(env)?.eval(&mut new_env)
+            super::first_arg("eval", &args)?.eval(env)?.eval(&mut new_env)
         }, "evaluate an expression without changing the environment"),
 
         String::from("exec") => Expression::builtin("exec", |args, env| {
-            args[0].clone().eval(env)?.eval(env)
+            super::first_arg("exec", &args)?.eval(env)?.eval(env)
         }, "evaluate an expression in the current environment"),
 
         // Evaluate a file in the current environment.
-- 
2.43.0


From 39ea77d4a5270633b767dd60b9f99944d3706ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:10 +0000
Subject: [PATCH 08/52] fix: report integer overflow, division by zero and
 impossible repetition instead of panicking

---
 src/binary/init/operator_module.rs |  8 ++++++-
 src/expr.rs                        | 38 ++++++++++++++++++++++++++----
 2 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index 0d310d1..dcc1944 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -64,7 +64,13 @@ pub fn get(env: &mut Environment) -> Expression {
                 Ok(result)
             } else {
                 // Return the negated original
-                Ok(-result)
+                match -result.clone() {
+                    Expression::None => Err(Error::CustomError(format!(
+                        "cannot negate {:?}",
+                        result
+                    ))),
+                    negated => Ok(negated),
+                }
             }
         },
         "subtract two expressions",
diff --git a/src/expr.rs b/src/expr.rs
index c5d3b01..98e0c42 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -767,7 +767,10 @@ impl Neg for Expression {
     type Output = Expression;
     fn neg(self) -> Self::Output {
         match self {
-            Self::Integer(n) => Self::Integer(-n),
+            Self::Integer(n) => match n.checked_neg() {
+                Some(i) => Self::Integer(i),
+                None => Self::None,
+            },
             Self::Boolean(b) => Self::Boolean(!b),
             Self::Float(n) => Self::Float(-n),
             _ => Self::None,
@@ -775,6 +778,12 @@ impl Neg for Expression {
     }
 }
 
+/// The length of a value of some length repeated `n` times (none if `n` is negative),
+/// or `None` if it is too large to be a length.
+fn repeated_len(len: usize, n: Int) -> Option<usize> {
+    len.checked_mul(usize::try_from(n.max(0)).ok()?)
+}
+
 impl Mul for Expression {
     type Output = Self;
     fn mul(self, other: Self) -> Self {
@@ -787,12 +796,28 @@ impl Mul for Expression {
             (Self::Float(m), Self::Integer(n)) => Self::Float(m * n as f64),
             (Self::Float(m), Self::Float(n)) => Self::Float(m * n),
             (Self::String(m), Self::Integer(n)) | (Self::Integer(n), Self::String(m)) => {
-                Self::String(m.repeat(n as usize))
+                let mut result = String::new();
+                match repeated_len(m.len(), n) {
+                    Some(len) if result.try_reserve_exact(len).is_ok() => {}
+                    _ => return Self::None,
+                }
+                if !m.is_empty() {
+                    for _ in 0..n {
+                        result.push_str(&m);
+                    }
+                }
+                Self::String(result)
             }
             (Self::List(m), Self::Integer(n)) | (Self::Integer(n), Self::List(m)) => {
                 let mut result = vec![];
-                for _ in 0..n {
-                    result.extend(m.clone());
+                match repeated_len(m.len(), n) {
+                    Some(len) if result.try_reserve_exact(len).is_ok() => {}
+                    _ => return Self::None,
+                }
+                if !m.is_empty() {
+                    for _ in 0..n {
+                        result.extend(m.clone());
+                    }
                 }
                 Self::List(result)
             }
@@ -821,7 +846,10 @@ impl Rem for Expression {
     type Output = Self;
     fn rem(self, other: Self) -> Self {
         match (self, other) {
-            (Self::Integer(m), Self::Integer(n)) => Self::Integer(m % n),
+            (Self::Integer(m), Self::Integer(n)) => match m.checked_rem(n) {
+                Some(i) => Self::Integer(i),
+                None => Self::None,
+            },
             _ => Self::None,
         }
     }
-- 
2.43.0


From 465c272d6b86c5c727d90978112e86b38d859bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 09/52] fix: report overflow in integer math functions instead
 of panicking or wrapping

---
 src/binary/init/math_module.rs | 44 ++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/binary/init/math_module.rs b/src/binary/init/math_module.rs
index b1e757e..c5f01ac 100644
--- a/src/binary/init/math_module.rs
+++ b/src/binary/init/math_module.rs
@@ -2,6 +2,11 @@ use super::curry;
 use common_macros::b_tree_map;
 use dune::{Environment, Error, Expression, Int};
 
+/// Report the result of an operation on integers, or that it overflowed.
+fn checked(name: &str, result: Option<Int>) -> Result<Int, Error> {
+    result.ok_or_else(|| Error::CustomError(format!("integer overflow in {}", name)))
+}
+
 pub fn get(env: &mut Environment) -> Expression {
     (b_tree_map! {
         String::from("E")   => std::f64::consts::E.into(),
@@ -24,10 +29,10 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid l-rsh argument {}", e)))
             };
 
-            let a = a as u64;
-            let b = b as u64;
-
-            Ok(((a >> b) as Int).into())
+            match u32::try_from(b).ok().and_then(|b| (a as u64).checked_shr(b)) {
+                Some(n) => Ok((n as Int).into()),
+                None => Err(Error::CustomError(format!("cannot shift {} by {}", a, b)))
+            }
         }, "logical right shift"), 2),
 
         String::from("a-rsh") => curry(Expression::builtin("a-rsh", |args, env| {
@@ -42,7 +47,10 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid a-rsh argument {}", e)))
             };
 
-            Ok((a >> b).into())
+            match u32::try_from(b).ok().and_then(|b| a.checked_shr(b)) {
+                Some(n) => Ok(n.into()),
+                None => Err(Error::CustomError(format!("cannot shift {} by {}", a, b)))
+            }
         }, "arithmetic right shift"), 2),
 
         String::from("rsh") => curry(Expression::builtin("a-rsh", |args, env| {
@@ -57,7 +65,10 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid a-rsh argument {}", e)))
             };
 
-            Ok((a >> b).into())
+            match u32::try_from(b).ok().and_then(|b| a.checked_shr(b)) {
+                Some(n) => Ok(n.into()),
+                None => Err(Error::CustomError(format!("cannot shift {} by {}", a, b)))
+            }
         }, "arithmetic right shift"), 2),
 
         String::from("lsh") => Expression::builtin("lsh", |args, env| {
@@ -72,7 +83,10 @@ pub fn get(env: &mut Environment) -> Expression {
                 e => return Err(Error::CustomError(format!("invalid lsh argument {}", e)))
             };
 
-            Ok((a << b).into())
+            match u32::try_from(b).ok().and_then(|b| a.checked_shl(b)) {
+                Some(n) => Ok(n.into()),
+                None => Err(Error::CustomError(format!("cannot shift {} by {}", a, b)))
+            }
         }, "left shift"),
 
 
@@ -81,12 +95,12 @@ pub fn get(env: &mut Environment) -> Expression {
             let mut float_sum = 0.0;
             for arg in &args {
                 match arg.eval(env)? {
-                    Expression::Integer(i) => int_sum += i,
+                    Expression::Integer(i) => int_sum = checked("sum", Int::checked_add(int_sum, i))?,
                     Expression::Float(f) => float_sum += f,
                     Expression::List(list) => {
                         for item in list {
                             match item.eval(env)? {
-                                Expression::Integer(i) => int_sum += i,
+                                Expression::Integer(i) => int_sum = checked("sum", Int::checked_add(int_sum, i))?,
                                 Expression::Float(f) => float_sum += f,
                                 e => return Err(Error::CustomError(format!("invalid sum argument {:?}", e)))
                             }
@@ -109,12 +123,12 @@ pub fn get(env: &mut Environment) -> Expression {
 
             for arg in &args {
                 match arg.eval(env)? {
-                    Expression::Integer(i) => int_product *= i,
+                    Expression::Integer(i) => int_product = checked("product", Int::checked_mul(int_product, i))?,
                     Expression::Float(f) => float_product *= f,
                     Expression::List(list) => {
                         for item in list {
                             match item.eval(env)? {
-                                Expression::Integer(i) => int_product *= i,
+                                Expression::Integer(i) => int_product = checked("product", Int::checked_mul(int_product, i))?,
                                 Expression::Float(f) => float_product *= f,
                                 e => return Err(Error::CustomError(format!("invalid product argument {:?}", e)))
                             }
@@ -140,7 +154,7 @@ pub fn get(env: &mut Environment) -> Expression {
                     } else {
                         let mut result = 1;
                         for n in 1..=i {
-                            result *= n;
+                            result = checked("fact", Int::checked_mul(result, n))?;
                         }
                         Ok(result.into())
                     }
@@ -159,7 +173,7 @@ pub fn get(env: &mut Environment) -> Expression {
         String::from("abs") => Expression::builtin("abs", |args, env| {
             super::check_exact_args_len("abs", &args, 1)?;
             match args[0].eval(env)? {
-                Expression::Integer(i) => Ok(i.abs().into()),
+                Expression::Integer(i) => Ok(checked("abs", i.checked_abs())?.into()),
                 Expression::Float(f) => Ok(f.abs().into()),
                 e => Err(Error::CustomError(format!("invalid abs argument {:?}", e)))
             }
@@ -306,9 +320,9 @@ pub fn get(env: &mut Environment) -> Expression {
                 (Expression::Float(base), Expression::Float(exponent)) => Ok(base.powf(exponent).into()),
                 (Expression::Float(base), Expression::Integer(exponent)) => Ok(base.powf(exponent as f64).into()),
                 (Expression::Integer(base), Expression::Float(exponent)) => Ok((base as f64).powf(exponent).into()),
-                (Expression::Integer(base), Expression::Integer(exponent)) => match base.checked_pow(exponent as u32) {
+                (Expression::Integer(base), Expression::Integer(exponent)) => match u32::try_from(exponent).ok().and_then(|exponent| base.checked_pow(exponent)) {
                     Some(n) => Ok(n.into()),
-                    None => Err(Error::CustomError(format!("overflow when raising int {} to the power {}", base, exponent)))
+                    None => Err(Error::CustomError(format!("cannot raise int {} to the power {}", base, exponent)))
                 },
                 (a, b) => Err(Error::CustomError(format!("cannot raise {} to the power {}", a, b)))
             }
-- 
2.43.0


From 225bc4a799178f0fd1c83064898b7d6cbdc906d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 10/52] fix: recognise negative odd numbers

---
 src/binary/init/math_module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/math_module.rs b/src/binary/init/math_module.rs
index c5f01ac..c2330f5 100644
--- a/src/binary/init/math_module.rs
+++ b/src/binary/init/math_module.rs
@@ -299,8 +299,8 @@ pub fn get(env: &mut Environment) -> Expression {
         String::from("isodd") => Expression::builtin("isodd", |args, env| {
             super::check_exact_args_len("odd", &args, 1)?;
             Ok(match args[0].eval(env)? {
-                Expression::Integer(i) => i % 2 == 1,
-                Expression::Float(f) => (f as Int) % 2 == 1,
+                Expression::Integer(i) => i % 2 != 0,
+                Expression::Float(f) => (f as Int) % 2 != 0,
                 e => return Err(Error::CustomError(format!("invalid isodd argument {}", e)))
             }.into())
         }, "is a number odd?"),
-- 
2.43.0


From a4752cd3c33e0973b6af6f3084d148e6b416e5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 11/52] fix: report an out of bounds index to list@nth instead
 of panicking

---
 src/binary/init/list_module.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index 1ba42df..82a05ef 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -392,10 +392,20 @@ fn nth(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error
     let list = args[1].eval(env)?;
     if let Expression::Integer(n) = n {
         if let Expression::List(list) = list {
-            if n < 0 {
-                Ok(list[list.len() - (-n as usize)].clone())
+            // A negative index counts from the end of the list.
+            let index = if n < 0 {
+                usize::try_from(n.unsigned_abs())
+                    .ok()
+                    .and_then(|n| list.len().checked_sub(n))
             } else {
-                Ok(list[n as usize].clone())
+                usize::try_from(n).ok()
+            };
+            match index.and_then(|index| list.get(index)) {
+                Some(item) => Ok(item.clone()),
+                None => Err(Error::CustomError(format!(
+                    "index {} out of bounds for {:?}",
+                    n, list
+                ))),
             }
         } else {
             Err(Error::CustomError(
-- 
2.43.0


From 52c0968c504394bf85a636df005375896df0501b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 12/52] fix: get the first item of a list with list@head

---
 src/binary/init/list_module.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index 82a05ef..a5a3c8a 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -71,11 +71,7 @@ fn head(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Erro
     }
     let list = args[0].eval(env)?;
     if let Expression::List(list) = list {
-        if list.is_empty() {
-            Ok(Expression::List(list))
-        } else {
-            Ok(Expression::None)
-        }
+        Ok(list.into_iter().next().unwrap_or(Expression::None))
     } else {
         Err(Error::CustomError(
             "head requires a list as its argument".to_string(),
-- 
2.43.0


From 02dcf8584ee1b09d7f401c68e701aa8b0f56355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 13/52] fix: evaluate the arguments of list@list

---
 src/binary/init/list_module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index a5a3c8a..b559ac0 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -43,8 +43,8 @@ pub fn get() -> Expression {
     .into()
 }
 
-fn list(args: Vec<Expression>, _env: &mut Environment) -> Result<Expression, Error> {
-    Ok(Expression::List(args))
+fn list(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
+    Expression::List(args).eval(env)
 }
 
 fn tail(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
-- 
2.43.0


From f57be401cbbf7fe98d8acb0eb29f1686d4cdcd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 14/52] fix: refuse to chunk a list into lists of no elements

---
 src/binary/init/list_module.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index b559ac0..127a61b 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -88,6 +88,12 @@ fn chunk(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
     let n = args[0].eval(env)?;
     let list = args[1].eval(env)?;
     if let Expression::Integer(n) = n {
+        if n < 1 {
+            return Err(Error::CustomError(format!(
+                "cannot chunk a list into lists of {} elements",
+                n
+            )));
+        }
         if let Expression::List(list) = list {
             let mut result = vec![];
             let mut chunk = vec![];
-- 
2.43.0


From ab3e5171ad359aa162e03c69f62fa310d73cbb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:48 +0000
Subject: [PATCH 15/52] fix: report a range that is too long instead of
 panicking or aborting

---
 src/binary/init/list_module.rs |  2 +-
 src/binary/init/mod.rs         | 14 +++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/list_module.rs b/src/binary/init/list_module.rs
index 127a61b..d3e1169 100644
--- a/src/binary/init/list_module.rs
+++ b/src/binary/init/list_module.rs
@@ -199,7 +199,7 @@ fn range(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
     let a = args[0].eval(env)?;
     let b = args[1].eval(env)?;
     if let (Expression::Integer(a), Expression::Integer(b)) = (a, b) {
-        Ok(Expression::List((a..=b).map(|n| n.into()).collect()))
+        super::list_of_integers(a..=b)
     } else {
         Err(Error::CustomError(
             "range requires two integers as its arguments".to_string(),
diff --git a/src/binary/init/mod.rs b/src/binary/init/mod.rs
index f5c34a0..fc2fa4b 100644
--- a/src/binary/init/mod.rs
+++ b/src/binary/init/mod.rs
@@ -173,9 +173,7 @@ pub fn init(env: &mut Environment) {
         |args, env| {
             if args.len() == 2 {
                 match (args[0].clone().eval(env)?, args[1].clone().eval(env)?) {
-                    (Expression::Integer(m), Expression::Integer(n)) => Ok(Expression::List(
-                        (m..n).map(Expression::Integer).collect::<Vec<Expression>>(),
-                    )),
+                    (Expression::Integer(m), Expression::Integer(n)) => list_of_integers(m..n),
                     _ => Err(Error::CustomError(
                         "Arguments to range must be integers".to_string(),
                     )),
@@ -438,6 +436,16 @@ pub fn init(env: &mut Environment) {
     );
 }
 
+/// The integers in a range as a list, if there is enough memory for it.
+fn list_of_integers(range: impl Iterator<Item = Int>) -> Result<Expression, Error> {
+    let mut list = vec![];
+    if list.try_reserve_exact(range.size_hint().0).is_err() {
+        return Err(Error::CustomError("range is too long".to_string()));
+    }
+    list.extend(range.map(Expression::Integer));
+    Ok(Expression::List(list))
+}
+
 fn check_args_len(
     name: impl ToString,
     args: &[Expression],
-- 
2.43.0


From f4a60bb668a984acffb9aca671e459111ff5edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 16/52] fix: report an index that is not in a string instead of
 panicking

---
 src/binary/init/mod.rs           | 2 +-
 src/binary/init/string_module.rs | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/mod.rs b/src/binary/init/mod.rs
index fc2fa4b..c02288c 100644
--- a/src/binary/init/mod.rs
+++ b/src/binary/init/mod.rs
@@ -238,7 +238,7 @@ pub fn init(env: &mut Environment) {
                     }
                 }
                 (Expression::String(s), Expression::Integer(i)) => {
-                    if *i as usize <= s.len() {
+                    if s.is_char_boundary(*i as usize) {
                         s.insert_str(*i as usize, &val.to_string());
                     } else {
                         return Err(Error::CustomError(format!(
diff --git a/src/binary/init/string_module.rs b/src/binary/init/string_module.rs
index dee5513..97e08e7 100644
--- a/src/binary/init/string_module.rs
+++ b/src/binary/init/string_module.rs
@@ -357,6 +357,12 @@ pub fn get() -> Expression {
             let index = args[1].clone().eval(env)?;
             Ok(match (expr, index) {
                 (Expression::Symbol(x) | Expression::String(x), Expression::Integer(i)) => {
+                    if !x.is_char_boundary(i as usize) {
+                        return Err(Error::CustomError(format!(
+                            "cannot split {:?} at index {}",
+                            x, i
+                        )));
+                    }
                     Expression::List(vec![
                         Expression::String(x[..i as usize].to_string()),
                         Expression::String(x[i as usize..].to_string()),
-- 
2.43.0


From ab11b6f988102540c1c140fd4b25df5e2430331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 17/52] fix: shift letters by any integer in string@caesar

---
 src/binary/init/string_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/string_module.rs b/src/binary/init/string_module.rs
index 97e08e7..1357a5d 100644
--- a/src/binary/init/string_module.rs
+++ b/src/binary/init/string_module.rs
@@ -58,7 +58,7 @@ pub fn get() -> Expression {
                             // Get the offset from the base
                             let offset = c as u8 - base;
                             // Shift the offset
-                            let shifted_offset = (offset + (i as u8)) % 26;
+                            let shifted_offset = (offset + i.rem_euclid(26) as u8) % 26;
                             // Get the shifted character
                             let shifted_char = (shifted_offset + base) as char;
                             // Add the shifted character to the result
-- 
2.43.0


From c88c0d8ee77139fb0975122845c1712c168f48c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 18/52] fix: reset the style after fmt@dark@white text

---
 src/binary/init/fmt_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index 46d71dc..7c1262d 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -127,7 +127,7 @@ pub fn get() -> Expression {
 
             String::from("white") => Expression::builtin("white", |args, env| {
                 super::check_args_len("white", &args, 1..)?;
-                Ok(format!("\x1b[37m{}\x1b[m\x6b[0m", args[0].eval(env)?).into())
+                Ok(format!("\x1b[37m{}\x1b[m\x1b[0m", args[0].eval(env)?).into())
             }, "convert text to white on the console"),
         }.into()
     })
-- 
2.43.0


From 3b6d63088e91a97bd3eb2abaae9ad76ca8485254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:00 +0000
Subject: [PATCH 19/52] fix: report empty random choices and large console rows
 instead of panicking

---
 src/binary/init/console_module.rs | 2 +-
 src/binary/init/rand_module.rs    | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/console_module.rs b/src/binary/init/console_module.rs
index 0634696..3452913 100644
--- a/src/binary/init/console_module.rs
+++ b/src/binary/init/console_module.rs
@@ -214,7 +214,7 @@ fn write(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
                 print!(
                     "\x1b[s\x1b[{row};{column}H\x1b[{row};{column}f{content}\x1b[u",
                     column = x,
-                    row = y + y_offset as Int,
+                    row = y.saturating_add(y_offset as Int),
                     content = line
                 );
             }
diff --git a/src/binary/init/rand_module.rs b/src/binary/init/rand_module.rs
index dcfe21e..6395ecb 100644
--- a/src/binary/init/rand_module.rs
+++ b/src/binary/init/rand_module.rs
@@ -15,6 +15,12 @@ fn int(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error
     super::check_exact_args_len("int", &args, 2)?;
     match (args[0].eval(env)?, args[1].eval(env)?) {
         (Expression::Integer(l), Expression::Integer(h)) => {
+            if l >= h {
+                return Err(Error::CustomError(format!(
+                    "there is no integer between {} and {}",
+                    l, h
+                )));
+            }
             let mut rng = rand::thread_rng();
             let n = Uniform::new(l, h);
             Ok(Expression::Integer(rng.sample(n)))
@@ -29,6 +35,9 @@ fn int(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error
 fn choose(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
     super::check_exact_args_len("choose", &args, 1)?;
     match args[0].eval(env)? {
+        Expression::List(list) if list.is_empty() => Err(Error::CustomError(
+            "cannot choose from an empty list".to_string(),
+        )),
         Expression::List(list) => {
             let mut rng = rand::thread_rng();
             let n = Uniform::new(0, list.len());
-- 
2.43.0


From b33ed5148d8759ef3dfd05f1d75473203b867b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:21 +0000
Subject: [PATCH 20/52] fix: lay out text in extreme widths without panicking

---
 src/binary/init/fmt_module.rs    | 13 ++++++++++++-
 src/binary/init/widget_module.rs | 23 +++++++++++++----------
 src/expr.rs                      |  2 +-
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index 7c1262d..060763f 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -138,7 +138,18 @@ fn wrap(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Erro
     super::check_exact_args_len("wrap", &args, 2)?;
     match args[1].eval(env)? {
         Expression::Integer(columns) => {
-            Ok(textwrap::fill(&args[0].eval(env)?.to_string(), columns as usize).into())
+            let text = args[0].eval(env)?.to_string();
+            let columns = match usize::try_from(columns) {
+                // Text always fits in as many columns as it has bytes.
+                Ok(columns) => columns.min(text.len().max(1)),
+                Err(_) => {
+                    return Err(Error::CustomError(format!(
+                        "cannot wrap text in {} columns",
+                        columns
+                    )))
+                }
+            };
+            Ok(textwrap::fill(&text, columns).into())
         }
         otherwise => Err(Error::CustomError(format!(
             "expected number of columns in wrap, but got {}",
diff --git a/src/binary/init/widget_module.rs b/src/binary/init/widget_module.rs
index 02ca2be..520eb91 100644
--- a/src/binary/init/widget_module.rs
+++ b/src/binary/init/widget_module.rs
@@ -1,5 +1,8 @@
 use common_macros::b_tree_map;
-use dune::{Environment, Error, Expression};
+use dune::{Environment, Error, Expression, Int};
+
+/// The largest width or height of a widget: no terminal is larger.
+const MAX_SIZE: Int = u16::MAX as Int;
 
 pub fn get() -> Expression {
     (b_tree_map! {
@@ -16,11 +19,11 @@ fn create(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
     let title_len = title.chars().count();
 
     let text_width = match args[2].eval(env)? {
-        Expression::Integer(n) if n > 4 => n,
+        Expression::Integer(n) if n > 4 && n <= MAX_SIZE => n,
         otherwise => {
             return Err(Error::CustomError(format!(
-                "expected width argument to be integer greater than 4, but got {}",
-                otherwise
+                "expected width argument to be integer greater than 4 and at most {}, but got {}",
+                MAX_SIZE, otherwise
             )))
         }
     } as usize
@@ -32,11 +35,11 @@ fn create(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
     );
 
     let widget_height = match args[3].eval(env)? {
-        Expression::Integer(n) if n >= 3 => n,
+        Expression::Integer(n) if n >= 3 && n <= MAX_SIZE => n,
         otherwise => {
             return Err(Error::CustomError(format!(
-                "expected height argument to be an integer greater than 2, but got {}",
-                otherwise
+                "expected height argument to be an integer greater than 2 and at most {}, but got {}",
+                MAX_SIZE, otherwise
             )))
         }
     } as usize;
@@ -92,7 +95,7 @@ fn create(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
 
         result += &" ".repeat(width - i);
 
-        while result.lines().count() < widget_height - 1 {
+        for _ in result.lines().count()..widget_height - 1 {
             result += "\n";
             result += &" ".repeat(width);
         }
@@ -161,8 +164,8 @@ fn joiny(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
             Expression::String(s) => {
                 string_args.push(s.trim().to_string());
 
-                let width = string_args[0].lines().next().unwrap().chars().count();
-                let this_width = string_args[i].lines().next().unwrap().chars().count();
+                let width = string_args[0].lines().next().unwrap_or("").chars().count();
+                let this_width = string_args[i].lines().next().unwrap_or("").chars().count();
                 if width != this_width {
                     return Err(Error::CustomError(format!(
                         "Widths of vertically added widgets must be equal, \
diff --git a/src/expr.rs b/src/expr.rs
index 98e0c42..7e58355 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -339,7 +339,7 @@ impl fmt::Display for Expression {
                             t.add_row(row!(key, format!("{:specified_width$}", val)));
                         }
                         Self::List(_) => {
-                            let w = specified_width - key.len() - 3;
+                            let w = specified_width.saturating_sub(key.len() + 3);
                             let formatted = format!("{:w$}", val);
                             t.add_row(row!(key, textwrap::fill(&formatted, w),));
                         }
-- 
2.43.0


From e9678d5501ac5a259b695cb691398921f2c2a158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 21/52] fix: stop at the maximum depth in fs@tree, and at the
 root directory

---
 src/binary/init/fs_module.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index ed0a3b7..654674e 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -11,12 +11,16 @@ use dune::{Environment, Error, Expression};
 fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expression> {
     let mut dir_tree = b_tree_map! {};
 
-    dir_tree.insert(".".to_string(), Expression::from(cwd.to_str().unwrap()));
+    dir_tree.insert(".".to_string(), Expression::from(cwd.to_string_lossy().to_string()));
     dir_tree.insert(
         "..".to_string(),
-        Expression::from(cwd.parent().unwrap().to_str().unwrap()),
+        Expression::from(cwd.parent().unwrap_or(cwd).to_string_lossy().to_string()),
     );
 
+    if matches!(max_depth, Some(depth) if depth < 1) {
+        return dir_tree;
+    }
+
     if let Ok(entries) = std::fs::read_dir(cwd) {
         for entry in entries.flatten() {
             let path = entry.path();
@@ -30,7 +34,7 @@ fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expressi
                 } else {
                     dir_tree.insert(
                         file_name,
-                        Expression::from(path.into_os_string().into_string().unwrap()),
+                        Expression::from(path.to_string_lossy().to_string()),
                     );
                 }
             }
-- 
2.43.0


From ffa525414cbfe567a7a39a849803bd407424ebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:27 +0000
Subject: [PATCH 22/52] fix: report an invalid glob pattern, and match patterns
 in the current directory

---
 src/binary/init/fs_module.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 654674e..3a656e2 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -332,7 +332,12 @@ pub fn get(env: &mut Environment) -> Expression {
             let pattern = args[0].eval(env)?.to_string();
             let mut result = vec![];
 
-            for entry in glob::glob(&pattern).unwrap() {
+            // Match relative patterns against the paths in this scope's directory.
+            let absolute = PathBuf::from(glob::Pattern::escape(&env.get_cwd())).join(&pattern);
+            let entries = glob::glob(&absolute.to_string_lossy())
+                .map_err(|e| Error::CustomError(format!("could not glob pattern {}: {}", pattern, e)))?;
+
+            for entry in entries {
                 match entry {
                     Ok(path) => {
                         // Strip prefix from path
-- 
2.43.0


From 4a44ca5091c7a7e54331536ecde1e93ecc957cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:30 +0000
Subject: [PATCH 23/52] fix: keep the lines in order in fs@tail

---
 src/binary/init/fs_module.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 3a656e2..e1e307e 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -151,15 +151,12 @@ pub fn get(env: &mut Environment) -> Expression {
             };
 
             if let Ok(contents) = std::fs::read_to_string(path) {
-                let mut lines = contents.lines().rev();
+                let lines = contents.lines().collect::<Vec<_>>();
+                let n = usize::try_from(n.max(0)).unwrap_or(usize::MAX);
                 let mut result = String::new();
-                for _ in 0..n {
-                    if let Some(line) = lines.next() {
-                        result.push_str(line);
-                        result.push('\n');
-                    } else {
-                        break;
-                    }
+                for line in &lines[lines.len().saturating_sub(n)..] {
+                    result.push_str(line);
+                    result.push('\n');
                 }
                 Ok(result.into())
             } else {
-- 
2.43.0


From d19f1985047e6d56a19c399542cc5003fd0d0544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 24/52] fix: refuse to curry a function of too many arguments

---
 src/binary/init/fn_module.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/fn_module.rs b/src/binary/init/fn_module.rs
index c9d16b9..bc940f6 100644
--- a/src/binary/init/fn_module.rs
+++ b/src/binary/init/fn_module.rs
@@ -56,6 +56,9 @@ pub(super) fn curry(f: Expression, args: usize) -> Expression {
     curry_env(f, args, &mut env).unwrap()
 }
 
+/// The most arguments of a curried function: each of them nests the function in another.
+const MAX_CURRIED_ARGS: usize = 256;
+
 fn curry_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
     if args.len() < 2 {
         return Err(Error::CustomError(
@@ -64,7 +67,13 @@ fn curry_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Express
     }
     let f = args[0].eval(env)?;
     if let Expression::Integer(arg_count) = args[1].eval(env)? {
-        curry_env(f, arg_count as usize, env)
+        match usize::try_from(arg_count) {
+            Ok(arg_count) if arg_count <= MAX_CURRIED_ARGS => curry_env(f, arg_count, env),
+            _ => Err(Error::CustomError(format!(
+                "cannot curry a function of {} arguments",
+                arg_count
+            ))),
+        }
     } else {
         Ok(f)
     }
-- 
2.43.0


From 40e094eab919dc9cd076aecd6847f837bacc810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 25/52] fix: refuse to copy a directory into itself instead of
 copying it forever

---
 src/binary/init/fs_module.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index e1e307e..0092ba2 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -356,6 +356,17 @@ pub fn get(env: &mut Environment) -> Expression {
     Expression::Map(fs_module)
 }
 
+/// Does a path (that may not exist yet) lie in a directory?
+fn is_within(path: &Path, dir: &Path) -> bool {
+    let dir = match dunce::canonicalize(dir) {
+        Ok(dir) => dir,
+        Err(_) => return false,
+    };
+    path.ancestors()
+        .find_map(|ancestor| dunce::canonicalize(ancestor).ok())
+        .map_or(false, |ancestor| ancestor.starts_with(dir))
+}
+
 /// Copy one path to another path.
 fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
     if src == dst {
@@ -372,6 +383,14 @@ fn copy_path(src: &Path, dst: &Path) -> Result<(), Error> {
 
     // If the source is a directory, recursively copy the directory.
     if src.is_dir() {
+        // A directory copied into itself would be copied forever.
+        if is_within(dst, src) {
+            return Err(Error::CustomError(format!(
+                "cannot copy directory {} into itself",
+                src.display()
+            )));
+        }
+
         // Create the destination directory and all of its parents.
         if std::fs::create_dir_all(dst).is_err() {
             return Err(Error::CustomError(format!(
-- 
2.43.0


From e74a280ba123a05e3d376fa768933346548bd35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 26/52] fix: give each kind of error its documented code

---
 src/error.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index f716ab8..f320164 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -55,9 +55,9 @@ impl Error {
             Self::ForNonList(..) => Self::ERROR_CODE_FOR_NON_LIST,
             Self::RecursionDepth(..) => Self::ERROR_CODE_RECURSION_DEPTH,
             Self::CustomError(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::PermissionDenied(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::ProgramNotFound(..) => Self::ERROR_CODE_CUSTOM_ERROR,
-            Self::SyntaxError(..) => Self::ERROR_CODE_CUSTOM_ERROR,
+            Self::PermissionDenied(..) => Self::ERROR_CODE_PERMISSION_DENIED,
+            Self::ProgramNotFound(..) => Self::ERROR_CODE_PROGRAM_NOT_FOUND,
+            Self::SyntaxError(..) => Self::ERROR_CODE_SYNTAX_ERROR,
         }
     }
 }
-- 
2.43.0


From 62bb85b304389f0e4e76329a881f966219acb804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 27/52] fix: do not deadlock or fail when a piped process does
 not read its input first

---
 src/binary/init/operator_module.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index dcc1944..197f453 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -365,25 +365,19 @@ fn pipe_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expressi
 
                 // Try to execute the command.
                 if let Ok(mut child_handler) = cmd.spawn() {
+                    let mut writer = None;
                     // If we need to pipe in STDIN:
                     if !is_first {
                         // Attempt to grab the STDIN of the process from the handler.
-                        if let Some(stdin) = child_handler.stdin.as_mut() {
+                        if let Some(mut stdin) = child_handler.stdin.take() {
                             // Write the contents of the previous command's STDOUT
-                            // to the process's STDIN.
-                            if stdin.write_all(&buf).is_err() {
-                                return Err(Error::CustomError(format!(
-                                    "error when piping into process `{}`",
-                                    expr
-                                )));
-                            }
+                            // to the process's STDIN. The process might not read all of it
+                            // before we read the process's STDOUT, so do not wait for it here.
+                            let input = std::mem::take(&mut buf);
+                            writer = Some(std::thread::spawn(move || stdin.write_all(&input)));
 
                             // Zero out all of our information about the previous command.
-                            buf = vec![];
                             result_of_last_cmd = Expression::None;
-
-                            // Flush the STDIN buffer to force the process to read it.
-                            stdin.flush().unwrap();
                         } else {
                             return Err(Error::CustomError(format!(
                                 "error when piping into process `{}`",
@@ -429,6 +423,18 @@ fn pipe_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expressi
                             )));
                         }
                     }
+
+                    // A process does not have to read all of its STDIN.
+                    match writer.map(std::thread::JoinHandle::join) {
+                        None | Some(Ok(Ok(()))) => {}
+                        Some(Ok(Err(e))) if e.kind() == std::io::ErrorKind::BrokenPipe => {}
+                        _ => {
+                            return Err(Error::CustomError(format!(
+                                "error when piping into process `{}`",
+                                expr
+                            )))
+                        }
+                    }
                 } else {
                     // We couldn't spawn the command.
                     return Err(Error::CustomError(format!(
-- 
2.43.0


From 381552bcd96fa864f5d32debf0a3d7010be81901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:51 +0000
Subject: [PATCH 28/52] fix: only hint at commands that begin with the line

---
 src/bin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index c12582b..becb66b 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -343,8 +343,8 @@ impl Hinter for DuneHelper {
             return self.hinter.hint(line, pos, ctx);
         } else {
             for cmd in &cmds {
-                if cmd.contains(line) {
-                    return Some(cmd.trim_start_matches(line).to_string());
+                if let Some(rest) = cmd.strip_prefix(line) {
+                    return Some(rest.to_string());
                 }
             }
         }
-- 
2.43.0


From e3f70c0646ee3bbc13ab921e0a48eb74d76566ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:54 +0000
Subject: [PATCH 29/52] fix: do not evaluate the result of --exec a second time

---
 src/bin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin.rs b/src/bin.rs
index becb66b..a0e3099 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -647,7 +647,7 @@ fn run() -> Result<(), Error> {
             Ok(result) => {
                 Expression::Apply(
                     Box::new(Expression::Symbol("report".to_string())),
-                    vec![result],
+                    vec![Expression::Quote(Box::new(result))],
                 )
                 .eval(&mut env)?;
             }
-- 
2.43.0


From 6aab2919a8d2292ef6f61497f9e10f4723a03d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:57 +0000
Subject: [PATCH 30/52] fix: keep multi-line input together after Ctrl-C

---
 src/bin.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index a0e3099..92810c8 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -461,9 +461,11 @@ fn repl(
     let mut lines = vec![];
 
     let history_path = get_history_path();
+    // Hold on to these: a loop that another one takes turns with would lose parts of the
+    // multi-line input it is reading.
+    let mut env = atomic_env.lock().unwrap();
+    let mut rl = atomic_rl.lock().unwrap();
     loop {
-        let mut env = atomic_env.lock().unwrap();
-        let mut rl = atomic_rl.lock().unwrap();
         let cwd = env.get_cwd();
         // let prompt = format!("{}", Expression::Apply(Box::new(env.get("prompt").unwrap()), vec![env.get_cwd().into()]).eval(&mut env)?);
 
-- 
2.43.0


From 9237f8efd845d82135c0986de1b6af91632a02b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:00 +0000
Subject: [PATCH 31/52] fix: write the default prelude when the user agrees to
 it

---
 src/bin.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bin.rs b/src/bin.rs
index 92810c8..f915090 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -678,12 +678,15 @@ fn run() -> Result<(), Error> {
             if let Err(e) = run_text(INTRO_PRELUDE, &mut env) {
                 eprintln!("Error while running introduction prelude: {}", e);
             }
-        } else if let Err(e) = run_file(prelude_path, &mut env) {
+        } else if let Err(e) = run_file(prelude_path.clone(), &mut env) {
             let prompt = format!("Error while running custom prelude: {e}\nWould you like me to write the default prelude to this location? (y/n)\n>>> ");
             let mut rl = new_editor(&env);
             let response = readline(prompt, &mut rl);
 
             if response.to_lowercase().trim() == "y" {
+                if let Err(e) = std::fs::write(&prelude_path, DEFAULT_PRELUDE) {
+                    eprintln!("Error while writing prelude: {}", e);
+                }
                 if let Err(e) = run_text(INTRO_PRELUDE, &mut env) {
                     eprintln!("Error while running introduction prelude: {}", e);
                 }
-- 
2.43.0


From 76a9da573cb1ade8574cc3586fa248b9e4d3fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:27 +0000
Subject: [PATCH 32/52] fix: evaluate the operands of arithmetic operators once

---
 src/binary/init/operator_module.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index 197f453..6bd6888 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -14,14 +14,14 @@ fn add_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expressio
                 Expression::builtin("+", add_builtin, "add two expressions"),
                 2,
             )),
-            vec![result],
+            vec![Expression::Quote(Box::new(result))],
         )
         .eval(env);
     }
 
     for arg in &args[1..] {
         let old_result = result.clone();
-        result = result.eval(env)? + arg.clone().eval(env)?;
+        result = result + arg.clone().eval(env)?;
 
         if let Expression::None = result {
             return Err(Error::CustomError(format!(
@@ -53,7 +53,7 @@ pub fn get(env: &mut Environment) -> Expression {
             if args.len() > 1 {
                 for arg in &args[1..] {
                     let old_result = result.clone();
-                    result = result.eval(env)? - arg.clone().eval(env)?;
+                    result = result - arg.clone().eval(env)?;
                     if let Expression::None = result {
                         return Err(Error::CustomError(format!(
                             "cannot subtract {:?} and {:?}",
@@ -86,7 +86,7 @@ pub fn get(env: &mut Environment) -> Expression {
                     let mut result = args[0].clone().eval(env)?;
                     for arg in &args[1..] {
                         let old_result = result.clone();
-                        result = result.eval(env)? * arg.clone().eval(env)?;
+                        result = result * arg.clone().eval(env)?;
 
                         if let Expression::None = result {
                             return Err(Error::CustomError(format!(
@@ -113,7 +113,7 @@ pub fn get(env: &mut Environment) -> Expression {
                     let mut result = args[0].clone().eval(env)?;
                     for arg in &args[1..] {
                         let old_result = result.clone();
-                        result = result.eval(env)? / arg.clone().eval(env)?;
+                        result = result / arg.clone().eval(env)?;
 
                         if let Expression::None = result {
                             return Err(Error::CustomError(format!(
@@ -140,7 +140,7 @@ pub fn get(env: &mut Environment) -> Expression {
                     let mut result = args[0].clone().eval(env)?;
                     for arg in &args[1..] {
                         let old_result = result.clone();
-                        result = result.eval(env)? % arg.clone().eval(env)?;
+                        result = result % arg.clone().eval(env)?;
 
                         if let Expression::None = result {
                             return Err(Error::CustomError(format!(
-- 
2.43.0


From ba35b68d1079258d93a75ff8f756c868982b0a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:32 +0000
Subject: [PATCH 33/52] fix: curry functions regardless of variables named like
 their parameters

---
 src/binary/init/fn_module.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/binary/init/fn_module.rs b/src/binary/init/fn_module.rs
index bc940f6..ed5db52 100644
--- a/src/binary/init/fn_module.rs
+++ b/src/binary/init/fn_module.rs
@@ -17,10 +17,15 @@ pub(super) fn curry_env(
             format!("arg{}", i),
             Box::new(result),
             Environment::default(),
-        )
-        .eval(env)?;
+        );
+    }
+    // Only the outermost function captures from the environment: the others would capture
+    // variables that happen to have the names of its parameters.
+    if args == 0 {
+        Ok(result)
+    } else {
+        result.eval(env)
     }
-    Ok(result)
 }
 
 pub(super) fn reverse_curry_env(
-- 
2.43.0


From 2f997ffe75295e1bcbd5cb9e5deee10f4fdcd8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:44 +0000
Subject: [PATCH 34/52] fix: compute the factorial of a float

---
 src/binary/init/math_module.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/math_module.rs b/src/binary/init/math_module.rs
index c2330f5..7e4842c 100644
--- a/src/binary/init/math_module.rs
+++ b/src/binary/init/math_module.rs
@@ -162,8 +162,10 @@ pub fn get(env: &mut Environment) -> Expression {
                 Expression::Float(f) => {
                     if f < 0.0 {
                         Err(Error::CustomError("cannot take the factorial of a negative number".to_string()))
+                    } else if f < 1.0 {
+                        Ok(1.0.into())
                     } else {
-                        Ok(f64::round(f64::exp(f64::ln(f) * f64::ln(f)) * f64::sqrt(2.0 * std::f64::consts::PI * f) * (1.0 + 1.0 / (12.0 * f) + 1.0 / (288.0 * f * f) - 139.0 / (51840.0 * f * f * f) - 571.0 / (2488320.0 * f * f * f * f))).into())
+                        Ok(f64::round(f64::exp(f * (f64::ln(f) - 1.0)) * f64::sqrt(2.0 * std::f64::consts::PI * f) * (1.0 + 1.0 / (12.0 * f) + 1.0 / (288.0 * f * f) - 139.0 / (51840.0 * f * f * f) - 571.0 / (2488320.0 * f * f * f * f))).into())
                     }
                 },
                 e => Err(Error::CustomError(format!("invalid fact argument {:?}", e)))
-- 
2.43.0


From 92514abdb33b0faa505dfb77cc0a1a8ae533b22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:31 +0000
Subject: [PATCH 35/52] fix: run a function in the directory its argument moved
 to

---
 src/expr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index 7e58355..da236be 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -625,15 +625,17 @@ impl Expression {
 
                     Self::Lambda(param, body, old_env) if args.len() == 1 => {
                         let mut new_env = old_env;
+                        let x = args[0].clone().eval_mut(env, depth + 1)?;
                         new_env.set_cwd(env.get_cwd());
-                        new_env.define(&param, args[0].clone().eval_mut(env, depth + 1)?);
+                        new_env.define(&param, x);
                         return body.eval_mut(&mut new_env, depth + 1);
                     }
 
                     Self::Lambda(param, body, old_env) if args.len() > 1 => {
                         let mut new_env = old_env.clone();
+                        let x = args[0].clone().eval_mut(env, depth + 1)?;
                         new_env.set_cwd(env.get_cwd());
-                        new_env.define(&param, args[0].clone().eval_mut(env, depth + 1)?);
+                        new_env.define(&param, x);
                         self = Self::Apply(
                             Box::new(body.eval_mut(&mut new_env, depth + 1)?),
                             args[1..].to_vec(),
-- 
2.43.0


From 24be186c241da0c257d232f27085552b2d435556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:28 +0000
Subject: [PATCH 36/52] fix: give programs in a pipeline the same arguments as
 alone

---
 src/binary/init/operator_module.rs | 34 +++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index 6bd6888..06422ff 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -472,6 +472,22 @@ fn pipe_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expressi
     Ok(result_of_last_cmd)
 }
 
+/// Evaluate the arguments of a program in a pipeline to what the program is given,
+/// like a program outside of a pipeline.
+fn command_args(args: &[Expression], env: &mut Environment) -> Result<Vec<String>, Error> {
+    let mut result = vec![];
+    for arg in args {
+        for flattened_arg in Expression::flatten(vec![arg.eval(env)?]) {
+            match flattened_arg {
+                Expression::Bytes(b) => result.push(String::from_utf8_lossy(&b).to_string()),
+                Expression::None => continue,
+                _ => result.push(flattened_arg.to_string()),
+            }
+        }
+    }
+    Ok(result)
+}
+
 /// Interpret a Dune expression as a program to be executed.
 /// If the expression can be executed as a program, then it will
 /// be stored in the `cmd` parameter, and the function will return
@@ -510,24 +526,18 @@ fn expr_to_command<'a>(
                 };
                 *cmd = Command::new(cmd_name);
                 Some(
-                    cmd.current_dir(env.get_cwd()).envs(bindings).args(
-                        args.iter()
-                            .filter(|&x| x != &Expression::None)
-                            .map(|x| Ok(format!("{}", x.eval(env)?)))
-                            .collect::<Result<Vec<String>, Error>>()?,
-                    ),
+                    cmd.envs(bindings)
+                        .args(command_args(args, env)?)
+                        .current_dir(env.get_cwd()),
                 )
             }
             Expression::Quote(ref program) => match *program.clone() {
                 Expression::String(cmd_name) | Expression::Symbol(cmd_name) => {
                     *cmd = Command::new(cmd_name);
                     Some(
-                        cmd.current_dir(env.get_cwd()).envs(bindings).args(
-                            args.iter()
-                                .filter(|&x| x != &Expression::None)
-                                .map(|x| Ok(format!("{}", x.eval(env)?)))
-                                .collect::<Result<Vec<String>, Error>>()?,
-                        ),
+                        cmd.envs(bindings)
+                            .args(command_args(args, env)?)
+                            .current_dir(env.get_cwd()),
                     )
                 }
                 _ => None,
-- 
2.43.0


From e5ea079cb74ff78c0e721bebecd4a0fe20cf1b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:32 +0000
Subject: [PATCH 37/52] fix: keep letters that become several in title case

---
 src/binary/init/string_module.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/binary/init/string_module.rs b/src/binary/init/string_module.rs
index 1357a5d..82f33cb 100644
--- a/src/binary/init/string_module.rs
+++ b/src/binary/init/string_module.rs
@@ -197,10 +197,10 @@ pub fn get() -> Expression {
                     let mut capitalize = true;
                     for c in x.chars() {
                         if capitalize {
-                            title.push(c.to_uppercase().next().unwrap());
+                            title.extend(c.to_uppercase());
                             capitalize = false;
                         } else {
-                            title.push(c.to_lowercase().next().unwrap());
+                            title.extend(c.to_lowercase());
                         }
                         if c.is_whitespace() {
                             capitalize = true;
@@ -249,10 +249,10 @@ pub fn get() -> Expression {
                     let mut capitalize = true;
                     for c in x.chars() {
                         if capitalize {
-                            title.push(c.to_uppercase().next().unwrap());
+                            title.extend(c.to_uppercase());
                             capitalize = false;
                         } else {
-                            title.push(c.to_lowercase().next().unwrap());
+                            title.extend(c.to_lowercase());
                         }
                         if c.is_whitespace() {
                             capitalize = true;
-- 
2.43.0


From d1455224a1e16be689e25a7901ccad4f38f64174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:45 +0000
Subject: [PATCH 38/52] fix: stripping styles from text lost the text of
 hyperlinks

---
 src/bin.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index f915090..287e3ae 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -72,17 +72,26 @@ fn strip_ansi_escapes(text: impl ToString) -> String {
     let text = text.to_string();
 
     let mut result = String::new();
-    let mut is_in_escape = false;
-    for ch in text.chars() {
-        // If this is the start of a new escape
-        if ch == '\x1b' {
-            is_in_escape = true;
-        // If this is the end of an escape
-        } else if is_in_escape && ch == 'm' {
-            is_in_escape = false;
-        // If this is any other sort of text
-        } else if !is_in_escape {
+    let mut chars = text.chars().peekable();
+    while let Some(ch) = chars.next() {
+        if ch != '\x1b' {
             result.push(ch);
+            continue;
+        }
+        match chars.next() {
+            // A control sequence, such as a color, ends with a letter.
+            Some('[') => {
+                chars.find(|ch| ('\x40'..='\x7e').contains(ch));
+            }
+            // A command, such as a hyperlink, ends with a bell or with another escape.
+            Some(']') => {
+                while let Some(ch) = chars.next_if(|ch| *ch != '\x1b') {
+                    if ch == '\x07' {
+                        break;
+                    }
+                }
+            }
+            _ => {}
         }
     }
 
-- 
2.43.0


From ef51476229d04b52572ea06279f98bb5719661c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:20 +0000
Subject: [PATCH 39/52] fix: complete what is before the cursor where the
 directory cannot be entered

---
 src/bin.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/bin.rs b/src/bin.rs
index 287e3ae..de8cb82 100644
--- a/src/bin.rs
+++ b/src/bin.rs
@@ -158,10 +158,12 @@ impl Completer for DuneHelper {
         if std::env::set_current_dir(&path).is_ok() {
             self.completer.complete(line, pos, ctx)
         } else {
+            // What follows the cursor stays as it is.
+            let line = &line[..pos];
             let mut segment = String::new();
 
             if !line.is_empty() {
-                for (i, ch) in line.chars().enumerate() {
+                for ch in line.chars() {
                     if ch.is_whitespace()
                         || ch == ';'
                         || ch == '\''
@@ -175,10 +177,6 @@ impl Completer for DuneHelper {
                     } else {
                         segment.push(ch);
                     }
-
-                    if i == pos {
-                        break;
-                    }
                 }
 
                 if !segment.is_empty() {
-- 
2.43.0


From 8275edfdacea23573a8133e76658ad2c313ec7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:14 +0000
Subject: [PATCH 40/52] fix: print what was printed before a program starts
 before its output

---
 src/binary/init/operator_module.rs | 3 +++
 src/expr.rs                        | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/operator_module.rs b/src/binary/init/operator_module.rs
index 06422ff..ecda45b 100644
--- a/src/binary/init/operator_module.rs
+++ b/src/binary/init/operator_module.rs
@@ -363,6 +363,9 @@ fn pipe_builtin(args: Vec<Expression>, env: &mut Environment) -> Result<Expressi
                     cmd = cmd.stdout(Stdio::piped());
                 }
 
+                // What was printed before comes before what the command prints.
+                let _ = std::io::stdout().flush();
+
                 // Try to execute the command.
                 if let Ok(mut child_handler) = cmd.spawn() {
                     let mut writer = None;
diff --git a/src/expr.rs b/src/expr.rs
index da236be..a1f5169 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -4,7 +4,7 @@ use std::{
     cmp::Ordering,
     collections::BTreeMap,
     fmt,
-    io::ErrorKind,
+    io::{ErrorKind, Write},
     ops::{Add, Div, Index, Mul, Neg, Rem, Sub},
     process::Command,
 };
@@ -599,6 +599,9 @@ impl Expression {
                             }
                         }
 
+                        // What was printed before comes before what the program prints.
+                        let _ = std::io::stdout().flush();
+
                         match Command::new(&name)
                             .current_dir(env.get_cwd())
                             .args(
-- 
2.43.0


From 5d35addaca48c3c980e9ffbff145f79c9149c84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:16 +0000
Subject: [PATCH 41/52] fix: numbers in JSON were not the closest ones, and
 could become NaN

---
 src/binary/init/parse_module.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/parse_module.rs b/src/binary/init/parse_module.rs
index 1251414..6fe8009 100644
--- a/src/binary/init/parse_module.rs
+++ b/src/binary/init/parse_module.rs
@@ -51,7 +51,16 @@ fn json_to_expr(val: JsonValue) -> Expression {
     match val {
         JsonValue::Null => Expression::None,
         JsonValue::Boolean(b) => Expression::Boolean(b),
-        JsonValue::Number(n) => Expression::Float(n.into()),
+        JsonValue::Number(n) => {
+            // The number that is the closest to these digits.
+            let (positive, mantissa, exponent) = n.as_parts();
+            let sign = if positive { "" } else { "-" };
+            Expression::Float(
+                format!("{}{}e{}", sign, mantissa, exponent)
+                    .parse()
+                    .unwrap_or(f64::NAN),
+            )
+        }
         JsonValue::Short(s) => Expression::String(s.to_string()),
         JsonValue::String(s) => Expression::String(s),
         JsonValue::Array(a) => {
-- 
2.43.0


From 6760caa4739d0827c71839c82648082ea2ff4bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:08 +0000
Subject: [PATCH 42/52] fix: draw a list in a frame only where the frame fits

---
 src/expr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index a1f5169..894625c 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -297,12 +297,12 @@ impl fmt::Display for Expression {
                         Expression::String(s) => format!("{:?}", s),
                         _ => format!("{}", expr),
                     };
-                    // Get the length of the first line
+                    // Get the length of the first line, with its padding and a border
                     if formatted.contains('\n') {
                         let first_line_len = formatted.lines().next().unwrap().len();
-                        total_len += first_line_len + 1;
+                        total_len += first_line_len + 3;
                     } else {
-                        total_len += formatted.len() + 1;
+                        total_len += formatted.len() + 3;
                     }
                     row.push(formatted);
                 }
-- 
2.43.0


From 87b9975b1d6630ca3d1ece6654a7d70695e85017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:30 +0000
Subject: [PATCH 43/52] fix: sleeping for a negative time never ended

---
 src/binary/init/time_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/time_module.rs b/src/binary/init/time_module.rs
index 6f23fc2..661fd48 100644
--- a/src/binary/init/time_module.rs
+++ b/src/binary/init/time_module.rs
@@ -19,7 +19,7 @@ fn sleep(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
 
     match args[0].eval(env)? {
         Expression::Float(n) => thread::sleep(Duration::from_millis(n as u64)),
-        Expression::Integer(n) => thread::sleep(Duration::from_millis(n as u64)),
+        Expression::Integer(n) => thread::sleep(Duration::from_millis(n.max(0) as u64)),
         otherwise => {
             return Err(Error::CustomError(format!(
                 "expected integer or float, but got {}",
-- 
2.43.0


From 00749e3026cd49d1f4f8a8c0fee49c5b6f4f411e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:58 +0000
Subject: [PATCH 44/52] fix: directories whose names are not text crashed the
 shell

---
 src/binary/init/fs_module.rs    | 23 ++++++++++++-----------
 src/binary/init/os_module.rs    |  6 +++++-
 src/binary/init/shell_module.rs |  4 ++--
 src/binary/init/sys_module.rs   |  4 ++--
 4 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 0092ba2..38e2dc3 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -44,34 +44,35 @@ fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expressi
     dir_tree
 }
 
+/// The text of a path, unless it is not valid UTF-8.
+pub(super) fn path_to_string(path: PathBuf) -> Option<String> {
+    path.into_os_string().into_string().ok()
+}
+
 pub fn get(env: &mut Environment) -> Expression {
     let mut dir_tree = b_tree_map! {};
 
-    if let Some(home_dir) = dirs::home_dir() {
-        let home_dir = home_dir.into_os_string().into_string().unwrap();
+    if let Some(home_dir) = dirs::home_dir().and_then(path_to_string) {
         env.set_cwd(&home_dir);
         dir_tree.insert("home".to_string(), Expression::from(home_dir.clone()));
         env.define("HOME", Expression::String(home_dir));
     }
 
     if let Ok(cwd) = current_dir() {
-        env.set_cwd(&cwd.into_os_string().into_string().unwrap());
+        env.set_cwd(cwd.to_string_lossy());
     }
 
-    if let Some(desk_dir) = dirs::desktop_dir() {
-        let desk_dir = desk_dir.into_os_string().into_string().unwrap();
+    if let Some(desk_dir) = dirs::desktop_dir().and_then(path_to_string) {
         dir_tree.insert("desk".to_string(), desk_dir.clone().into());
         env.define("DESK", Expression::String(desk_dir));
     }
 
-    if let Some(docs_dir) = dirs::document_dir() {
-        let docs_dir = docs_dir.into_os_string().into_string().unwrap();
+    if let Some(docs_dir) = dirs::document_dir().and_then(path_to_string) {
         dir_tree.insert("docs".to_string(), docs_dir.clone().into());
         env.define("DOCS", Expression::String(docs_dir));
     }
 
-    if let Some(down_dir) = dirs::download_dir() {
-        let down_dir = down_dir.into_os_string().into_string().unwrap();
+    if let Some(down_dir) = dirs::download_dir().and_then(path_to_string) {
         dir_tree.insert("down".to_string(), down_dir.clone().into());
         env.define("DOWN", Expression::String(down_dir));
     }
@@ -168,8 +169,8 @@ pub fn get(env: &mut Environment) -> Expression {
             let cwd = PathBuf::from(env.get_cwd());
             let path = cwd.join(args[0].eval(env)?.to_string());
 
-            if let Ok(canon_path) = dunce::canonicalize(&path) {
-                Ok(canon_path.into_os_string().into_string().unwrap().into())
+            if let Some(canon_path) = dunce::canonicalize(&path).ok().and_then(path_to_string) {
+                Ok(canon_path.into())
             } else {
                 Err(Error::CustomError(format!("could not canonicalize path {}", path.display())))
             }
diff --git a/src/binary/init/os_module.rs b/src/binary/init/os_module.rs
index 01ae0c7..16635a4 100644
--- a/src/binary/init/os_module.rs
+++ b/src/binary/init/os_module.rs
@@ -53,6 +53,10 @@ fn cd(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, dune::
                 })
             })?;
 
+            let new_cwd_str = super::fs_module::path_to_string(new_cwd.clone()).ok_or_else(|| {
+                dune::Error::CustomError(format!("the name of the directory {:?} is not text", new_cwd))
+            })?;
+
             std::env::set_current_dir(&new_cwd).map_err(|e| {
                 dune::Error::CustomError(match format!("{:?}", e.kind()).as_str() {
                     "PermissionDenied" => {
@@ -68,7 +72,7 @@ fn cd(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, dune::
                 })
             })?;
 
-            env.set_cwd(new_cwd.into_os_string().into_string().unwrap());
+            env.set_cwd(new_cwd_str);
             Ok(Expression::None)
         }
 
diff --git a/src/binary/init/shell_module.rs b/src/binary/init/shell_module.rs
index 3ebe7b8..e6d2222 100644
--- a/src/binary/init/shell_module.rs
+++ b/src/binary/init/shell_module.rs
@@ -12,7 +12,7 @@ pub fn get() -> Expression {
         String::from("version") => Expression::String(VERSION.to_string()),
         String::from("path") => {
             if let Ok(path) = current_exe() {
-                Expression::String(path.to_str().unwrap().to_string())
+                Expression::String(path.to_string_lossy().to_string())
             } else {
                 Expression::None
             }
@@ -30,7 +30,7 @@ pub fn get() -> Expression {
             let prelude_path = if let Some(home_dir) = dirs::home_dir() {
                 let prelude_path = home_dir.join(".dune-prelude");
                 if prelude_path.exists() {
-                    Expression::String(prelude_path.to_str().unwrap().to_string())
+                    Expression::String(prelude_path.to_string_lossy().to_string())
                 } else {
                     Expression::None
                 }
diff --git a/src/binary/init/sys_module.rs b/src/binary/init/sys_module.rs
index 111fc17..53cbd2f 100644
--- a/src/binary/init/sys_module.rs
+++ b/src/binary/init/sys_module.rs
@@ -55,8 +55,8 @@ pub fn get() -> Expression {
             let cwd = PathBuf::from(env.get_cwd());
             let path = cwd.join(args[0].eval(env)?.to_string());
 
-            if let Ok(canon_path) = dunce::canonicalize(&path) {
-                env.set_cwd(canon_path.to_str().unwrap().to_string());
+            if let Some(canon_path) = dunce::canonicalize(&path).ok().and_then(super::fs_module::path_to_string) {
+                env.set_cwd(canon_path);
                 Ok(Expression::None)
             } else {
                 Err(Error::CustomError(format!("could not canonicalize path {}", path.display())))
-- 
2.43.0


From 04dcd09923672634b067ee8d2c24b1496c4143d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:31 +0000
Subject: [PATCH 45/52] fix: measure the text of widgets in columns

---
 src/binary/init/widget_module.rs | 51 ++++++++------------------------
 1 file changed, 13 insertions(+), 38 deletions(-)

diff --git a/src/binary/init/widget_module.rs b/src/binary/init/widget_module.rs
index 520eb91..20c76e2 100644
--- a/src/binary/init/widget_module.rs
+++ b/src/binary/init/widget_module.rs
@@ -1,5 +1,6 @@
 use common_macros::b_tree_map;
 use dune::{Environment, Error, Expression, Int};
+use textwrap::core::display_width;
 
 /// The largest width or height of a widget: no terminal is larger.
 const MAX_SIZE: Int = u16::MAX as Int;
@@ -16,7 +17,7 @@ pub fn get() -> Expression {
 fn create(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
     super::check_exact_args_len("create", &args, 4)?;
     let title = args[0].eval(env)?.to_string();
-    let title_len = title.chars().count();
+    let title_len = display_width(&title);
 
     let text_width = match args[2].eval(env)? {
         Expression::Integer(n) if n > 4 && n <= MAX_SIZE => n,
@@ -63,45 +64,19 @@ fn create(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
             left_side = left_border_half,
             right_side = right_border_half
         );
-        let width = result.chars().count() - 1;
-
-        let mut lines = 1;
-        let mut i = 0;
-        for ch in text.replace('\r', "").chars() {
-            if i == 0 {
-                result.push(' ');
-                i += 1;
-            }
-
-            if ch == '\n' {
-                lines += 1;
-                result += &" ".repeat(width - i);
-                i = width;
-            } else {
-                result.push(ch);
-            }
-
-            if lines == widget_height - 1 {
-                break;
-            }
-
-            if i >= width - 1 {
-                result += "\n";
-                i = 0;
-            } else {
-                i += 1;
-            }
-        }
-
-        result += &" ".repeat(width - i);
 
-        for _ in result.lines().count()..widget_height - 1 {
-            result += "\n";
-            result += &" ".repeat(width);
+        // Lay the text out by the columns its lines take on a terminal, where
+        // escape sequences take none, and some characters take two.
+        let text = text.replace('\r', "");
+        let mut lines = text.split('\n');
+        for _ in 0..widget_height - 2 {
+            let line = lines.next().unwrap_or("");
+            let padding = (text_width + 1).saturating_sub(display_width(line));
+            result += &format!(" {}{}\n", line, " ".repeat(padding));
         }
 
         result += &format!(
-            "\n└{left_side}{}{right_side}┘",
+            "└{left_side}{}{right_side}┘",
             "─".repeat(title_len),
             left_side = left_border_half,
             right_side = right_border_half
@@ -164,8 +139,8 @@ fn joiny(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Err
             Expression::String(s) => {
                 string_args.push(s.trim().to_string());
 
-                let width = string_args[0].lines().next().unwrap_or("").chars().count();
-                let this_width = string_args[i].lines().next().unwrap_or("").chars().count();
+                let width = display_width(string_args[0].lines().next().unwrap_or(""));
+                let this_width = display_width(string_args[i].lines().next().unwrap_or(""));
                 if width != this_width {
                     return Err(Error::CustomError(format!(
                         "Widths of vertically added widgets must be equal, \
-- 
2.43.0


From da4af329595e40afdf13520e47707263e9c268a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:31 +0000
Subject: [PATCH 46/52] fix: let the shrew say nothing

---
 src/.default-dune-prelude | 4 ++--
 src/.intro-dune-prelude   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/.default-dune-prelude b/src/.default-dune-prelude
index 18bf3d2..dd59c29 100644
--- a/src/.default-dune-prelude
+++ b/src/.default-dune-prelude
@@ -472,7 +472,7 @@ let shrewsay = text -> {
         }
     }
     let cols = math@max cols (len title);
-    let rows = len text-lines;
+    let rows = math@max 1 (len text-lines);
     let spacing = 25;
 
     for line in (lines (widget@create title text cols + 2 rows + 2)) {
@@ -500,7 +500,7 @@ let turnedshrewsay = text -> {
         }
     }
     let cols = math@max cols (len title);
-    let rows = len text-lines;
+    let rows = math@max 1 (len text-lines);
     let spacing = 20;
 
     for line in (lines (widget@create title text cols + 2 rows + 2)) {
diff --git a/src/.intro-dune-prelude b/src/.intro-dune-prelude
index b244e0e..77e69c4 100644
--- a/src/.intro-dune-prelude
+++ b/src/.intro-dune-prelude
@@ -127,7 +127,7 @@ let shrewsay = text -> {
         }
     }
     let cols = math@max cols (len title);
-    let rows = len text-lines;
+    let rows = math@max 1 (len text-lines);
     let spacing = 25;
 
     for line in (lines (widget@create title text cols + 2 rows + 2)) {
@@ -155,7 +155,7 @@ let turnedshrewsay = text -> {
         }
     }
     let cols = math@max cols (len title);
-    let rows = len text-lines;
+    let rows = math@max 1 (len text-lines);
     let spacing = 20;
 
     for line in (lines (widget@create title text cols + 2 rows + 2)) {
-- 
2.43.0


From 5c418e9f7eeed4780fda211ab51952b5776baae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:42 +0000
Subject: [PATCH 47/52] fix: trees of directories with links back up never
 ended

---
 src/binary/init/fs_module.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 38e2dc3..0c138d9 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -8,7 +8,11 @@ use super::Int;
 use common_macros::b_tree_map;
 use dune::{Environment, Error, Expression};
 
-fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expression> {
+fn get_dir_tree(
+    cwd: &Path,
+    max_depth: Option<Int>,
+    above: &mut Vec<PathBuf>,
+) -> BTreeMap<String, Expression> {
     let mut dir_tree = b_tree_map! {};
 
     dir_tree.insert(".".to_string(), Expression::from(cwd.to_string_lossy().to_string()));
@@ -21,6 +25,15 @@ fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expressi
         return dir_tree;
     }
 
+    // A link that leads back to a directory above is not followed any further.
+    let Ok(real) = cwd.canonicalize() else {
+        return dir_tree;
+    };
+    if above.iter().any(|dir| dir.starts_with(&real)) {
+        return dir_tree;
+    }
+    above.push(real);
+
     if let Ok(entries) = std::fs::read_dir(cwd) {
         for entry in entries.flatten() {
             let path = entry.path();
@@ -29,7 +42,11 @@ fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expressi
                 if path.is_dir() {
                     dir_tree.insert(
                         file_name,
-                        Expression::from(get_dir_tree(&path, max_depth.map(|d| d - 1))),
+                        Expression::from(get_dir_tree(
+                            &path,
+                            max_depth.map(|d| d - 1),
+                            above,
+                        )),
                     );
                 } else {
                     dir_tree.insert(
@@ -40,6 +57,7 @@ fn get_dir_tree(cwd: &Path, max_depth: Option<Int>) -> BTreeMap<String, Expressi
             }
         }
     }
+    above.pop();
 
     dir_tree
 }
@@ -109,7 +127,7 @@ pub fn get(env: &mut Environment) -> Expression {
             }
 
             // Get the directory tree
-            let dir_tree = get_dir_tree(&cwd, max_depth);
+            let dir_tree = get_dir_tree(&cwd, max_depth, &mut vec![]);
             // Return the directory tree
             Ok(dir_tree.into())
         }, "get the directory tree as a nested map, with a max depth and a path"),
-- 
2.43.0


From 2c999a55623d06906fe3c0effa8348f074b3ede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:11 +0000
Subject: [PATCH 48/52] fix: chess without a color panicked

---
 src/binary/init/chess_module.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/binary/init/chess_module.rs b/src/binary/init/chess_module.rs
index ceacc8f..7b15476 100644
--- a/src/binary/init/chess_module.rs
+++ b/src/binary/init/chess_module.rs
@@ -1,6 +1,7 @@
 use dune::{Environment, Error, Expression};
 
 pub fn chess_fn(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Error> {
+    super::check_exact_args_len("chess", &args, 1)?;
     let mut won = false;
 
     let player_color = match &args[0] {
-- 
2.43.0


From 8f2599dda4f77cf197984f8e8aa15f321e219177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:54 +0000
Subject: [PATCH 49/52] fix: reading from what is no keyboard, or not text, is
 an error and not a panic

---
 src/binary/init/console_module.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/binary/init/console_module.rs b/src/binary/init/console_module.rs
index 3452913..4ff3119 100644
--- a/src/binary/init/console_module.rs
+++ b/src/binary/init/console_module.rs
@@ -118,15 +118,18 @@ pub fn get() -> Expression {
         String::from("keyboard") => Expression::Map(b_tree_map! {
             String::from("read-line") => Expression::builtin("read-line", |_, _| {
                 let mut buffer = String::new();
-                std::io::stdin().read_line(&mut buffer).unwrap();
+                std::io::stdin().read_line(&mut buffer)
+                    .map_err(|e| Error::CustomError(format!("could not read a line: {}", e)))?;
                 Ok(Expression::String(buffer))
             }, "read a line from the keyboard"),
             String::from("read-password") => Expression::builtin("read-password", |_, _| {
-                let password = rpassword::read_password().unwrap();
+                let password = rpassword::read_password()
+                    .map_err(|e| Error::CustomError(format!("could not read a password: {}", e)))?;
                 Ok(Expression::String(password))
             }, "read a password from the keyboard"),
             String::from("read-key") => Expression::builtin("read-key", |_, _| {
-                let key = crossterm::event::read().unwrap();
+                let key = crossterm::event::read()
+                    .map_err(|e| Error::CustomError(format!("could not read a key: {}", e)))?;
                 // Get the key as a string.
                 let key = match key {
                     crossterm::event::Event::Key(key) => key,
-- 
2.43.0


From 809f65a0325c38662e4482e27643c0f3df1372c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:07 +0000
Subject: [PATCH 50/52] fix: a function key that was read was none of
 console@keyboard@keys

---
 src/binary/init/console_module.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/binary/init/console_module.rs b/src/binary/init/console_module.rs
index 4ff3119..ac7db9a 100644
--- a/src/binary/init/console_module.rs
+++ b/src/binary/init/console_module.rs
@@ -153,7 +153,14 @@ pub fn get() -> Expression {
                     Tab => Expression::String("\t".to_string()),
                     Esc => Expression::String("\x1b".to_string()),
                     Insert => Expression::String("\x1b[2~".to_string()),
-                    F(i) => Expression::String(format!("\x1b[{}~", i)),
+                    // The numbers of the function keys begin at 11 and leave some out.
+                    F(i) => Expression::String(format!("\x1b[{}~", match i {
+                        0..=5 => i + 10,
+                        6..=10 => i + 11,
+                        11..=14 => i + 12,
+                        15..=16 => i + 13,
+                        _ => i.saturating_add(14),
+                    })),
                     Null => Expression::String("\x00".to_string()),
                     BackTab => Expression::String("\x1b[Z".to_string()),
                     _ => Expression::None
-- 
2.43.0


From 60d751295ebbdb0f2bfe988b3f181b80dccc2c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:06 +0000
Subject: [PATCH 51/52] fix: wrapped text and widgets could be wider than they
 were told to be

---
 src/binary/init/fmt_module.rs    | 5 ++++-
 src/binary/init/widget_module.rs | 5 +++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/binary/init/fmt_module.rs b/src/binary/init/fmt_module.rs
index 060763f..a7e18c6 100644
--- a/src/binary/init/fmt_module.rs
+++ b/src/binary/init/fmt_module.rs
@@ -1,5 +1,6 @@
 use common_macros::b_tree_map;
 use dune::{Environment, Error, Expression};
+use textwrap::wrap_algorithms::FirstFit;
 
 pub fn get() -> Expression {
     (b_tree_map! {
@@ -149,7 +150,9 @@ fn wrap(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Erro
                     )))
                 }
             };
-            Ok(textwrap::fill(&text, columns).into())
+            // Only the first fit never makes a line longer than asked for.
+            let options = textwrap::Options::new(columns).wrap_algorithm(FirstFit);
+            Ok(textwrap::fill(&text, options).into())
         }
         otherwise => Err(Error::CustomError(format!(
             "expected number of columns in wrap, but got {}",
diff --git a/src/binary/init/widget_module.rs b/src/binary/init/widget_module.rs
index 20c76e2..58b4a08 100644
--- a/src/binary/init/widget_module.rs
+++ b/src/binary/init/widget_module.rs
@@ -1,6 +1,6 @@
 use common_macros::b_tree_map;
 use dune::{Environment, Error, Expression, Int};
-use textwrap::core::display_width;
+use textwrap::{core::display_width, wrap_algorithms::FirstFit};
 
 /// The largest width or height of a widget: no terminal is larger.
 const MAX_SIZE: Int = u16::MAX as Int;
@@ -30,9 +30,10 @@ fn create(args: Vec<Expression>, env: &mut Environment) -> Result<Expression, Er
     } as usize
         - 2;
     let format_width = text_width * 2 / 3;
+    // Only the first fit never makes a line longer than asked for.
     let text = textwrap::fill(
         &format!("{:format_width$}", args[1].eval(env)?.to_string()),
-        text_width,
+        textwrap::Options::new(text_width).wrap_algorithm(FirstFit),
     );
 
     let widget_height = match args[3].eval(env)? {
-- 
2.43.0


From 0d38b634051f1a061618571cbc8cb0865ebae254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:08 +0000
Subject: [PATCH 52/52] fix: list names that are not text below their
 directory, like the others

---
 src/binary/init/fs_module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/init/fs_module.rs b/src/binary/init/fs_module.rs
index 0c138d9..2ca5c78 100644
--- a/src/binary/init/fs_module.rs
+++ b/src/binary/init/fs_module.rs
@@ -518,7 +518,7 @@ fn list_directory(dir: &Path, short: &Path) -> Result<Expression, Error> {
                         // If we cannot directly convert the filename to a string,
                         // it's probably an invalid UTF-8 string.
                         // In this case, we remove the invalid bytes and try again.
-                        Err(file_name) => file_name.to_string_lossy().to_string(),
+                        Err(file_name) => short.join(file_name).to_string_lossy().to_string(),
                     });
                 } else {
                     // If an entry is invalid, throw an error.
-- 
2.43.0

