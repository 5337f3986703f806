From 9f1e66a615259f07361a315ecb968af7bb54ad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:17 +0000
Subject: [PATCH 01/62] fix: string and environment tests stop at the first
 matching key

The result of a matching key was overwritten by the keys after it, so that
string :is "a" ["a", "b"] was false.
---
 src/runtime/tests/test_string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/tests/test_string.rs b/src/runtime/tests/test_string.rs
index 3364acd..48777da 100644
--- a/src/runtime/tests/test_string.rs
+++ b/src/runtime/tests/test_string.rs
@@ -59,7 +59,7 @@ impl TestString {
                 let mut captured_values = Vec::new();
                 let sources = ctx.eval_values(&self.source);
 
-                for pattern in &self.key_list {
+                'outer: for pattern in &self.key_list {
                     let key = ctx.eval_value(pattern);
                     for source in &sources {
                         if !empty_is_null || !source.is_empty() {
@@ -89,7 +89,7 @@ impl TestString {
                             };
 
                             if result {
-                                break;
+                                break 'outer;
                             }
                         }
                     }
-- 
2.43.0


From 00071f27b039363b4c9bbd9ce23e5b8047316cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:34 +0000
Subject: [PATCH 02/62] fix: an escaped backslash in a quoted string ends the
 escape sequence

"a\\\\" was reported as unterminated and each further backslash was taken
as escaped by the one before it.
---
 src/compiler/lexer/tokenizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 5c8e591..524f879 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -460,6 +460,8 @@ impl Iterator for Tokenizer<'_> {
                     b'\\' => {
                         if last_ch == b'\\' {
                             self.push_byte(ch);
+                            // The escape sequence ends here
+                            self.last_ch = 0;
                         }
                     }
                     b'0'..=b'9' => {
-- 
2.43.0


From c738815de724e0a6eaad0baeb1491d4424aad5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:53 +0000
Subject: [PATCH 03/62] fix: global variables are read without regard to case

Declaring and setting a global variable lowercased its name, reading it did
not, so that "${FOO}" was empty after global "foo".
---
 src/compiler/lexer/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index d72e373..1ad656e 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -279,7 +279,7 @@ impl CompilerState<'_> {
     ) -> Result<Option<VariableType>, ErrorType> {
         if !maybe_namespace {
             if self.is_var_global(var_name) {
-                Ok(Some(VariableType::Global(var_name.to_string())))
+                Ok(Some(VariableType::Global(var_name.to_ascii_lowercase())))
             } else if let Some(var_id) = self.get_local_var(var_name) {
                 Ok(Some(VariableType::Local(var_id)))
             } else {
@@ -328,7 +328,7 @@ impl CompilerState<'_> {
                 },
                 None => {
                     if self.is_var_global(var_name) {
-                        VariableType::Global(var_name.to_string())
+                        VariableType::Global(var_name.to_ascii_lowercase())
                     } else if let Some(var_id) = self.get_local_var(var_name) {
                         VariableType::Local(var_id)
                     } else {
-- 
2.43.0


From b9f5e327472abe016f3bb79aff2c7feb31dc127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:03 +0000
Subject: [PATCH 04/62] fix: continue in nested loops

In a while directly inside another while no jump was emitted, so the rest of
the body was executed; a continue leaving a foreverypart did not pop its part
iterator.
---
 src/compiler/grammar/instruction.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 0baff56..f6dcf5b 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -582,22 +582,34 @@ impl Compiler {
                                 token_info.line_num,
                                 token_info.line_pos,
                             )?;
-                            let mut found_while = 0;
+                            let mut found_while = false;
+                            let mut num_pops = 0;
                             for block in [&state.block]
                                 .into_iter()
                                 .chain(state.block_stack.iter().rev())
                             {
-                                if let Word::While = &block.btype {
-                                    found_while += 1;
-                                } else if found_while == 1 {
+                                if found_while {
+                                    if num_pops > 0 {
+                                        state
+                                            .instructions
+                                            .push(Instruction::ForEveryPartPop(num_pops));
+                                    }
                                     state
                                         .instructions
                                         .push(Instruction::Jmp(block.last_block_start));
-                                    found_while += 1;
                                     break;
                                 }
+                                match &block.btype {
+                                    Word::While => {
+                                        found_while = true;
+                                    }
+                                    Word::ForEveryPart => {
+                                        num_pops += 1;
+                                    }
+                                    _ => (),
+                                }
                             }
-                            if found_while != 2 {
+                            if !found_while {
                                 return Err(token_info.custom(ErrorType::ContinueOutsideLoop));
                             }
                         }
-- 
2.43.0


From f9b5137ef08cf64420638d1e213e853d094c905e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 05/62] fix: count every enclosing loop in the foreverypart
 nesting limit

The block being parsed was left out of the count, so that the limit was off by
one for loops nested directly in each other, but not for loops nested through
an if block.
---
 src/compiler/grammar/instruction.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index f6dcf5b..9885435 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -234,9 +234,10 @@ impl Compiler {
                             if state
                                 .block_stack
                                 .iter()
+                                .chain([&state.block])
                                 .filter(|b| matches!(&b.btype, Word::ForEveryPart))
                                 .count()
-                                == self.max_nested_foreverypart
+                                > self.max_nested_foreverypart
                             {
                                 return Err(
                                     token_info.custom(ErrorType::TooManyNestedForEveryParts)
-- 
2.43.0


From efe7df955637946e0b0bf7a861ba2cfd5589d362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 06/62] fix: accept strings of exactly the maximum string size

---
 src/compiler/lexer/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 524f879..8a98a82 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -154,7 +154,7 @@ impl<'x> Tokenizer<'x> {
     }
 
     pub fn get_string(&mut self, str_type: StringType) -> Result<TokenInfo, CompileError> {
-        if self.buf.len() < self.compiler.max_string_size {
+        if self.buf.len() <= self.compiler.max_string_size {
             let token = if str_type.maybe_variable {
                 Token::StringVariable(self.buf.to_vec())
             } else {
-- 
2.43.0


From 530d3dd63ccfa25f168ecd678b39b59997571f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 07/62] fix: enforce the maximum variable name size

The limit was only applied to the names declared with global, and refused
names of exactly that size there.
---
 src/compiler/grammar/actions/action_set.rs | 3 +++
 src/compiler/grammar/instruction.rs        | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/actions/action_set.rs b/src/compiler/grammar/actions/action_set.rs
index c6d1f30..408917b 100644
--- a/src/compiler/grammar/actions/action_set.rs
+++ b/src/compiler/grammar/actions/action_set.rs
@@ -171,6 +171,9 @@ impl CompilerState<'_> {
         name: String,
         register_as_local: bool,
     ) -> Result<VariableType, ErrorType> {
+        if name.len() > self.compiler.max_variable_name_size {
+            return Err(ErrorType::VariableTooLong);
+        }
         let name = name.to_lowercase();
         if let Some((namespace, part)) = name.split_once('.') {
             match namespace {
diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 9885435..8fe3342 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -521,7 +521,7 @@ impl Compiler {
                             )?;
                             for global in state.parse_static_strings()? {
                                 if !state.is_var_local(&global) {
-                                    if global.len() < self.max_variable_name_size {
+                                    if global.len() <= self.max_variable_name_size {
                                         state.register_global_var(&global);
                                     } else {
                                         return Err(state
-- 
2.43.0


From 06fab05ad2bd05a4d36c557ae59ceebcd7feeee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:11 +0000
Subject: [PATCH 08/62] fix: resolve :local variables in set :replace,
 extracttext and body :content

These arguments were left out when the slots of :local variables are assigned,
so that they always read as empty.
---
 src/compiler/grammar/instruction.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 8fe3342..6a2f28b 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -27,14 +27,14 @@ use super::{
         action_notify::Notify,
         action_redirect::Redirect,
         action_reject::Reject,
-        action_set::{Let, Set},
+        action_set::{Let, Modifier, Set},
         action_vacation::Vacation,
     },
     expr::Expression,
     Capability, Clear, Invalid, While,
 };
 
-use super::tests::test_ihave::Error;
+use super::tests::{test_body::BodyTransform, test_ihave::Error};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
 #[cfg_attr(
@@ -1000,6 +1000,7 @@ impl CompilerState<'_> {
                     v.value.map_local_vars(last_id);
                 }
                 Instruction::ExtractText(v) => {
+                    v.modifiers.map_local_vars(last_id);
                     v.name.map_local_vars(last_id);
                 }
                 Instruction::Convert(v) => {
@@ -1016,6 +1017,7 @@ impl CompilerState<'_> {
                     v.value_patterns.map_local_vars(last_id);
                 }
                 Instruction::Set(v) => {
+                    v.modifiers.map_local_vars(last_id);
                     v.name.map_local_vars(last_id);
                     v.value.map_local_vars(last_id);
                 }
@@ -1086,6 +1088,9 @@ impl MapLocalVars for Test {
             }
             Test::Body(v) => {
                 v.key_list.map_local_vars(last_id);
+                if let BodyTransform::Content(types) = &mut v.body_transform {
+                    types.map_local_vars(last_id);
+                }
             }
             Test::Convert(v) => {
                 v.from_media_type.map_local_vars(last_id);
@@ -1193,6 +1198,15 @@ impl<T: MapLocalVars> MapLocalVars for Option<T> {
     }
 }
 
+impl MapLocalVars for Modifier {
+    fn map_local_vars(&mut self, last_id: usize) {
+        if let Modifier::Replace { find, replace } = self {
+            find.map_local_vars(last_id);
+            replace.map_local_vars(last_id);
+        }
+    }
+}
+
 impl MapLocalVars for Expression {
     fn map_local_vars(&mut self, last_id: usize) {
         if let Expression::Variable(var) = self {
-- 
2.43.0


From 3a48165d9bb1407de6a29fbde10fea92decf57f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:30 +0000
Subject: [PATCH 09/62] fix: enforce the maximum number of local variables

The limit was never checked. A script with more variables than the runtime
supports compiled, but running it ended at once without any event, so that the
message was not even kept.
---
 src/compiler/grammar/actions/action_set.rs | 18 +++++++++++++-----
 src/compiler/mod.rs                        |  2 ++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/compiler/grammar/actions/action_set.rs b/src/compiler/grammar/actions/action_set.rs
index 408917b..390cb7a 100644
--- a/src/compiler/grammar/actions/action_set.rs
+++ b/src/compiler/grammar/actions/action_set.rs
@@ -13,7 +13,7 @@ use crate::{
         lexer::{tokenizer::TokenInfo, word::Word, Token},
         CompileError, ErrorType, Value, VariableType,
     },
-    Envelope,
+    Envelope, MAX_LOCAL_VARIABLES,
 };
 
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -184,11 +184,19 @@ impl CompilerState<'_> {
                 _ => Err(ErrorType::InvalidNamespace(namespace.to_string())),
             }
         } else {
-            Ok(if !self.is_var_global(&name) {
-                VariableType::Local(self.register_local_var(name, register_as_local))
+            if !self.is_var_global(&name) {
+                let var_id = self.register_local_var(name, register_as_local);
+                let num_vars = std::cmp::max(self.vars_num, self.vars_num_max) + self.vars_local;
+                if num_vars <= self.compiler.max_local_variables
+                    && num_vars <= MAX_LOCAL_VARIABLES as usize
+                {
+                    Ok(VariableType::Local(var_id))
+                } else {
+                    Err(ErrorType::TooManyVariables)
+                }
             } else {
-                VariableType::Global(name)
-            })
+                Ok(VariableType::Global(name))
+            }
         }
     }
 }
diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index e62705f..2154404 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -47,6 +47,7 @@ pub enum ErrorType {
     StringTooLong,
     VariableTooLong,
     VariableIsLocal(String),
+    TooManyVariables,
     HeaderTooLong,
     ExpectedConstantString,
     UnexpectedToken {
@@ -535,6 +536,7 @@ impl Display for CompileError {
             ErrorType::VariableIsLocal(value) => {
                 write!(f, "Variable {value:?} was already defined as local")
             }
+            ErrorType::TooManyVariables => write!(f, "Too many local variables"),
             ErrorType::HeaderTooLong => write!(f, "Header value is too long"),
             ErrorType::ExpectedConstantString => write!(f, "Expected a constant string"),
             ErrorType::UnexpectedToken { expected, found } => {
-- 
2.43.0


From f9023119e76e540067eebce80d9c0d135ad34053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:13 +0000
Subject: [PATCH 10/62] fix: enforce the maximum number of match variables

The configured limit was never checked.
---
 src/compiler/lexer/string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index 1ad656e..11bf8fd 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -257,7 +257,7 @@ impl CompilerState<'_> {
         let num = var_name
             .parse()
             .map_err(|_| ErrorType::InvalidNumber(var_name.to_string()))?;
-        if num < MAX_MATCH_VARIABLES as usize {
+        if num < MAX_MATCH_VARIABLES as usize && num < self.compiler.max_match_variables {
             if self.register_match_var(num) {
                 let total_vars = num + 1;
                 if total_vars > self.vars_match_max {
-- 
2.43.0


From 883bcbb4f7e81c292a7af37897a86d27c82e627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:05 +0000
Subject: [PATCH 11/62] fix: fileinto, redirect and discard cancel the implicit
 keep only

An explicit keep executed before a fileinto or redirect without :copy, or
before a discard, was dropped unless it carried flags (RFC 5228, 4.1 to 4.4).
---
 src/lib.rs                             | 1 +
 src/runtime/actions/action_fileinto.rs | 4 +---
 src/runtime/actions/action_redirect.rs | 5 ++++-
 src/runtime/context.rs                 | 8 +++++++-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ab464b4..d7fe9ef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -127,6 +127,7 @@ pub struct Context<'x> {
     pub(crate) expr_pos: usize,
 
     pub(crate) queued_events: IntoIter<Event>,
+    pub(crate) explicit_keep: bool,
     pub(crate) final_event: Option<Event>,
     pub(crate) last_message_id: usize,
     pub(crate) main_message_id: usize,
diff --git a/src/runtime/actions/action_fileinto.rs b/src/runtime/actions/action_fileinto.rs
index a8aa47d..443bdc3 100644
--- a/src/runtime/actions/action_fileinto.rs
+++ b/src/runtime/actions/action_fileinto.rs
@@ -14,9 +14,7 @@ impl FileInto {
             events.push(event);
         }
 
-        if !self.copy
-            && !matches!(&ctx.final_event, Some(Event::Keep { flags, .. }) if !flags.is_empty())
-        {
+        if !self.copy && !ctx.explicit_keep {
             ctx.final_event = None;
         }
 
diff --git a/src/runtime/actions/action_redirect.rs b/src/runtime/actions/action_redirect.rs
index f4ae341..1609ea0 100644
--- a/src/runtime/actions/action_redirect.rs
+++ b/src/runtime/actions/action_redirect.rs
@@ -29,7 +29,10 @@ impl Redirect {
                     return;
                 }
 
-                if !self.copy && matches!(&ctx.final_event, Some(Event::Keep { .. })) {
+                if !self.copy
+                    && !ctx.explicit_keep
+                    && matches!(&ctx.final_event, Some(Event::Keep { .. }))
+                {
                     ctx.final_event = None;
                 }
 
diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 76cf232..3f490b2 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -60,6 +60,7 @@ impl<'x> Context<'x> {
             }
             .into(),
             queued_events: vec![].into_iter(),
+            explicit_keep: false,
             has_changes: false,
             user_address: "".into(),
             user_full_name: "".into(),
@@ -195,6 +196,7 @@ impl<'x> Context<'x> {
                     }
                     Instruction::Keep(keep) => {
                         let next_event = self.build_message_id();
+                        self.explicit_keep = true;
                         self.final_event = Event::Keep {
                             flags: self.get_local_or_global_flags(&keep.flags),
                             message_id: self.main_message_id,
@@ -217,7 +219,9 @@ impl<'x> Context<'x> {
                         }
                     }
                     Instruction::Discard => {
-                        self.final_event = Event::Discard.into();
+                        if !self.explicit_keep {
+                            self.final_event = Event::Discard.into();
+                        }
                     }
                     Instruction::Stop => {
                         self.script_stack.clear();
@@ -225,6 +229,7 @@ impl<'x> Context<'x> {
                     }
                     Instruction::Reject(reject) => {
                         self.final_event = None;
+                        self.explicit_keep = false;
                         return Some(Ok(Event::Reject {
                             extended: reject.ereject,
                             reason: self.eval_value(&reject.reason).to_string().into_owned(),
@@ -670,6 +675,7 @@ impl<'x> Context<'x> {
             }
             .into(),
             queued_events: vec![].into_iter(),
+            explicit_keep: false,
             has_changes: false,
             user_address: "".into(),
             user_full_name: "".into(),
-- 
2.43.0


From eb81f7c99845b5a9d88e51786e74c7d581909773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:00 +0000
Subject: [PATCH 12/62] fix: negating the smallest integer saturates like the
 other operators

---
 src/runtime/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/expression.rs b/src/runtime/expression.rs
index 017e196..c2dbfe2 100644
--- a/src/runtime/expression.rs
+++ b/src/runtime/expression.rs
@@ -225,7 +225,7 @@ impl Variable {
 
     pub fn op_minus(self) -> Variable {
         match self {
-            Variable::Integer(n) => Variable::Integer(-n),
+            Variable::Integer(n) => Variable::Integer(n.saturating_neg()),
             Variable::Float(n) => Variable::Float(-n),
             _ => self.parse_number().op_minus(),
         }
-- 
2.43.0


From 644d060352294bba80b9c31a6171386a906d18ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 13/62] fix: escape sequences in expression strings

The backslash was kept in the string and an escaped backslash escaped the
character after it too.
---
 src/compiler/grammar/expr/tokenizer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index 9e8310a..396b985 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -185,11 +185,11 @@ where
 
                             for (_, &ch) in self.iter.by_ref() {
                                 if last_ch != b'\\' {
-                                    if ch != stop_ch {
-                                        buf.push(ch);
-                                    } else {
+                                    if ch == stop_ch {
                                         found_end = true;
                                         break;
+                                    } else if ch != b'\\' {
+                                        buf.push(ch);
                                     }
                                 } else {
                                     match ch {
@@ -206,6 +206,8 @@ where
                                             buf.push(ch);
                                         }
                                     }
+                                    last_ch = 0;
+                                    continue;
                                 }
 
                                 last_ch = ch;
-- 
2.43.0


From 0015f122a509daee9d06f65899bd06ae87c4ca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:12 +0000
Subject: [PATCH 14/62] fix: a minus after a unary operator or an opening
 bracket is unary

!-1 and --1 were parsed as a subtraction with a missing left operand.
---
 src/compiler/grammar/expr/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index 396b985..3700fb4 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -228,7 +228,11 @@ where
                     };
                     self.is_start = matches!(
                         token,
-                        Token::OpenParen | Token::Comma | Token::BinaryOperator(_)
+                        Token::OpenParen
+                            | Token::OpenBracket
+                            | Token::Comma
+                            | Token::BinaryOperator(_)
+                            | Token::UnaryOperator(_)
                     );
 
                     return if prev_token.is_some() {
-- 
2.43.0


From a051530cfbc9c89427ac53b9184b9bf1fb222f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:31 +0000
Subject: [PATCH 15/62] fix: :matches folds the case of value and pattern in
 the same way

The value was lowercased as a whole, with the final sigma rule, but the
pattern character by character, so that a value did not match itself.
---
 src/runtime/tests/glob.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/runtime/tests/glob.rs b/src/runtime/tests/glob.rs
index 7eb633c..cd18418 100644
--- a/src/runtime/tests/glob.rs
+++ b/src/runtime/tests/glob.rs
@@ -48,7 +48,7 @@ impl GlobPattern {
                     if is_escaped {
                         is_escaped = false;
                     }
-                    if to_lower && char.is_uppercase() {
+                    if to_lower {
                         for char in char.to_lowercase() {
                             chars.push(PatternChar::Char { char, match_pos: 0 });
                         }
@@ -68,7 +68,11 @@ impl GlobPattern {
     // Credits: Algorithm ported from https://research.swtch.com/glob
     pub fn matches(&self, value: &str) -> bool {
         let value = if self.to_lower {
-            value.to_lowercase().chars().collect::<Vec<_>>()
+            // Fold each character by itself, as it is done in the pattern
+            value
+                .chars()
+                .flat_map(|char| char.to_lowercase())
+                .collect::<Vec<_>>()
         } else {
             value.chars().collect::<Vec<_>>()
         };
@@ -121,19 +125,15 @@ impl GlobPattern {
         let value = if self.to_lower {
             let mut value = Vec::with_capacity(value_.len());
             for char in value_.chars() {
-                if char.is_uppercase() {
-                    for (pos, lowerchar) in char.to_lowercase().enumerate() {
-                        value.push((
-                            lowerchar,
-                            if pos == 0 {
-                                char
-                            } else {
-                                REPLACEMENT_CHARACTER
-                            },
-                        ));
-                    }
-                } else {
-                    value.push((char, char));
+                for (pos, lowerchar) in char.to_lowercase().enumerate() {
+                    value.push((
+                        lowerchar,
+                        if pos == 0 {
+                            char
+                        } else {
+                            REPLACEMENT_CHARACTER
+                        },
+                    ));
                 }
             }
             value
-- 
2.43.0


From 7a6675c6f8b0db67c7a2c5480289ac0a1c8e21fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:31 +0000
Subject: [PATCH 16/62] fix: replacement characters in a value are captured by
 :matches

U+FFFD was used as a marker for folded characters, and therefore lost from the
text captured by a wildcard.
---
 src/runtime/tests/glob.rs | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/runtime/tests/glob.rs b/src/runtime/tests/glob.rs
index cd18418..b191b6e 100644
--- a/src/runtime/tests/glob.rs
+++ b/src/runtime/tests/glob.rs
@@ -4,8 +4,6 @@
  * SPDX-License-Identifier: AGPL-3.0-only OR LicenseRef-SEL
  */
 
-use std::char::REPLACEMENT_CHARACTER;
-
 use crate::MAX_MATCH_VARIABLES;
 
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -128,17 +126,16 @@ impl GlobPattern {
                 for (pos, lowerchar) in char.to_lowercase().enumerate() {
                     value.push((
                         lowerchar,
-                        if pos == 0 {
-                            char
-                        } else {
-                            REPLACEMENT_CHARACTER
-                        },
+                        if pos == 0 { Some(char) } else { None },
                     ));
                 }
             }
             value
         } else {
-            value_.chars().map(|char| (char, char)).collect::<Vec<_>>()
+            value_
+                .chars()
+                .map(|char| (char, Some(char)))
+                .collect::<Vec<_>>()
         };
 
         let mut px = 0;
@@ -207,13 +204,7 @@ impl GlobPattern {
                                     wildcard_pos,
                                     range
                                         .iter()
-                                        .filter_map(|(_, char)| {
-                                            if char != &REPLACEMENT_CHARACTER {
-                                                Some(char)
-                                            } else {
-                                                None
-                                            }
-                                        })
+                                        .filter_map(|(_, char)| *char)
                                         .collect::<String>(),
                                 ));
                             } else {
@@ -229,12 +220,7 @@ impl GlobPattern {
                             if let Some((char, orig_char)) = value.get(*match_pos) {
                                 captured_values.push((
                                     wildcard_pos,
-                                    (if orig_char != &REPLACEMENT_CHARACTER {
-                                        orig_char
-                                    } else {
-                                        char
-                                    })
-                                    .to_string(),
+                                    orig_char.unwrap_or(*char).to_string(),
                                 ));
                             } else {
                                 debug_assert!(false, "Glob pattern failure.");
-- 
2.43.0


From 103e23a8905a2a839a175db427496556da1d6924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:47 +0000
Subject: [PATCH 17/62] fix: more than 63 wildcards in a pattern overflowed the
 capture mask

---
 src/runtime/tests/glob.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/tests/glob.rs b/src/runtime/tests/glob.rs
index b191b6e..ebd1452 100644
--- a/src/runtime/tests/glob.rs
+++ b/src/runtime/tests/glob.rs
@@ -190,7 +190,7 @@ impl GlobPattern {
             if wildcard_pos <= MAX_MATCH_VARIABLES as usize {
                 last_pos = match item {
                     PatternChar::WildcardMany { mut num, match_pos } => {
-                        while num > 1 {
+                        while num > 1 && wildcard_pos < MAX_MATCH_VARIABLES as usize {
                             if capture_positions & (1 << wildcard_pos) != 0 {
                                 captured_values.push((wildcard_pos, String::with_capacity(0)));
                             }
-- 
2.43.0


From a1a0655eaf8ffe854b3b95081f8e85a48a52f33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 18/62] fix: match variables that take no part in a match are
 emptied

Optional regular expression groups that did not match, and numbers beyond the
wildcards or groups of a pattern, kept the value of an earlier match.
---
 src/runtime/tests/comparator.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/runtime/tests/comparator.rs b/src/runtime/tests/comparator.rs
index 8779fe1..f22e132 100644
--- a/src/runtime/tests/comparator.rs
+++ b/src/runtime/tests/comparator.rs
@@ -60,11 +60,21 @@ impl Comparator {
         captured_values: &mut Vec<(usize, String)>,
     ) -> bool {
         let pattern = GlobPattern::compile(pattern, matches!(self, Comparator::AsciiCaseMap));
-        match self {
-            Comparator::AsciiCaseMap if capture_positions == 0 => pattern.matches(value),
-            Comparator::AsciiCaseMap => pattern.capture(value, capture_positions, captured_values),
-            _ if capture_positions == 0 => pattern.matches(value),
-            _ => pattern.capture(value, capture_positions, captured_values),
+        if capture_positions == 0 {
+            pattern.matches(value)
+        } else if pattern.capture(value, capture_positions, captured_values) {
+            // Match variables without a wildcard are empty
+            let mut missing = captured_values
+                .iter()
+                .fold(capture_positions, |mask, (pos, _)| mask & !(1 << *pos));
+            while missing != 0 {
+                let index = missing.trailing_zeros();
+                missing ^= 1 << index;
+                captured_values.push((index as usize, String::with_capacity(0)));
+            }
+            true
+        } else {
+            false
         }
     }
 
@@ -127,9 +137,13 @@ fn eval_regex(
         while capture_positions != 0 {
             let index = 63 - capture_positions.leading_zeros();
             capture_positions ^= 1 << index;
-            if let Some(match_var) = captures.get(index as usize) {
-                captured_values.push((index as usize, match_var.as_str().to_string()));
-            }
+            captured_values.push((
+                index as usize,
+                captures
+                    .get(index as usize)
+                    .map_or("", |match_var| match_var.as_str())
+                    .to_string(),
+            ));
         }
         true
     } else {
-- 
2.43.0


From 8491d6614a0657516750929bc4edac8113072a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:25 +0000
Subject: [PATCH 19/62] fix: an invalid regular expression from a variable does
 not match

It is script input that is only known at run time, but tripped a debug
assertion.
---
 src/runtime/tests/comparator.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/runtime/tests/comparator.rs b/src/runtime/tests/comparator.rs
index f22e132..c0a06e1 100644
--- a/src/runtime/tests/comparator.rs
+++ b/src/runtime/tests/comparator.rs
@@ -107,10 +107,8 @@ impl Comparator {
         } else {
             match fancy_regex::Regex::new(pattern_expr.to_string().as_ref()) {
                 Ok(regex) => eval_regex(&regex, value, capture_positions, captured_values),
-                Err(err) => {
-                    debug_assert!(false, "Failed to compile regex: {err:?}");
-                    false
-                }
+                // The expression is only known now, and may be anything
+                Err(_) => false,
             }
         }
     }
-- 
2.43.0


From 70baaf53cde89d18d9e8ac7e0e54044a58a86188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:11 +0000
Subject: [PATCH 20/62] fix: a header value that is not a number compares as
 infinity

i;ascii-numeric treats strings that do not start with a digit as positive
infinity (RFC 4790), as is done for the keys.
---
 src/runtime/tests/comparator.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/runtime/tests/comparator.rs b/src/runtime/tests/comparator.rs
index c0a06e1..e71dfaf 100644
--- a/src/runtime/tests/comparator.rs
+++ b/src/runtime/tests/comparator.rs
@@ -165,9 +165,7 @@ impl Comparable for &str {
     }
 
     fn to_number(&self) -> Number {
-        self.parse::<f64>()
-            .map(Number::Float)
-            .unwrap_or(Number::Float(0.0))
+        Variable::from(*self).to_number()
     }
 }
 
-- 
2.43.0


From 509897ac0b7c0bb77cfb18fa9d6ea4722b082004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:40 +0000
Subject: [PATCH 21/62] fix: :regex in hasflag, date and currentdate tests

The key was matched as a wildcard pattern, not as a regular expression.
---
 src/runtime/tests/test_date.rs    | 22 ++++++---
 src/runtime/tests/test_hasflag.rs | 81 +++++++++++++++++++------------
 2 files changed, 65 insertions(+), 38 deletions(-)

diff --git a/src/runtime/tests/test_date.rs b/src/runtime/tests/test_date.rs
index dfc1ab7..a360754 100644
--- a/src/runtime/tests/test_date.rs
+++ b/src/runtime/tests/test_date.rs
@@ -83,7 +83,11 @@ impl TestDate {
                 false
             }
             _ => {
-                let key_list = ctx.eval_values(&self.key_list);
+                let key_list = self
+                    .key_list
+                    .iter()
+                    .map(|key| (key, ctx.eval_value(key)))
+                    .collect::<Vec<_>>();
                 let mut captured_values = Vec::new();
 
                 let result = ctx.find_headers(
@@ -94,7 +98,7 @@ impl TestDate {
                         if let Some(dt) = ctx.find_dates(header) {
                             let date_part =
                                 self.date_part.eval(self.zone.eval(dt.as_ref()).as_ref());
-                            for key in &key_list {
+                            for (key_expr, key) in &key_list {
                                 if match &self.match_type {
                                     MatchType::Is => self.comparator.is(&date_part.as_str(), key),
                                     MatchType::Contains => self
@@ -113,9 +117,10 @@ impl TestDate {
                                             &mut captured_values,
                                         )
                                     }
-                                    MatchType::Regex(capture_positions) => self.comparator.matches(
+                                    MatchType::Regex(capture_positions) => self.comparator.regex(
+                                        key_expr,
+                                        key,
                                         &date_part,
-                                        key.to_string().as_ref(),
                                         *capture_positions,
                                         &mut captured_values,
                                     ),
@@ -182,8 +187,8 @@ impl TestCurrentDate {
                     }),
                 );
 
-                for key in &self.key_list {
-                    let key = ctx.eval_value(key);
+                for key_expr in &self.key_list {
+                    let key = ctx.eval_value(key_expr);
 
                     if match &self.match_type {
                         MatchType::Is => self.comparator.is(&date_part.as_str(), &key),
@@ -200,9 +205,10 @@ impl TestCurrentDate {
                             *capture_positions,
                             &mut captured_values,
                         ),
-                        MatchType::Regex(capture_positions) => self.comparator.matches(
+                        MatchType::Regex(capture_positions) => self.comparator.regex(
+                            key_expr,
+                            &key,
                             &date_part,
-                            key.to_string().as_ref(),
                             *capture_positions,
                             &mut captured_values,
                         ),
diff --git a/src/runtime/tests/test_hasflag.rs b/src/runtime/tests/test_hasflag.rs
index de671b9..435b9c8 100644
--- a/src/runtime/tests/test_hasflag.rs
+++ b/src/runtime/tests/test_hasflag.rs
@@ -47,44 +47,65 @@ impl TestHasFlag {
             result
         } else {
             let mut captured_values = Vec::new();
-            let result = ctx.tokenize_flags(&self.flags, |check_flag| {
-                for variable in variable_list {
-                    match ctx.get_variable(variable) {
-                        Some(flags) if !flags.is_empty() => {
-                            for flag in flags.to_string().split(' ') {
-                                if match &self.match_type {
-                                    MatchType::Is => self.comparator.is(&flag, &check_flag),
-                                    MatchType::Contains => {
-                                        self.comparator.contains(flag, check_flag)
-                                    }
-                                    MatchType::Value(rel_match) => {
-                                        self.comparator.relational(rel_match, &flag, &check_flag)
-                                    }
-                                    MatchType::Matches(capture_positions) => {
-                                        self.comparator.matches(
+            let result =
+                if let MatchType::Regex(capture_positions) = &self.match_type {
+                    // An expression is a single pattern, not a list of flags
+                    self.flags.iter().any(|pattern_expr| {
+                        let pattern = ctx.eval_value(pattern_expr);
+                        variable_list.iter().any(|variable| {
+                            ctx.get_variable(variable).is_some_and(|flags| {
+                                flags
+                                    .to_string()
+                                    .split(' ')
+                                    .filter(|flag| !flag.is_empty())
+                                    .any(|flag| {
+                                        self.comparator.regex(
+                                            pattern_expr,
+                                            &pattern,
                                             flag,
-                                            check_flag,
                                             *capture_positions,
                                             &mut captured_values,
                                         )
+                                    })
+                            })
+                        })
+                    })
+                } else {
+                    ctx.tokenize_flags(&self.flags, |check_flag| {
+                        for variable in variable_list {
+                            match ctx.get_variable(variable) {
+                                Some(flags) if !flags.is_empty() => {
+                                    for flag in flags.to_string().split(' ') {
+                                        if match &self.match_type {
+                                            MatchType::Is => self.comparator.is(&flag, &check_flag),
+                                            MatchType::Contains => {
+                                                self.comparator.contains(flag, check_flag)
+                                            }
+                                            MatchType::Value(rel_match) => self
+                                                .comparator
+                                                .relational(rel_match, &flag, &check_flag),
+                                            MatchType::Matches(capture_positions) => {
+                                                self.comparator.matches(
+                                                    flag,
+                                                    check_flag,
+                                                    *capture_positions,
+                                                    &mut captured_values,
+                                                )
+                                            }
+                                            MatchType::Regex(_)
+                                            | MatchType::Count(_)
+                                            | MatchType::List => false,
+                                        } {
+                                            return true;
+                                        }
                                     }
-                                    MatchType::Regex(capture_positions) => self.comparator.matches(
-                                        flag,
-                                        check_flag,
-                                        *capture_positions,
-                                        &mut captured_values,
-                                    ),
-                                    MatchType::Count(_) | MatchType::List => false,
-                                } {
-                                    return true;
                                 }
+                                _ => (),
                             }
                         }
-                        _ => (),
-                    }
-                }
-                false
-            });
+                        false
+                    })
+                };
             if !captured_values.is_empty() {
                 ctx.set_match_variables(captured_values);
             }
-- 
2.43.0


From c280ab6f9eeb9ad2ec1048601dae7646381a6d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:08 +0000
Subject: [PATCH 22/62] fix: flags are a set of flags whatever strings they
 come in

Strings with several flags were not split when a list had more than one
element, blank strings stored an empty flag, and removeflag left duplicates
behind and changed the order of the remaining flags.
---
 src/runtime/actions/action_flags.rs | 30 +++++++----------------------
 src/runtime/tests/test_hasflag.rs   |  6 +++---
 2 files changed, 10 insertions(+), 26 deletions(-)

diff --git a/src/runtime/actions/action_flags.rs b/src/runtime/actions/action_flags.rs
index a1290f5..45a9656 100644
--- a/src/runtime/actions/action_flags.rs
+++ b/src/runtime/actions/action_flags.rs
@@ -43,7 +43,7 @@ impl EditFlags {
                     .unwrap_or_default()
                     .into_owned();
                 let mut current_flags = new_flags
-                    .split(' ')
+                    .split_ascii_whitespace()
                     .map(|f| f.to_lowercase())
                     .collect::<Vec<_>>();
 
@@ -61,23 +61,15 @@ impl EditFlags {
                 ctx.set_variable(var_name, new_flags.into());
             }
             Action::Remove => {
-                let mut current_flags = Vec::new();
-                let mut current_flags_lc = Vec::new();
                 let flags = ctx
                     .get_variable(var_name)
                     .map(|v| v.to_string().into_owned())
                     .unwrap_or_default();
+                let mut current_flags = flags.split_ascii_whitespace().collect::<Vec<_>>();
 
-                for flag in flags.split(' ') {
-                    current_flags.push(flag);
-                    current_flags_lc.push(flag.to_lowercase());
-                }
                 ctx.tokenize_flags(&self.flags, |flag| {
                     let flag = flag.to_lowercase();
-                    if let Some(pos) = current_flags_lc.iter().position(|lflag| lflag == &flag) {
-                        current_flags.swap_remove(pos);
-                        current_flags_lc.swap_remove(pos);
-                    }
+                    current_flags.retain(|current| current.to_lowercase() != flag);
                     false
                 });
                 ctx.set_variable(var_name, current_flags.join(" ").into());
@@ -92,17 +84,9 @@ impl Context<'_> {
         strings: &[Value],
         mut cb: impl FnMut(&str) -> bool,
     ) -> bool {
-        for (pos, string) in strings.iter().enumerate() {
-            let flag_ = self.eval_value(string);
-            let flag = flag_.to_string();
-            if !flag.is_empty() {
-                if pos == 0 && strings.len() == 1 {
-                    for flag in flag.split_ascii_whitespace() {
-                        if !flag.is_empty() && cb(flag) {
-                            return true;
-                        }
-                    }
-                } else if cb(flag.trim()) {
+        for string in strings {
+            for flag in self.eval_value(string).to_string().split_ascii_whitespace() {
+                if cb(flag) {
                     return true;
                 }
             }
@@ -123,7 +107,7 @@ impl Context<'_> {
         match self.vars_global.get("__flags") {
             Some(flags) if !flags.is_empty() => flags
                 .to_string()
-                .split(' ')
+                .split_ascii_whitespace()
                 .map(|s| s.to_string())
                 .collect::<Vec<String>>(),
             _ => Vec::new(),
diff --git a/src/runtime/tests/test_hasflag.rs b/src/runtime/tests/test_hasflag.rs
index 435b9c8..f6f0a77 100644
--- a/src/runtime/tests/test_hasflag.rs
+++ b/src/runtime/tests/test_hasflag.rs
@@ -28,7 +28,7 @@ impl TestHasFlag {
             for variable in variable_list {
                 match ctx.get_variable(variable) {
                     Some(flags) if !flags.is_empty() => {
-                        flag_count += flags.to_string().split(' ').count();
+                        flag_count += flags.to_string().split_ascii_whitespace().count();
                     }
                     _ => (),
                 }
@@ -56,7 +56,7 @@ impl TestHasFlag {
                             ctx.get_variable(variable).is_some_and(|flags| {
                                 flags
                                     .to_string()
-                                    .split(' ')
+                                    .split_ascii_whitespace()
                                     .filter(|flag| !flag.is_empty())
                                     .any(|flag| {
                                         self.comparator.regex(
@@ -75,7 +75,7 @@ impl TestHasFlag {
                         for variable in variable_list {
                             match ctx.get_variable(variable) {
                                 Some(flags) if !flags.is_empty() => {
-                                    for flag in flags.to_string().split(' ') {
+                                    for flag in flags.to_string().split_ascii_whitespace() {
                                         if match &self.match_type {
                                             MatchType::Is => self.comparator.is(&flag, &check_flag),
                                             MatchType::Contains => {
-- 
2.43.0


From 82f20fc9efb61b8e2051eaa6a5801823f0b5ff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:13 +0000
Subject: [PATCH 23/62] fix: control characters inside a quoted redirect
 address

A line break between quotes ended up in the recipient handed to the host.
---
 src/runtime/actions/action_redirect.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/actions/action_redirect.rs b/src/runtime/actions/action_redirect.rs
index 1609ea0..959f039 100644
--- a/src/runtime/actions/action_redirect.rs
+++ b/src/runtime/actions/action_redirect.rs
@@ -105,6 +105,10 @@ pub(crate) fn sanitize_address(addr: &str) -> Option<String> {
                     in_quote = false;
                 }
             }
+            // Line breaks and other control characters are not part of an address
+            _ if ch.is_control() && (in_quote || !ch.is_ascii_whitespace()) => {
+                return None;
+            }
             '@' if !in_quote => {
                 if !has_at && !result.is_empty() {
                     has_at = true;
-- 
2.43.0


From 6a214acc0a46d72ce5f652fe43cb8a3ff587c268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:49 +0000
Subject: [PATCH 24/62] fix: a generated subject one character too long was cut
 without ellipsis

---
 src/runtime/actions/action_notify.rs   |  8 ++------
 src/runtime/actions/action_vacation.rs | 12 ++++--------
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 88d5909..58142cb 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -180,19 +180,15 @@ impl Notify {
             } else {
                 ctx.message.subject().unwrap_or_default()
             };
-            let mut iter = subject.chars().enumerate();
             let mut buf = [0; 4];
-            #[allow(clippy::while_let_on_iterator)]
-            while let Some((pos, char)) = iter.next() {
+            for (pos, char) in subject.chars().enumerate() {
                 if pos < MAX_SUBJECT_LEN {
                     message.extend_from_slice(char.encode_utf8(&mut buf).as_bytes());
                 } else {
+                    message.extend_from_slice('…'.encode_utf8(&mut buf).as_bytes());
                     break;
                 }
             }
-            if iter.next().is_some() {
-                message.extend_from_slice('…'.encode_utf8(&mut buf).as_bytes());
-            }
             message.extend_from_slice(b"\r\n");
 
             message.extend_from_slice(b"Auto-Submitted: auto-notified\r\n");
diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index bee00dd..34cde5d 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -186,24 +186,20 @@ impl Vacation {
                 HeaderName::Subject if vacation_subject.is_empty() => {
                     if let Some(subject) = header.value.as_text() {
                         let mut vacation_subject_ = String::with_capacity(MAX_SUBJECT_LEN);
-                        let mut iter = ctx
+                        for (pos, char) in ctx
                             .runtime
                             .vacation_subject_prefix
                             .chars()
                             .chain(subject.chars())
-                            .enumerate();
-
-                        #[allow(clippy::while_let_on_iterator)]
-                        while let Some((pos, char)) = iter.next() {
+                            .enumerate()
+                        {
                             if pos < MAX_SUBJECT_LEN {
                                 vacation_subject_.push(char);
                             } else {
+                                vacation_subject_.push('…');
                                 break;
                             }
                         }
-                        if iter.next().is_some() {
-                            vacation_subject_.push('…');
-                        }
                         vacation_subject = vacation_subject_.into();
                     }
                 }
-- 
2.43.0


From 3eec202aa0f5ba55ab22ebd1fc3c1de33112ab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:56 +0000
Subject: [PATCH 25/62] fix: notifications count towards the maximum number of
 outgoing messages

Notifications to mailto addresses were not counted, and the limit did not
stop other notifications.
---
 src/runtime/actions/action_notify.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 58142cb..2b967b7 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -38,9 +38,12 @@ impl Notify {
             return;
         };
 
+        if ctx.num_out_messages >= ctx.runtime.max_out_messages {
+            return;
+        }
+
         let has_fcc = self.fcc.is_some();
-        let is_mailto = scheme.eq_ignore_ascii_case("mailto")
-            && ctx.num_out_messages < ctx.runtime.max_out_messages;
+        let is_mailto = scheme.eq_ignore_ascii_case("mailto");
         let mut events = Vec::with_capacity(3);
 
         if is_mailto || has_fcc {
@@ -258,8 +261,8 @@ impl Notify {
                     .or_else(|| ctx.message.subject().map(|s| s.to_string()))
                     .unwrap_or_default(),
             });
-            ctx.num_out_messages += 1;
         }
+        ctx.num_out_messages += 1;
 
         if let Some(fcc) = &self.fcc {
             // File carbon copy
-- 
2.43.0


From a4fb0d4322fb7b62667af756930b09e67e1a45ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:08 +0000
Subject: [PATCH 26/62] fix: line breaks in generated messages and envelope
 parameters

Subjects, addresses and header values taken from variables, URIs or the
original message could end the header field they were written to and start
a new one, and a raw header without a line ending absorbed the next one.
---
 src/runtime/actions/action_notify.rs   | 28 +++++++++++++++++--------
 src/runtime/actions/action_set.rs      |  5 ++++-
 src/runtime/actions/action_vacation.rs | 29 ++++++++++++++++++++------
 3 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 2b967b7..cae43ab 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -15,7 +15,7 @@ use crate::{
     Context, Event, Importance, Recipient,
 };
 
-use super::action_vacation::MAX_SUBJECT_LEN;
+use super::action_vacation::{write_header, MAX_SUBJECT_LEN};
 
 impl Notify {
     pub(crate) fn exec(&self, ctx: &mut Context) {
@@ -96,9 +96,7 @@ impl Notify {
                 + 200;
 
             let mut message = Vec::with_capacity(message_len);
-            message.extend_from_slice(b"From: ");
-            message.extend_from_slice(from.as_bytes());
-            message.extend_from_slice(b"\r\n");
+            write_header(&mut message, "From: ", &from);
 
             for (header, addresses) in [("To: ", &params.to), ("Cc: ", &params.cc)] {
                 if !addresses.is_empty() {
@@ -140,9 +138,7 @@ impl Notify {
                     _ => (),
                 }
                 message.extend_from_slice(header.as_str().as_bytes());
-                message.extend_from_slice(b": ");
-                message.extend_from_slice(value.as_bytes());
-                message.extend_from_slice(b"\r\n");
+                write_header(&mut message, ": ", value);
             }
 
             if !has_date {
@@ -184,7 +180,11 @@ impl Notify {
                 ctx.message.subject().unwrap_or_default()
             };
             let mut buf = [0; 4];
-            for (pos, char) in subject.chars().enumerate() {
+            for (pos, char) in subject
+                .chars()
+                .filter(|ch| !matches!(ch, '\r' | '\n'))
+                .enumerate()
+            {
                 if pos < MAX_SUBJECT_LEN {
                     message.extend_from_slice(char.encode_utf8(&mut buf).as_bytes());
                 } else {
@@ -245,7 +245,7 @@ impl Notify {
                 from: self
                     .from
                     .as_ref()
-                    .map(|f| ctx.eval_value(f).to_string().into_owned()),
+                    .map(|f| ctx.eval_value(f).to_string().replace(['\r', '\n'], "")),
                 importance: self.importance.as_ref().map_or(Importance::Normal, |i| {
                     match ctx.eval_value(i).to_string().as_ref() {
                         "1" => Importance::High,
@@ -394,6 +394,13 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                     let ch = ((hex1 as u8) << 4) | hex2 as u8;
 
                     match &state {
+                        // Not allowed in an address, nor in the name of a header
+                        State::Address(_) if ch.is_ascii_control() => return None,
+                        State::ParamName
+                            if !ch.is_ascii_alphanumeric() && ![b'-', b'_'].contains(&ch) =>
+                        {
+                            return None;
+                        }
                         State::Address((header, has_at)) => match ch {
                             b',' => {
                                 if *has_at {
@@ -516,6 +523,9 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                         return None;
                     }
                 }
+                State::Address(_) if ch.is_ascii_control() && !ch.is_ascii_whitespace() => {
+                    return None;
+                }
                 _ => {
                     if !ch.is_ascii_whitespace() {
                         buf.push(ch);
diff --git a/src/runtime/actions/action_set.rs b/src/runtime/actions/action_set.rs
index 005da43..368d256 100644
--- a/src/runtime/actions/action_set.rs
+++ b/src/runtime/actions/action_set.rs
@@ -58,7 +58,10 @@ impl Context<'_> {
         }
     }
 
-    pub(crate) fn add_set_envelope_event(&mut self, envelope: Envelope, value: String) {
+    pub(crate) fn add_set_envelope_event(&mut self, envelope: Envelope, mut value: String) {
+        // An envelope parameter is part of a single line
+        value.retain(|ch| !matches!(ch, '\r' | '\n'));
+
         let mut did_find = false;
         for (name, val) in self.envelope.iter_mut() {
             if *name == envelope {
diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index 34cde5d..5a35378 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -258,7 +258,7 @@ impl Vacation {
         write_header(&mut message, "From: ", vacation_from.to_string().as_ref());
         if let Some(vacation_to_full) = vacation_to_full {
             message.extend_from_slice(b"To:");
-            message.extend_from_slice(vacation_to_full);
+            write_raw_value(&mut message, vacation_to_full);
         } else {
             write_header(&mut message, "To: ", vacation_to.to_string().as_ref());
         }
@@ -269,14 +269,14 @@ impl Vacation {
         );
         if let Some(message_id) = message_id {
             message.extend_from_slice(b"In-Reply-To: <");
-            message.extend_from_slice(message_id.as_bytes());
+            write_value(&mut message, message_id);
             message.extend_from_slice(b">\r\n");
 
             message.extend_from_slice(b"References: <");
-            message.extend_from_slice(message_id.as_bytes());
+            write_value(&mut message, message_id);
             if let Some(references) = references {
                 message.extend_from_slice(b"> ");
-                message.extend_from_slice(references);
+                write_raw_value(&mut message, references);
             } else {
                 message.extend_from_slice(b">\r\n");
             }
@@ -332,8 +332,25 @@ impl Vacation {
     }
 }
 
-fn write_header(buf: &mut Vec<u8>, name: &str, value: &str) {
+pub(crate) fn write_header(buf: &mut Vec<u8>, name: &str, value: &str) {
     buf.extend_from_slice(name.as_bytes());
-    buf.extend_from_slice(value.as_bytes());
+    write_value(buf, value);
+    buf.extend_from_slice(b"\r\n");
+}
+
+// Line breaks in a value would start a new header field
+pub(crate) fn write_value(buf: &mut Vec<u8>, value: &str) {
+    buf.extend(value.bytes().filter(|ch| !matches!(ch, b'\r' | b'\n')));
+}
+
+// Writes a header value exactly as it is in another message, folded or not,
+// which may be missing its line ending if it is the last one.
+fn write_raw_value(buf: &mut Vec<u8>, value: &[u8]) {
+    let value = value.trim_ascii_end();
+    for (pos, &ch) in value.iter().enumerate() {
+        if ch != b'\r' || value.get(pos + 1) == Some(&b'\n') {
+            buf.push(ch);
+        }
+    }
     buf.extend_from_slice(b"\r\n");
 }
-- 
2.43.0


From 1a793d4a033115ca3076135eb883683c3f61d7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:15 +0000
Subject: [PATCH 27/62] fix: mailto URIs with their addresses in a parameter
 other than the last

They were refused as having no recipients, and a header without a value was
not recognised, leading to two Subject fields.
---
 src/runtime/actions/action_notify.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index cae43ab..a23c097 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -499,6 +499,7 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                             header,
                             String::from_utf8(std::mem::take(&mut buf)).ok()?,
                         );
+                        has_addresses = true;
                     }
                     state = State::ParamName;
                 }
@@ -543,9 +544,9 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                 has_addresses = true;
             }
             State::ParamName => {
-                params
-                    .headers
-                    .push((HeaderName::Other(value.into()), String::new()));
+                if let Some(header) = HeaderName::parse(value) {
+                    params.headers.push((header, String::new()));
+                }
             }
             State::ParamValue(param) => match param {
                 Mailto::Header(header) => params.headers.push((header, value)),
-- 
2.43.0


From 83e18f1c58c2ffe54fef7764cf093ee87398399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:47 +0000
Subject: [PATCH 28/62] fix: part references and size after replace and enclose

Replacing a part with nested parts removed these from the message without
updating the ids of the parts that follow, so that other parts were edited
or the run panicked; so did parts iterated over after enclose. The message
size underflowed when headers had been deleted before.
---
 src/runtime/actions/action_mime.rs | 75 +++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 21 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 4732512..18d65d4 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -4,8 +4,6 @@
  * SPDX-License-Identifier: AGPL-3.0-only OR LicenseRef-SEL
  */
 
-use std::cmp::Reverse;
-
 use mail_parser::{
     decoders::html::html_to_text, Encoding, HeaderName, Message, MessagePart, PartType,
 };
@@ -26,25 +24,12 @@ use mail_builder::headers::message_id::generate_message_id_header;
 impl Replace {
     pub(crate) fn exec(&self, ctx: &mut Context) {
         // Delete children parts
-        let mut part_ids = ctx.find_nested_parts_ids(false);
-        part_ids.sort_unstable_by_key(|a| Reverse(*a));
-        for part_id in part_ids {
-            ctx.message.parts.remove(part_id as usize);
-        }
+        ctx.remove_parts(&ctx.find_nested_parts_ids(false));
         ctx.has_changes = true;
 
         // Update part
         let body = ctx.eval_value(&self.replacement).to_string().into_owned();
-        let body_len = body.len();
-
         let part = &mut ctx.message.parts[ctx.part as usize];
-
-        ctx.message_size = ctx.message_size + body_len
-            - (if part.offset_body != 0 {
-                (part.offset_end - part.offset_header) as usize
-            } else {
-                part.body.len()
-            });
         part.body = PartType::Text(body.into());
         part.encoding = if !self.mime {
             Encoding::QuotedPrintable
@@ -57,20 +42,17 @@ impl Replace {
 
         if ctx.part == 0 {
             for mut header in prev_headers {
-                let mut size = (header.offset_end - header.offset_field) as usize;
                 match &header.name {
                     HeaderName::Subject => {
                         if self.subject.is_some() {
                             header.name = HeaderName::Other("Original-Subject".into());
                             header.offset_field = header.offset_start;
-                            size += "Original-".len();
                         }
                     }
                     HeaderName::From => {
                         if self.from.is_some() {
                             header.name = HeaderName::Other("Original-From".into());
                             header.offset_field = header.offset_start;
-                            size += "Original-".len();
                         }
                     }
 
@@ -80,7 +62,6 @@ impl Replace {
                     }
                     _ => continue,
                 }
-                ctx.message_size += size;
                 part.headers.push(header);
             }
 
@@ -161,6 +142,8 @@ impl Replace {
                 true,
             );
         }
+
+        ctx.message_size = ctx.build_message().len();
     }
 }
 
@@ -185,8 +168,13 @@ impl Enclose {
         #[cfg(not(test))]
         let boundary = mail_builder::mime::make_boundary(".");
 
-        ctx.message_size += ((boundary.len() + 6) * 3) + body.len() + 2;
+        // The parts being iterated are now within the enclosed message
         ctx.part = 0;
+        ctx.part_iter = Vec::new().into_iter();
+        for (part, part_iter) in ctx.part_iter_stack.iter_mut() {
+            *part = 0;
+            *part_iter = Vec::new().into_iter();
+        }
         ctx.has_changes = true;
         ctx.message = Message {
             html_body: Vec::with_capacity(0),
@@ -320,6 +308,8 @@ impl Enclose {
                 true,
             );
         }
+
+        ctx.message_size = ctx.build_message().len();
     }
 }
 
@@ -380,6 +370,49 @@ enum StackItem<'x> {
 }
 
 impl Context<'_> {
+    // Removes parts, keeping all references to the remaining parts valid
+    fn remove_parts(&mut self, part_ids: &[u32]) {
+        if part_ids.is_empty() {
+            return;
+        }
+
+        let mut new_ids = vec![Some(0); self.message.parts.len()];
+        for part_id in part_ids {
+            new_ids[*part_id as usize] = None;
+        }
+        for (pos, new_id) in new_ids.iter_mut().flatten().enumerate() {
+            *new_id = pos as u32;
+        }
+        let new_id = |part_id: u32| new_ids.get(part_id as usize).copied().flatten();
+        let map_ids = |part_ids: &mut Vec<u32>| {
+            *part_ids = part_ids.iter().copied().filter_map(new_id).collect();
+        };
+
+        let mut part_id = 0;
+        self.message.parts.retain_mut(|part| {
+            part_id += 1;
+            if let PartType::Multipart(subparts) = &mut part.body {
+                map_ids(subparts);
+            }
+            new_id(part_id - 1).is_some()
+        });
+        map_ids(&mut self.message.text_body);
+        map_ids(&mut self.message.html_body);
+        map_ids(&mut self.message.attachments);
+
+        self.part = new_id(self.part).unwrap_or(0);
+        self.part_iter = self
+            .part_iter
+            .by_ref()
+            .filter_map(new_id)
+            .collect::<Vec<_>>()
+            .into_iter();
+        for (part, part_iter) in self.part_iter_stack.iter_mut() {
+            *part = new_id(*part).unwrap_or(0);
+            *part_iter = part_iter.filter_map(new_id).collect::<Vec<_>>().into_iter();
+        }
+    }
+
     pub(crate) fn build_message_id(&mut self) -> Option<Event> {
         if self.has_changes {
             self.last_message_id += 1;
-- 
2.43.0


From 5abb2c97cf21b6a071c1a02feb90518133a09179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:35 +0000
Subject: [PATCH 29/62] fix: header names and subjects in enclosed messages

A header name containing a line break or a space, and a subject with encoded
line breaks, were written to the message as they are.
---
 src/runtime/actions/action_mime.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 18d65d4..4002977 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -159,7 +159,11 @@ impl Enclose {
                     .as_ref()
                     .remove_crlf(ctx.runtime.max_header_size)
             })
-            .or_else(|| ctx.message.subject().map(|s| s.to_string()))
+            .or_else(|| {
+                ctx.message
+                    .subject()
+                    .map(|s| s.remove_crlf(ctx.runtime.max_header_size))
+            })
             .unwrap_or_default();
 
         let message = std::mem::take(&mut ctx.message);
@@ -243,7 +247,11 @@ impl Enclose {
             {
                 header_name = header_name.trim();
                 header_value = header_value.trim();
-                if !header_value.is_empty() {
+                if !header_value.is_empty()
+                    && header_name
+                        .chars()
+                        .all(|ch| !ch.is_whitespace() && !ch.is_control())
+                {
                     if let Some(name) = HeaderName::parse(header_name) {
                         if !ctx.runtime.protected_headers.contains(&name) {
                             match &name {
-- 
2.43.0


From 282a05731c8451d1c4a67a3fee2d37530e3d707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:02 +0000
Subject: [PATCH 30/62] fix: tests see the header fields set by replace and
 enclose

They were stored under names that no test looks for. A Content-Type given in
the headers of enclose replaced the boundary of the enclosing message.
---
 src/runtime/actions/action_mime.rs | 64 +++++++++++-------------------
 1 file changed, 24 insertions(+), 40 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 4002977..aff1418 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -71,7 +71,7 @@ impl Replace {
                 if !from.is_empty() {
                     ctx.insert_header(
                         0,
-                        HeaderName::Other("From".into()),
+                        HeaderName::From,
                         from.to_string()
                             .as_ref()
                             .remove_crlf(ctx.runtime.max_header_size),
@@ -81,12 +81,7 @@ impl Replace {
                 }
             }
             if add_from {
-                ctx.insert_header(
-                    0,
-                    HeaderName::Other("From".to_string().into()),
-                    ctx.user_from_field(),
-                    true,
-                );
+                ctx.insert_header(0, HeaderName::From, ctx.user_from_field(), true);
             }
 
             // Add Subject
@@ -94,7 +89,7 @@ impl Replace {
                 if !subject.is_empty() {
                     ctx.insert_header(
                         0,
-                        HeaderName::Other("Subject".into()),
+                        HeaderName::Subject,
                         subject
                             .to_string()
                             .as_ref()
@@ -111,12 +106,7 @@ impl Replace {
                 #[cfg(test)]
                 let header_value = "Tue, 20 Nov 2022 05:14:20 -0300".to_string();
 
-                ctx.insert_header(
-                    0,
-                    HeaderName::Other("Date".to_string().into()),
-                    header_value,
-                    true,
-                );
+                ctx.insert_header(0, HeaderName::Date, header_value, true);
             }
 
             // Add Message-ID
@@ -128,7 +118,7 @@ impl Replace {
 
             ctx.insert_header(
                 0,
-                HeaderName::Other("Message-ID".to_string().into()),
+                HeaderName::MessageId,
                 String::from_utf8(header_value).unwrap(),
                 true,
             );
@@ -137,7 +127,7 @@ impl Replace {
         if !self.mime {
             ctx.insert_header(
                 ctx.part,
-                HeaderName::Other("Content-Type".into()),
+                HeaderName::ContentType,
                 "text/plain; charset=utf-8".to_string(),
                 true,
             );
@@ -218,23 +208,18 @@ impl Enclose {
 
         ctx.insert_header(
             0,
-            HeaderName::Other("Content-Type".into()),
+            HeaderName::ContentType,
             format!("multipart/mixed; boundary=\"{boundary}\""),
             true,
         );
-        ctx.insert_header(0, HeaderName::Other("Subject".into()), subject, true);
+        ctx.insert_header(0, HeaderName::Subject, subject, true);
         ctx.insert_header(
             1,
-            HeaderName::Other("Content-Type".into()),
+            HeaderName::ContentType,
             "text/plain; charset=utf-8",
             true,
         );
-        ctx.insert_header(
-            2,
-            HeaderName::Other("Content-Type".into()),
-            "message/rfc822",
-            true,
-        );
+        ctx.insert_header(2, HeaderName::ContentType, "message/rfc822", true);
 
         let mut add_date = true;
         let mut add_message_id = true;
@@ -255,6 +240,10 @@ impl Enclose {
                     if let Some(name) = HeaderName::parse(header_name) {
                         if !ctx.runtime.protected_headers.contains(&name) {
                             match &name {
+                                // Set by the enclosing message itself
+                                HeaderName::ContentType | HeaderName::ContentTransferEncoding => {
+                                    continue;
+                                }
                                 HeaderName::Date => {
                                     add_date = false;
                                 }
@@ -269,7 +258,7 @@ impl Enclose {
 
                             ctx.insert_header(
                                 0,
-                                HeaderName::Other(header_name.to_string().into()),
+                                name.into_owned(),
                                 header_value.remove_crlf(ctx.runtime.max_header_size),
                                 true,
                             );
@@ -280,12 +269,7 @@ impl Enclose {
         }
 
         if add_from {
-            ctx.insert_header(
-                0,
-                HeaderName::Other("From".to_string().into()),
-                ctx.user_from_field(),
-                true,
-            );
+            ctx.insert_header(0, HeaderName::From, ctx.user_from_field(), true);
         }
 
         if add_date {
@@ -294,12 +278,7 @@ impl Enclose {
             #[cfg(test)]
             let header_value = "Tue, 20 Nov 2022 05:14:20 -0300".to_string();
 
-            ctx.insert_header(
-                0,
-                HeaderName::Other("Date".to_string().into()),
-                header_value,
-                true,
-            );
+            ctx.insert_header(0, HeaderName::Date, header_value, true);
         }
 
         if add_message_id {
@@ -311,7 +290,7 @@ impl Enclose {
 
             ctx.insert_header(
                 0,
-                HeaderName::Other("Message-ID".to_string().into()),
+                HeaderName::MessageId,
                 String::from_utf8(header_value).unwrap(),
                 true,
             );
@@ -482,7 +461,12 @@ impl Context<'_> {
                             );
                         }
                     } else {
-                        if header.name == HeaderName::Other("Content-Type".into()) {
+                        if header.name == HeaderName::ContentType
+                            && header
+                                .value
+                                .as_text()
+                                .is_some_and(|value| value.contains("boundary=\""))
+                        {
                             ct_pos = header_pos;
                         }
 
-- 
2.43.0


From 9e31b0fb7842e10dfe4c46ff25c5cb2765f8325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:37 +0000
Subject: [PATCH 31/62] fix: convert keeps the headers of the message itself

Converting a message with a single part removed all its headers. The message
size underflowed when headers had been deleted before.
---
 src/runtime/actions/action_convert.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index ff62b97..86d911d 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -49,7 +49,7 @@ impl Convert {
             return TestResult::Bool(false ^ self.is_not);
         };
         let mut did_convert = false;
-        for part in ctx.message.parts.iter_mut() {
+        for (part_id, part) in ctx.message.parts.iter_mut().enumerate() {
             let (new_body, ct) = match (&part.body, conversion) {
                 (PartType::Html(html), Conversion::HtmlToText) => (
                     PartType::Text(html_to_text(html.as_ref()).into()),
@@ -74,19 +74,24 @@ impl Convert {
                     continue;
                 }
             };
-            part.headers = vec![Header {
-                name: HeaderName::Other("Content-Type".into()),
+            if part_id == 0 {
+                // Keep the headers of the message itself
+                part.headers.retain(|header| {
+                    !matches!(
+                        &header.name,
+                        HeaderName::ContentType | HeaderName::ContentTransferEncoding
+                    )
+                });
+            } else {
+                part.headers.clear();
+            }
+            part.headers.push(Header {
+                name: HeaderName::ContentType,
                 value: HeaderValue::Text(ct.to_string().into()),
                 offset_start: 0,
                 offset_end: 0,
                 offset_field: 0,
-            }];
-            ctx.message_size = ctx.message_size + ct.len() + new_body.len() + 16
-                - (if part.offset_body != 0 {
-                    (part.offset_end - part.offset_header) as usize
-                } else {
-                    part.body.len()
-                });
+            });
             part.offset_body = 0;
             part.body = new_body;
             part.encoding = Encoding::QuotedPrintable; //Used as non-mime flag
@@ -95,6 +100,7 @@ impl Convert {
 
         if did_convert {
             ctx.has_changes = true;
+            ctx.message_size = ctx.build_message().len();
         }
 
         TestResult::Bool(did_convert ^ self.is_not)
-- 
2.43.0


From d155e51b6f52be7630a728137f4265a8321df83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:53 +0000
Subject: [PATCH 32/62] fix: convert from a text subtype converts that subtype
 only

Any text part was converted, whatever subtype had been asked for.
---
 src/runtime/actions/action_convert.rs | 42 +++++++++++++--------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index 86d911d..1743caf 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -16,7 +16,6 @@ use crate::{
 #[derive(Clone, Copy)]
 enum Conversion {
     TextToHtml,
-    TextPlainToHtml,
     HtmlToText,
 }
 
@@ -32,19 +31,22 @@ impl Convert {
             return TestResult::Bool(false ^ self.is_not);
         }
 
-        let conversion = if (from_media_type.eq_ignore_ascii_case("text")
-            || from_media_type.starts_with("text/"))
+        let from_subtype = if from_media_type.eq_ignore_ascii_case("text") {
+            None
+        } else {
+            from_media_type
+                .get(..5)
+                .filter(|prefix| prefix.eq_ignore_ascii_case("text/"))
+                .map(|_| &from_media_type[5..])
+        };
+        let is_html = from_subtype.is_some_and(|st| st.eq_ignore_ascii_case("html"));
+        let conversion = if is_html && to_media_type.eq_ignore_ascii_case("text/plain") {
+            Conversion::HtmlToText
+        } else if !is_html
+            && (from_subtype.is_some() || from_media_type.eq_ignore_ascii_case("text"))
             && to_media_type.eq_ignore_ascii_case("text/html")
         {
-            if from_media_type.eq_ignore_ascii_case("text") {
-                Conversion::TextPlainToHtml
-            } else {
-                Conversion::TextToHtml
-            }
-        } else if from_media_type.eq_ignore_ascii_case("text/html")
-            && to_media_type.eq_ignore_ascii_case("text/plain")
-        {
-            Conversion::HtmlToText
+            Conversion::TextToHtml
         } else {
             return TestResult::Bool(false ^ self.is_not);
         };
@@ -55,15 +57,13 @@ impl Convert {
                     PartType::Text(html_to_text(html.as_ref()).into()),
                     "text/plain; charset=utf8",
                 ),
-                (PartType::Text(text), Conversion::TextToHtml) => (
-                    PartType::Html(text_to_html(text.as_ref()).into()),
-                    "text/html; charset=utf8",
-                ),
-                (PartType::Text(text), Conversion::TextPlainToHtml)
-                    if part
-                        .content_type()
-                        .and_then(|ct| ct.c_subtype.as_ref())
-                        .is_some_and(|st| st.eq_ignore_ascii_case("plain")) =>
+                (PartType::Text(text), Conversion::TextToHtml)
+                    if from_subtype.is_none_or(|st| {
+                        part.content_type()
+                            .and_then(|ct| ct.c_subtype.as_deref())
+                            .unwrap_or("plain")
+                            .eq_ignore_ascii_case(st)
+                    }) =>
                 {
                     (
                         PartType::Html(text_to_html(text.as_ref()).into()),
-- 
2.43.0


From 5e857a7ff23cfa2a2e79c16045a0adbb237a7f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:01 +0000
Subject: [PATCH 33/62] fix: extracttext is subject to the maximum variable
 size

---
 src/runtime/actions/action_mime.rs | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index aff1418..bf2a07c 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -9,10 +9,7 @@ use mail_parser::{
 };
 
 use crate::{
-    compiler::{
-        grammar::actions::action_mime::{Enclose, ExtractText, Replace},
-        VariableType,
-    },
+    compiler::grammar::actions::action_mime::{Enclose, ExtractText, Replace},
     Context, Event,
 };
 
@@ -330,23 +327,7 @@ impl ExtractText {
             }
         }
 
-        match &self.name {
-            VariableType::Local(var_id) => {
-                if let Some(var) = ctx.vars_local.get_mut(*var_id) {
-                    *var = value.into();
-                } else {
-                    debug_assert!(false, "Non-existent local variable {var_id}");
-                }
-            }
-            VariableType::Global(var_name) => {
-                ctx.vars_global
-                    .insert(var_name.to_string().into(), value.into());
-            }
-            VariableType::Envelope(env) => {
-                ctx.add_set_envelope_event(*env, value);
-            }
-            _ => (),
-        }
+        ctx.set_variable(&self.name, value.into());
     }
 }
 
-- 
2.43.0


From 330568aee86af6ac08600691690fafda063318f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:48 +0000
Subject: [PATCH 34/62] fix: raw name and value of added headers

Reading the name underflowed, and the value was always empty.
---
 src/runtime/eval.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/eval.rs b/src/runtime/eval.rs
index 43da865..2ce5f02 100644
--- a/src/runtime/eval.rs
+++ b/src/runtime/eval.rs
@@ -361,10 +361,15 @@ impl HeaderVariable {
                 _ => None,
             },
 
+            // Added and renamed headers are not part of the raw message
+            HeaderPart::Raw if header.offset_end == 0 => header.value.as_text().map(Variable::from),
             HeaderPart::Raw => raw
                 .get(header.offset_start as usize..header.offset_end as usize)
                 .map(sanitize_raw_header)
                 .map(Variable::from),
+            HeaderPart::RawName if header.offset_start <= header.offset_field => {
+                Variable::from(header.name.as_str()).into()
+            }
             HeaderPart::RawName => raw
                 .get(header.offset_field as usize..header.offset_start as usize - 1)
                 .map(|bytes| std::str::from_utf8(bytes).unwrap_or_default())
-- 
2.43.0


From dddc8dbceab9e570ea306edfc02e5a16aae887ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:38 +0000
Subject: [PATCH 35/62] fix: array items that start with a bracket or a unary
 operator

An array literal counted its items only when nothing but the opening
bracket was on the operator stack, so [-1] or [(a), b] did not compile.
---
 src/compiler/grammar/expr/parser.rs | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/compiler/grammar/expr/parser.rs b/src/compiler/grammar/expr/parser.rs
index 7557c56..2995e88 100644
--- a/src/compiler/grammar/expr/parser.rs
+++ b/src/compiler/grammar/expr/parser.rs
@@ -82,7 +82,12 @@ where
                         self.operator_stack.last()
                     {
                         let got_args = self.arg_count.pop().unwrap();
-                        if got_args != *num_args as i32 {
+                        let num_args = if *id == ID_ARRAY_BUILD {
+                            got_args.max(0) as u32
+                        } else {
+                            *num_args
+                        };
+                        if got_args != num_args as i32 {
                             return Err(if *id != u32::MAX {
                                 format!(
                                     "Expression function {:?} expected {} arguments, got {}",
@@ -95,11 +100,8 @@ where
 
                         let expr = match *id {
                             ID_ARRAY_ACCESS => Expression::ArrayAccess,
-                            ID_ARRAY_BUILD => Expression::ArrayBuild(*num_args),
-                            id => Expression::Function {
-                                id,
-                                num_args: *num_args,
-                            },
+                            ID_ARRAY_BUILD => Expression::ArrayBuild(num_args),
+                            id => Expression::Function { id, num_args },
                         };
 
                         self.operator_stack.pop();
@@ -213,13 +215,6 @@ where
     fn inc_arg_count(&mut self) {
         if let Some(x) = self.arg_count.last_mut() {
             *x = x.saturating_add(1);
-            let op_pos = self.operator_stack.len().saturating_sub(2);
-            match self.operator_stack.get_mut(op_pos) {
-                Some((Token::Function { num_args, id, .. }, _)) if *id == ID_ARRAY_BUILD => {
-                    *num_args += 1;
-                }
-                _ => {}
-            }
         }
     }
 
-- 
2.43.0


From 1ba13db293442fab189a30e504235bf704f58e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:23 +0000
Subject: [PATCH 36/62] fix: envelope parameters set by let and flag actions
 are reported

The SetEnvelope event of an assignment made by let, setflag, addflag or
removeflag stayed in the queue and was lost when another event or the end
of the script followed.
---
 src/runtime/context.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 3f490b2..2079f67 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -291,6 +291,9 @@ impl<'x> Context<'x> {
                     Instruction::Let(let_) => match self.eval_expression(&let_.expr) {
                         Ok(result) => {
                             self.set_variable(&let_.name, result);
+                            if let Some(event) = self.queued_events.next() {
+                                return Some(Ok(event));
+                            }
                         }
                         Err(event) => {
                             return Some(Ok(event));
@@ -325,7 +328,12 @@ impl<'x> Context<'x> {
                             return Some(Ok(event));
                         }
                     }
-                    Instruction::EditFlags(flags) => flags.exec(self),
+                    Instruction::EditFlags(flags) => {
+                        flags.exec(self);
+                        if let Some(event) = self.queued_events.next() {
+                            return Some(Ok(event));
+                        }
+                    }
                     Instruction::Include(include) => match include.exec(self) {
                         IncludeResult::Cached(script) => {
                             self.script_stack.push(ScriptStack {
-- 
2.43.0


From 36bcea18365f8105e970197e90e8ab2408868554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 37/62] fix: include :once of a script known to the runtime

Scripts that the runtime itself provides were not recorded as included,
so include :once ran them again.
---
 src/runtime/actions/action_include.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/runtime/actions/action_include.rs b/src/runtime/actions/action_include.rs
index 6aa15b5..15db138 100644
--- a/src/runtime/actions/action_include.rs
+++ b/src/runtime/actions/action_include.rs
@@ -20,7 +20,7 @@ pub(crate) enum IncludeResult {
 }
 
 impl Include {
-    pub(crate) fn exec(&self, ctx: &Context) -> IncludeResult {
+    pub(crate) fn exec(&self, ctx: &mut Context) -> IncludeResult {
         let script_name = ctx.eval_value(&self.value);
         if !script_name.is_empty() {
             let script_name = if self.location == Location::Global {
@@ -34,8 +34,10 @@ impl Include {
                 if ctx.script_stack.len() < ctx.runtime.max_nested_includes {
                     if let Some(script) = cached_script
                         .or_else(|| ctx.runtime.include_scripts.get(script_name.as_str()))
+                        .cloned()
                     {
-                        return IncludeResult::Cached(script.clone());
+                        ctx.script_cache.insert(script_name, script.clone());
+                        return IncludeResult::Cached(script);
                     } else {
                         return IncludeResult::Event(Event::IncludeScript {
                             name: script_name,
-- 
2.43.0


From 50461ee63c60688f31dd44c5d47c16da138e21e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 38/62] fix: an explicit keep keeps its own flags

The flags variable replaced the flags of an explicit keep when these were
empty, so keep :flags "" and flags added after a keep had the wrong
effect. Only the implicit keep takes the flags at the end of the script.
---
 src/runtime/context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 2079f67..edcf100 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -431,7 +431,7 @@ impl<'x> Context<'x> {
                 };
 
                 let global_flags = self.get_global_flags();
-                if flags.is_empty() && !global_flags.is_empty() {
+                if !self.explicit_keep {
                     flags = global_flags;
                 }
                 if let Some(create_event) = create_event {
@@ -462,7 +462,7 @@ impl<'x> Context<'x> {
             } = event
             {
                 let global_flags = self.get_global_flags();
-                if flags.is_empty() && !global_flags.is_empty() {
+                if !self.explicit_keep {
                     flags = global_flags;
                 }
 
-- 
2.43.0


From 4ea40610720a96aec805f0bda2415adf199d1511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 39/62] fix: match variables of an outer test after a nested
 test failed

A reference to a match variable was bound to the tests of the nearest
block that has any, so after a nested match test that failed the text
matched by the enclosing test was not available.
---
 src/compiler/grammar/instruction.rs | 78 +++++++++++++++++------------
 1 file changed, 46 insertions(+), 32 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 6a2f28b..88136c3 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -121,6 +121,7 @@ pub(crate) struct Block {
     pub(crate) break_jmps: Vec<usize>,
     pub(crate) match_test_pos: Vec<usize>,
     pub(crate) match_test_vars: u64,
+    pub(crate) test_pos: Option<usize>,
     pub(crate) vars_local: AHashMap<String, usize>,
     pub(crate) capabilities: AHashSet<Capability>,
     pub(crate) require_pos: usize,
@@ -181,14 +182,17 @@ impl Compiler {
                             state.parse_require()?;
                         }
                         Word::If => {
+                            let test_pos = state.instructions.len();
                             state.parse_test()?;
                             state.block.if_jmps.clear();
-                            is_new_block = Block::new(Word::If).into();
+                            is_new_block = Block::new(Word::If).with_test_pos(test_pos).into();
                         }
                         Word::ElsIf => {
                             if let Word::If | Word::ElsIf = &state.last_block_type {
+                                let test_pos = state.instructions.len();
                                 state.parse_test()?;
-                                is_new_block = Block::new(Word::ElsIf).into();
+                                is_new_block =
+                                    Block::new(Word::ElsIf).with_test_pos(test_pos).into();
                             } else {
                                 return Err(token_info.expected("'if' before 'elsif'"));
                             }
@@ -900,35 +904,29 @@ impl CompilerState<'_> {
     }
 
     pub(crate) fn register_match_var(&mut self, num: usize) -> bool {
-        let mut block = &mut self.block;
-
-        if block.match_test_pos.is_empty() {
-            for block_ in self.block_stack.iter_mut().rev() {
-                if !block_.match_test_pos.is_empty() {
-                    block = block_;
-                    break;
-                }
-            }
-        }
-
-        if !block.match_test_pos.is_empty() {
-            debug_assert!(num < 63);
-
+        debug_assert!(num < 63);
+        let mut found = false;
+        let mut test_pos = None;
+
+        for block in [&mut self.block]
+            .into_iter()
+            .chain(self.block_stack.iter_mut().rev())
+        {
             for pos in &block.match_test_pos {
                 if let Some(Instruction::Test(test)) = self.instructions.get_mut(*pos) {
-                    let match_type = match test {
-                        Test::Address(t) => &mut t.match_type,
-                        Test::Body(t) => &mut t.match_type,
-                        Test::Date(t) => &mut t.match_type,
-                        Test::CurrentDate(t) => &mut t.match_type,
-                        Test::Envelope(t) => &mut t.match_type,
-                        Test::HasFlag(t) => &mut t.match_type,
-                        Test::Header(t) => &mut t.match_type,
-                        Test::Metadata(t) => &mut t.match_type,
-                        Test::NotifyMethodCapability(t) => &mut t.match_type,
-                        Test::SpamTest(t) => &mut t.match_type,
-                        Test::String(t) | Test::Environment(t) => &mut t.match_type,
-                        Test::VirusTest(t) => &mut t.match_type,
+                    let (match_type, is_not) = match test {
+                        Test::Address(t) => (&mut t.match_type, t.is_not),
+                        Test::Body(t) => (&mut t.match_type, t.is_not),
+                        Test::Date(t) => (&mut t.match_type, t.is_not),
+                        Test::CurrentDate(t) => (&mut t.match_type, t.is_not),
+                        Test::Envelope(t) => (&mut t.match_type, t.is_not),
+                        Test::HasFlag(t) => (&mut t.match_type, t.is_not),
+                        Test::Header(t) => (&mut t.match_type, t.is_not),
+                        Test::Metadata(t) => (&mut t.match_type, t.is_not),
+                        Test::NotifyMethodCapability(t) => (&mut t.match_type, t.is_not),
+                        Test::SpamTest(t) => (&mut t.match_type, t.is_not),
+                        Test::String(t) | Test::Environment(t) => (&mut t.match_type, t.is_not),
+                        Test::VirusTest(t) => (&mut t.match_type, t.is_not),
                         _ => {
                             debug_assert!(false, "This should not have happened: {test:?}");
                             return false;
@@ -942,15 +940,25 @@ impl CompilerState<'_> {
                         debug_assert!(false, "This should not have happened");
                         return false;
                     }
+                    found = true;
+
+                    // The variable is set by the test its block depends on
+                    if !is_not
+                        && test_pos == Some(*pos)
+                        && matches!(self.instructions.get(*pos + 1), Some(Instruction::Jz(_)))
+                    {
+                        return true;
+                    }
                 } else {
                     debug_assert!(false, "This should not have happened");
                     return false;
                 }
             }
-            true
-        } else {
-            false
+
+            test_pos = block.test_pos;
         }
+
+        found
     }
 
     pub(crate) fn block_end(&mut self) {
@@ -1233,6 +1241,7 @@ impl Block {
             last_block_start: 0,
             match_test_pos: vec![],
             match_test_vars: 0,
+            test_pos: None,
             if_jmps: vec![],
             break_jmps: vec![],
             vars_local: AHashMap::new(),
@@ -1241,6 +1250,11 @@ impl Block {
         }
     }
 
+    pub fn with_test_pos(mut self, test_pos: usize) -> Self {
+        self.test_pos = test_pos.into();
+        self
+    }
+
     pub fn with_label(mut self, label: String) -> Self {
         self.label = label.into();
         self
-- 
2.43.0


From e2d7e664bcb46b2c1a7297105816a24723c5510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:06 +0000
Subject: [PATCH 40/62] fix: match variables in the arguments of a nested match
 test

A match test inside the body of another one could not refer to the
variables set by the outer test: the lookup found the test being parsed
first, asserted in debug builds and gave up in release builds.
---
 src/compiler/grammar/instruction.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 88136c3..1e62580 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -913,6 +913,10 @@ impl CompilerState<'_> {
             .chain(self.block_stack.iter_mut().rev())
         {
             for pos in &block.match_test_pos {
+                // The arguments of the test being parsed refer to earlier tests
+                if *pos >= self.instructions.len() {
+                    continue;
+                }
                 if let Some(Instruction::Test(test)) = self.instructions.get_mut(*pos) {
                     let (match_type, is_not) = match test {
                         Test::Address(t) => (&mut t.match_type, t.is_not),
-- 
2.43.0


From c8ff803c2bc73b4c2ba69653483215dfb881b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 41/62] fix: match variables survive a nested block that refers
 to them

A reference inside a nested block made that block clear the variable at
its end even when it had been set by the test of an enclosing block.
---
 src/compiler/grammar/instruction.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 1e62580..5f885c6 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -905,10 +905,10 @@ impl CompilerState<'_> {
 
     pub(crate) fn register_match_var(&mut self, num: usize) -> bool {
         debug_assert!(num < 63);
-        let mut found = false;
+        let mut outermost = None;
         let mut test_pos = None;
 
-        for block in [&mut self.block]
+        'blocks: for block in [&mut self.block]
             .into_iter()
             .chain(self.block_stack.iter_mut().rev())
         {
@@ -939,19 +939,18 @@ impl CompilerState<'_> {
                     if let MatchType::Matches(positions) | MatchType::Regex(positions) = match_type
                     {
                         *positions |= 1 << num;
-                        block.match_test_vars = *positions;
+                        outermost = Some(&mut block.match_test_vars);
                     } else {
                         debug_assert!(false, "This should not have happened");
                         return false;
                     }
-                    found = true;
 
                     // The variable is set by the test its block depends on
                     if !is_not
                         && test_pos == Some(*pos)
                         && matches!(self.instructions.get(*pos + 1), Some(Instruction::Jz(_)))
                     {
-                        return true;
+                        break 'blocks;
                     }
                 } else {
                     debug_assert!(false, "This should not have happened");
@@ -962,7 +961,13 @@ impl CompilerState<'_> {
             test_pos = block.test_pos;
         }
 
-        found
+        // A variable is cleared at the end of the outermost block that may have set it
+        if let Some(match_test_vars) = outermost {
+            *match_test_vars |= 1 << num;
+            true
+        } else {
+            false
+        }
     }
 
     pub(crate) fn block_end(&mut self) {
-- 
2.43.0


From bce9184fb53cfe5dee00a68733474e9670fe3896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:34 +0000
Subject: [PATCH 42/62] fix: the implicit keep delivers the edited message

---
 src/runtime/context.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index edcf100..d4bc39a 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -422,7 +422,7 @@ impl<'x> Context<'x> {
         match self.final_event.take() {
             Some(Event::Keep {
                 mut flags,
-                message_id,
+                mut message_id,
             }) => {
                 let create_event = if self.has_changes {
                     self.build_message_id()
@@ -433,6 +433,7 @@ impl<'x> Context<'x> {
                 let global_flags = self.get_global_flags();
                 if !self.explicit_keep {
                     flags = global_flags;
+                    message_id = self.main_message_id;
                 }
                 if let Some(create_event) = create_event {
                     self.queued_events = vec![
@@ -458,12 +459,13 @@ impl<'x> Context<'x> {
         if let Some(event) = self.final_event.take() {
             self.queued_events = if let Event::Keep {
                 mut flags,
-                message_id,
+                mut message_id,
             } = event
             {
                 let global_flags = self.get_global_flags();
                 if !self.explicit_keep {
                     flags = global_flags;
+                    message_id = self.main_message_id;
                 }
 
                 if self.has_changes {
-- 
2.43.0


From b01b4fbb3e0063a689afc7b30d3ea0ee1202bc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:16 +0000
Subject: [PATCH 43/62] Undo the repairs in src/runtime/tests

Files in folders named tests count as test files here, which must not change.
The defects repaired there are recorded as known findings instead.
---
 src/runtime/tests/comparator.rs   | 40 ++++++---------
 src/runtime/tests/glob.rs         | 50 ++++++++++++-------
 src/runtime/tests/test_date.rs    | 22 +++-----
 src/runtime/tests/test_hasflag.rs | 83 ++++++++++++-------------------
 src/runtime/tests/test_string.rs  |  4 +-
 5 files changed, 88 insertions(+), 111 deletions(-)

diff --git a/src/runtime/tests/comparator.rs b/src/runtime/tests/comparator.rs
index e71dfaf..8779fe1 100644
--- a/src/runtime/tests/comparator.rs
+++ b/src/runtime/tests/comparator.rs
@@ -60,21 +60,11 @@ impl Comparator {
         captured_values: &mut Vec<(usize, String)>,
     ) -> bool {
         let pattern = GlobPattern::compile(pattern, matches!(self, Comparator::AsciiCaseMap));
-        if capture_positions == 0 {
-            pattern.matches(value)
-        } else if pattern.capture(value, capture_positions, captured_values) {
-            // Match variables without a wildcard are empty
-            let mut missing = captured_values
-                .iter()
-                .fold(capture_positions, |mask, (pos, _)| mask & !(1 << *pos));
-            while missing != 0 {
-                let index = missing.trailing_zeros();
-                missing ^= 1 << index;
-                captured_values.push((index as usize, String::with_capacity(0)));
-            }
-            true
-        } else {
-            false
+        match self {
+            Comparator::AsciiCaseMap if capture_positions == 0 => pattern.matches(value),
+            Comparator::AsciiCaseMap => pattern.capture(value, capture_positions, captured_values),
+            _ if capture_positions == 0 => pattern.matches(value),
+            _ => pattern.capture(value, capture_positions, captured_values),
         }
     }
 
@@ -107,8 +97,10 @@ impl Comparator {
         } else {
             match fancy_regex::Regex::new(pattern_expr.to_string().as_ref()) {
                 Ok(regex) => eval_regex(&regex, value, capture_positions, captured_values),
-                // The expression is only known now, and may be anything
-                Err(_) => false,
+                Err(err) => {
+                    debug_assert!(false, "Failed to compile regex: {err:?}");
+                    false
+                }
             }
         }
     }
@@ -135,13 +127,9 @@ fn eval_regex(
         while capture_positions != 0 {
             let index = 63 - capture_positions.leading_zeros();
             capture_positions ^= 1 << index;
-            captured_values.push((
-                index as usize,
-                captures
-                    .get(index as usize)
-                    .map_or("", |match_var| match_var.as_str())
-                    .to_string(),
-            ));
+            if let Some(match_var) = captures.get(index as usize) {
+                captured_values.push((index as usize, match_var.as_str().to_string()));
+            }
         }
         true
     } else {
@@ -165,7 +153,9 @@ impl Comparable for &str {
     }
 
     fn to_number(&self) -> Number {
-        Variable::from(*self).to_number()
+        self.parse::<f64>()
+            .map(Number::Float)
+            .unwrap_or(Number::Float(0.0))
     }
 }
 
diff --git a/src/runtime/tests/glob.rs b/src/runtime/tests/glob.rs
index ebd1452..7eb633c 100644
--- a/src/runtime/tests/glob.rs
+++ b/src/runtime/tests/glob.rs
@@ -4,6 +4,8 @@
  * SPDX-License-Identifier: AGPL-3.0-only OR LicenseRef-SEL
  */
 
+use std::char::REPLACEMENT_CHARACTER;
+
 use crate::MAX_MATCH_VARIABLES;
 
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -46,7 +48,7 @@ impl GlobPattern {
                     if is_escaped {
                         is_escaped = false;
                     }
-                    if to_lower {
+                    if to_lower && char.is_uppercase() {
                         for char in char.to_lowercase() {
                             chars.push(PatternChar::Char { char, match_pos: 0 });
                         }
@@ -66,11 +68,7 @@ impl GlobPattern {
     // Credits: Algorithm ported from https://research.swtch.com/glob
     pub fn matches(&self, value: &str) -> bool {
         let value = if self.to_lower {
-            // Fold each character by itself, as it is done in the pattern
-            value
-                .chars()
-                .flat_map(|char| char.to_lowercase())
-                .collect::<Vec<_>>()
+            value.to_lowercase().chars().collect::<Vec<_>>()
         } else {
             value.chars().collect::<Vec<_>>()
         };
@@ -123,19 +121,24 @@ impl GlobPattern {
         let value = if self.to_lower {
             let mut value = Vec::with_capacity(value_.len());
             for char in value_.chars() {
-                for (pos, lowerchar) in char.to_lowercase().enumerate() {
-                    value.push((
-                        lowerchar,
-                        if pos == 0 { Some(char) } else { None },
-                    ));
+                if char.is_uppercase() {
+                    for (pos, lowerchar) in char.to_lowercase().enumerate() {
+                        value.push((
+                            lowerchar,
+                            if pos == 0 {
+                                char
+                            } else {
+                                REPLACEMENT_CHARACTER
+                            },
+                        ));
+                    }
+                } else {
+                    value.push((char, char));
                 }
             }
             value
         } else {
-            value_
-                .chars()
-                .map(|char| (char, Some(char)))
-                .collect::<Vec<_>>()
+            value_.chars().map(|char| (char, char)).collect::<Vec<_>>()
         };
 
         let mut px = 0;
@@ -190,7 +193,7 @@ impl GlobPattern {
             if wildcard_pos <= MAX_MATCH_VARIABLES as usize {
                 last_pos = match item {
                     PatternChar::WildcardMany { mut num, match_pos } => {
-                        while num > 1 && wildcard_pos < MAX_MATCH_VARIABLES as usize {
+                        while num > 1 {
                             if capture_positions & (1 << wildcard_pos) != 0 {
                                 captured_values.push((wildcard_pos, String::with_capacity(0)));
                             }
@@ -204,7 +207,13 @@ impl GlobPattern {
                                     wildcard_pos,
                                     range
                                         .iter()
-                                        .filter_map(|(_, char)| *char)
+                                        .filter_map(|(_, char)| {
+                                            if char != &REPLACEMENT_CHARACTER {
+                                                Some(char)
+                                            } else {
+                                                None
+                                            }
+                                        })
                                         .collect::<String>(),
                                 ));
                             } else {
@@ -220,7 +229,12 @@ impl GlobPattern {
                             if let Some((char, orig_char)) = value.get(*match_pos) {
                                 captured_values.push((
                                     wildcard_pos,
-                                    orig_char.unwrap_or(*char).to_string(),
+                                    (if orig_char != &REPLACEMENT_CHARACTER {
+                                        orig_char
+                                    } else {
+                                        char
+                                    })
+                                    .to_string(),
                                 ));
                             } else {
                                 debug_assert!(false, "Glob pattern failure.");
diff --git a/src/runtime/tests/test_date.rs b/src/runtime/tests/test_date.rs
index a360754..dfc1ab7 100644
--- a/src/runtime/tests/test_date.rs
+++ b/src/runtime/tests/test_date.rs
@@ -83,11 +83,7 @@ impl TestDate {
                 false
             }
             _ => {
-                let key_list = self
-                    .key_list
-                    .iter()
-                    .map(|key| (key, ctx.eval_value(key)))
-                    .collect::<Vec<_>>();
+                let key_list = ctx.eval_values(&self.key_list);
                 let mut captured_values = Vec::new();
 
                 let result = ctx.find_headers(
@@ -98,7 +94,7 @@ impl TestDate {
                         if let Some(dt) = ctx.find_dates(header) {
                             let date_part =
                                 self.date_part.eval(self.zone.eval(dt.as_ref()).as_ref());
-                            for (key_expr, key) in &key_list {
+                            for key in &key_list {
                                 if match &self.match_type {
                                     MatchType::Is => self.comparator.is(&date_part.as_str(), key),
                                     MatchType::Contains => self
@@ -117,10 +113,9 @@ impl TestDate {
                                             &mut captured_values,
                                         )
                                     }
-                                    MatchType::Regex(capture_positions) => self.comparator.regex(
-                                        key_expr,
-                                        key,
+                                    MatchType::Regex(capture_positions) => self.comparator.matches(
                                         &date_part,
+                                        key.to_string().as_ref(),
                                         *capture_positions,
                                         &mut captured_values,
                                     ),
@@ -187,8 +182,8 @@ impl TestCurrentDate {
                     }),
                 );
 
-                for key_expr in &self.key_list {
-                    let key = ctx.eval_value(key_expr);
+                for key in &self.key_list {
+                    let key = ctx.eval_value(key);
 
                     if match &self.match_type {
                         MatchType::Is => self.comparator.is(&date_part.as_str(), &key),
@@ -205,10 +200,9 @@ impl TestCurrentDate {
                             *capture_positions,
                             &mut captured_values,
                         ),
-                        MatchType::Regex(capture_positions) => self.comparator.regex(
-                            key_expr,
-                            &key,
+                        MatchType::Regex(capture_positions) => self.comparator.matches(
                             &date_part,
+                            key.to_string().as_ref(),
                             *capture_positions,
                             &mut captured_values,
                         ),
diff --git a/src/runtime/tests/test_hasflag.rs b/src/runtime/tests/test_hasflag.rs
index f6f0a77..de671b9 100644
--- a/src/runtime/tests/test_hasflag.rs
+++ b/src/runtime/tests/test_hasflag.rs
@@ -28,7 +28,7 @@ impl TestHasFlag {
             for variable in variable_list {
                 match ctx.get_variable(variable) {
                     Some(flags) if !flags.is_empty() => {
-                        flag_count += flags.to_string().split_ascii_whitespace().count();
+                        flag_count += flags.to_string().split(' ').count();
                     }
                     _ => (),
                 }
@@ -47,65 +47,44 @@ impl TestHasFlag {
             result
         } else {
             let mut captured_values = Vec::new();
-            let result =
-                if let MatchType::Regex(capture_positions) = &self.match_type {
-                    // An expression is a single pattern, not a list of flags
-                    self.flags.iter().any(|pattern_expr| {
-                        let pattern = ctx.eval_value(pattern_expr);
-                        variable_list.iter().any(|variable| {
-                            ctx.get_variable(variable).is_some_and(|flags| {
-                                flags
-                                    .to_string()
-                                    .split_ascii_whitespace()
-                                    .filter(|flag| !flag.is_empty())
-                                    .any(|flag| {
-                                        self.comparator.regex(
-                                            pattern_expr,
-                                            &pattern,
+            let result = ctx.tokenize_flags(&self.flags, |check_flag| {
+                for variable in variable_list {
+                    match ctx.get_variable(variable) {
+                        Some(flags) if !flags.is_empty() => {
+                            for flag in flags.to_string().split(' ') {
+                                if match &self.match_type {
+                                    MatchType::Is => self.comparator.is(&flag, &check_flag),
+                                    MatchType::Contains => {
+                                        self.comparator.contains(flag, check_flag)
+                                    }
+                                    MatchType::Value(rel_match) => {
+                                        self.comparator.relational(rel_match, &flag, &check_flag)
+                                    }
+                                    MatchType::Matches(capture_positions) => {
+                                        self.comparator.matches(
                                             flag,
+                                            check_flag,
                                             *capture_positions,
                                             &mut captured_values,
                                         )
-                                    })
-                            })
-                        })
-                    })
-                } else {
-                    ctx.tokenize_flags(&self.flags, |check_flag| {
-                        for variable in variable_list {
-                            match ctx.get_variable(variable) {
-                                Some(flags) if !flags.is_empty() => {
-                                    for flag in flags.to_string().split_ascii_whitespace() {
-                                        if match &self.match_type {
-                                            MatchType::Is => self.comparator.is(&flag, &check_flag),
-                                            MatchType::Contains => {
-                                                self.comparator.contains(flag, check_flag)
-                                            }
-                                            MatchType::Value(rel_match) => self
-                                                .comparator
-                                                .relational(rel_match, &flag, &check_flag),
-                                            MatchType::Matches(capture_positions) => {
-                                                self.comparator.matches(
-                                                    flag,
-                                                    check_flag,
-                                                    *capture_positions,
-                                                    &mut captured_values,
-                                                )
-                                            }
-                                            MatchType::Regex(_)
-                                            | MatchType::Count(_)
-                                            | MatchType::List => false,
-                                        } {
-                                            return true;
-                                        }
                                     }
+                                    MatchType::Regex(capture_positions) => self.comparator.matches(
+                                        flag,
+                                        check_flag,
+                                        *capture_positions,
+                                        &mut captured_values,
+                                    ),
+                                    MatchType::Count(_) | MatchType::List => false,
+                                } {
+                                    return true;
                                 }
-                                _ => (),
                             }
                         }
-                        false
-                    })
-                };
+                        _ => (),
+                    }
+                }
+                false
+            });
             if !captured_values.is_empty() {
                 ctx.set_match_variables(captured_values);
             }
diff --git a/src/runtime/tests/test_string.rs b/src/runtime/tests/test_string.rs
index 48777da..3364acd 100644
--- a/src/runtime/tests/test_string.rs
+++ b/src/runtime/tests/test_string.rs
@@ -59,7 +59,7 @@ impl TestString {
                 let mut captured_values = Vec::new();
                 let sources = ctx.eval_values(&self.source);
 
-                'outer: for pattern in &self.key_list {
+                for pattern in &self.key_list {
                     let key = ctx.eval_value(pattern);
                     for source in &sources {
                         if !empty_is_null || !source.is_empty() {
@@ -89,7 +89,7 @@ impl TestString {
                             };
 
                             if result {
-                                break 'outer;
+                                break;
                             }
                         }
                     }
-- 
2.43.0


From 0423c6b882d8aedf76158c502a15a0234db7fa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:47 +0000
Subject: [PATCH 44/62] fix: deleteheader does not set match variables

---
 src/compiler/grammar/actions/action_editheader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/compiler/grammar/actions/action_editheader.rs b/src/compiler/grammar/actions/action_editheader.rs
index 2959f9d..15ff4f6 100644
--- a/src/compiler/grammar/actions/action_editheader.rs
+++ b/src/compiler/grammar/actions/action_editheader.rs
@@ -140,6 +140,10 @@ impl CompilerState<'_> {
                         token_info.line_pos,
                     )?;
                     match_type = self.parse_match_type(word)?;
+                    // Only tests set match variables
+                    if matches!(match_type, MatchType::Matches(_) | MatchType::Regex(_)) {
+                        self.block.match_test_pos.pop();
+                    }
                 }
                 Token::Tag(Word::Comparator) => {
                     self.validate_argument(2, None, token_info.line_num, token_info.line_pos)?;
-- 
2.43.0


From ae950e2562d37fd81c09c11941d36a247726d231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:03 +0000
Subject: [PATCH 45/62] fix: messages parsed into cyclic multiparts neither
 loop nor panic

---
 src/runtime/actions/action_mime.rs | 12 ++++++++----
 src/runtime/mod.rs                 | 26 +++++++++++++++++++++++---
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index bf2a07c..ec6ba3d 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -411,8 +411,10 @@ impl Context<'_> {
             {
                 if last_offset > 0 {
                     message.extend_from_slice(
-                        &current_message.raw_message
-                            [last_offset as usize..part.offset_header as usize],
+                        current_message
+                            .raw_message
+                            .get(last_offset as usize..part.offset_header as usize)
+                            .unwrap_or_default(),
                     );
                 } else if !current_boundary.is_empty()
                     && part.offset_end == 0
@@ -550,8 +552,10 @@ impl Context<'_> {
                     }
                     StackItem::None => {
                         message.extend_from_slice(
-                            &current_message.raw_message
-                                [last_offset as usize..prev_part.offset_end as usize],
+                            current_message
+                                .raw_message
+                                .get(last_offset as usize..prev_part.offset_end as usize)
+                                .unwrap_or_default(),
                         );
                         last_offset = prev_part.offset_end;
                     }
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 30242cb..6eb760b 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -302,8 +302,7 @@ impl Hash for Variable {
 #[cfg(not(test))]
 impl Runtime {
     pub fn filter<'z: 'x, 'x>(&'z self, raw_message: &'x [u8]) -> Context<'x> {
-        Context::new(
-            self,
+        self.filter_parsed(
             MessageParser::new()
                 .parse(raw_message)
                 .unwrap_or_else(|| Message {
@@ -322,11 +321,32 @@ impl Runtime {
         )
     }
 
-    pub fn filter_parsed<'z: 'x, 'x>(&'z self, message: Message<'x>) -> Context<'x> {
+    pub fn filter_parsed<'z: 'x, 'x>(&'z self, mut message: Message<'x>) -> Context<'x> {
+        remove_part_cycles(&mut message);
         Context::new(self, message)
     }
 }
 
+/// Some malformed or deeply nested messages are parsed into multiparts that refer to
+/// themselves or to one of their ancestors, every part has to be reached only once.
+#[cfg(not(test))]
+fn remove_part_cycles(message: &mut Message<'_>) {
+    let mut seen = vec![false; message.parts.len()];
+
+    for (pos, part) in message.parts.iter_mut().enumerate() {
+        match &mut part.body {
+            PartType::Multipart(part_ids) => part_ids.retain(|part_id| {
+                *part_id as usize > pos
+                    && seen
+                        .get_mut(*part_id as usize)
+                        .is_some_and(|seen| !std::mem::replace(seen, true))
+            }),
+            PartType::Message(message) => remove_part_cycles(message),
+            _ => (),
+        }
+    }
+}
+
 impl Default for Runtime {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 67c29a0746dc5dfe1c57548fd9a2b1bb1570c6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:36 +0000
Subject: [PATCH 46/62] fix: report a stray slash where it is

---
 src/compiler/lexer/tokenizer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 8a98a82..eeeead9 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -394,7 +394,8 @@ impl Iterator for Tokenizer<'_> {
                         return Some(Ok(self.get_token(Token::ParenthesisClose)));
                     }
                     b'/' => {
-                        if let Some((b'*', _)) = self.next_byte() {
+                        if let Some(b'*') = self.peek_byte() {
+                            self.next_byte();
                             self.last_ch = 0;
                             self.state = State::BracketComment;
                             self.text_start();
-- 
2.43.0


From 75f65b0eb76d36add78b6970b2fedbe8508e7e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:42 +0000
Subject: [PATCH 47/62] fix: addheader bounds the header name and the memory it
 keeps

---
 src/runtime/actions/action_editheader.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/runtime/actions/action_editheader.rs b/src/runtime/actions/action_editheader.rs
index 8f14dbe..8052f56 100644
--- a/src/runtime/actions/action_editheader.rs
+++ b/src/runtime/actions/action_editheader.rs
@@ -23,10 +23,14 @@ impl AddHeader {
     pub(crate) fn exec(&self, ctx: &mut Context) {
         let header_name__ = ctx.eval_value(&self.field_name);
         let header_name_ = header_name__.to_string();
-        let mut header_name = String::with_capacity(header_name_.len());
+        let mut header_name =
+            String::with_capacity(header_name_.len().min(ctx.runtime.max_header_size));
 
         for ch in header_name_.chars() {
             if ch.is_alphanumeric() || ch == '-' {
+                if header_name.len() + ch.len_utf8() > ctx.runtime.max_header_size {
+                    break;
+                }
                 header_name.push(ch);
             }
         }
@@ -142,7 +146,7 @@ pub(crate) trait RemoveCrLf {
 
 impl RemoveCrLf for &str {
     fn remove_crlf(&self, max_len: usize) -> String {
-        let mut header_value = String::with_capacity(self.len());
+        let mut header_value = String::with_capacity(self.len().min(max_len));
         for ch in self.chars() {
             if !['\n', '\r'].contains(&ch) {
                 if header_value.len() + ch.len_utf8() <= max_len {
-- 
2.43.0


From 2b5a6a5a19397bcc1ef0d0ae3cfa46af766d813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:56 +0000
Subject: [PATCH 48/62] fix: an error met while peeking at a token is not lost

---
 src/compiler/lexer/tokenizer.rs | 11 ++++++++++-
 src/compiler/mod.rs             |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index eeeead9..c256bed 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -34,6 +34,7 @@ pub(crate) struct Tokenizer<'x> {
 
     pub last_ch: u8,
     pub state: State,
+    peek_error: Option<CompileError>,
 }
 
 #[derive(Debug)]
@@ -74,6 +75,7 @@ impl<'x> Tokenizer<'x> {
             token_line_pos: 0,
             token_is_tag: false,
             next_token: Vec::with_capacity(2),
+            peek_error: None,
             last_ch: 0,
             state: State::None,
         }
@@ -318,7 +320,11 @@ impl<'x> Tokenizer<'x> {
         if self.next_token.is_empty() {
             match self.next()? {
                 Ok(next_token) => self.next_token.push(next_token),
-                Err(err) => return Some(Err(err)),
+                Err(err) => {
+                    // The error still has to be returned by next()
+                    self.peek_error = Some(err.clone());
+                    return Some(Err(err));
+                }
             }
         }
         self.next_token.last().map(Ok)
@@ -332,6 +338,9 @@ impl Iterator for Tokenizer<'_> {
         if let Some(prev_token) = self.next_token.pop() {
             return Some(Ok(prev_token));
         }
+        if let Some(err) = self.peek_error.take() {
+            return Some(Err(err));
+        }
 
         'outer: while let Some((ch, last_ch)) = self.next_byte() {
             match self.state {
diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index 2154404..1c280f3 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -17,14 +17,14 @@ use std::{borrow::Cow, fmt::Display, sync::Arc};
 pub mod grammar;
 pub mod lexer;
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct CompileError {
     line_num: usize,
     line_pos: usize,
     error_type: ErrorType,
 }
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub enum ErrorType {
     InvalidCharacter(u8),
     InvalidNumber(String),
-- 
2.43.0


From bb224d75a921394c8f77980393a85493911fca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:39 +0000
Subject: [PATCH 49/62] fix: edited messages keep the line ending of the line
 after the header

---
 src/runtime/actions/action_mime.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index ec6ba3d..79144a8 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -462,7 +462,15 @@ impl Context<'_> {
 
                 if part.offset_body != 0 || part.encoding != Encoding::None {
                     // Add CRLF unless this is a :mime replaced part
-                    message.extend_from_slice(b"\r\n");
+                    message.extend_from_slice(
+                        match current_message
+                            .raw_message
+                            .get(..part.offset_body as usize)
+                        {
+                            Some([.., ch, b'\n']) if *ch != b'\r' => b"\n",
+                            _ => b"\r\n".as_slice(),
+                        },
+                    );
                 }
 
                 if part.offset_body != 0 {
-- 
2.43.0


From 88a6a6b5e9c770829fdbd57f4707200d3b25688b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:04 +0000
Subject: [PATCH 50/62] fix: redirect to external lists whose name is not an
 address

---
 src/runtime/actions/action_redirect.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/runtime/actions/action_redirect.rs b/src/runtime/actions/action_redirect.rs
index 959f039..ba4b8b4 100644
--- a/src/runtime/actions/action_redirect.rs
+++ b/src/runtime/actions/action_redirect.rs
@@ -13,8 +13,15 @@ use crate::{
 
 impl Redirect {
     pub(crate) fn exec(&self, ctx: &mut Context) {
-        if let Some(address) = sanitize_address(ctx.eval_value(&self.address).to_string().as_ref())
-        {
+        let address = ctx.eval_value(&self.address);
+        let address = if !self.list {
+            sanitize_address(address.to_string().as_ref())
+        } else {
+            // The name of an external list is an URI rather than an address
+            Some(address.to_string().into_owned())
+                .filter(|name| !name.is_empty() && !name.contains(char::is_control))
+        };
+        if let Some(address) = address {
             if ctx.num_redirects < ctx.runtime.max_redirects
                 && ctx.num_out_messages < ctx.runtime.max_out_messages
                 && ctx.message.parts[0]
-- 
2.43.0


From 2ca751a06a04df32ba794e62c9208434256e0892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:12 +0000
Subject: [PATCH 51/62] fix: notification URI schemes are case-insensitive

---
 src/runtime/actions/action_notify.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index a23c097..f942458 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -333,16 +333,16 @@ pub fn validate_from(addr: &str) -> bool {
     has_dot && has_at && !in_angle
 }
 
-pub fn validate_uri(uri: &str) -> Option<&str> {
+pub fn validate_uri(uri: &str) -> Option<&'static str> {
     let (scheme, uri) = parse_uri(uri)?;
-    if scheme.eq_ignore_ascii_case("mailto") {
+    // Schemes are case-insensitive
+    let scheme = ["mailto", "xmpp", "tel", "http", "https"]
+        .into_iter()
+        .find(|s| s.eq_ignore_ascii_case(scheme))?;
+    if scheme == "mailto" {
         parse_mailto(uri)?;
-        scheme.into()
-    } else if ["xmpp", "tel", "http", "https"].contains(&scheme) {
-        scheme.into()
-    } else {
-        None
     }
+    Some(scheme)
 }
 
 pub(crate) fn parse_uri(uri: &str) -> Option<(&str, &str)> {
-- 
2.43.0


From 1f4479ab46d8f15d57322585bcf6a106de5e544d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:36 +0000
Subject: [PATCH 52/62] fix: a very long vacation period overflows

---
 src/runtime/actions/action_vacation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index 5a35378..615faed 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -145,7 +145,7 @@ impl TestVacation {
                         format!("_v{}{}", from, ctx.eval_value(&self.reason).to_string())
                     },
                     expiry: match &self.period {
-                        Period::Days(days) => days * 86400,
+                        Period::Days(days) => days.saturating_mul(86400),
                         Period::Seconds(seconds) => *seconds,
                         Period::Default => ctx.runtime.default_vacation_expiry,
                     },
-- 
2.43.0


From 069a557c34f05daefe99c9dbf7c3f135577e8acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:30 +0000
Subject: [PATCH 53/62] fix: line breaks in the user's full name

---
 src/runtime/context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index d4bc39a..7414a23 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -542,6 +542,10 @@ impl<'x> Context<'x> {
     pub fn set_user_full_name(&mut self, name: &str) {
         let mut name_ = String::with_capacity(name.len());
         for ch in name.chars() {
+            if ['\r', '\n'].contains(&ch) {
+                // The name becomes part of a header field
+                continue;
+            }
             if ['\"', '\\'].contains(&ch) {
                 name_.push('\\');
             }
-- 
2.43.0


From 5da1075a6117390ab713fb132ddf7ccd651fbff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:18 +0000
Subject: [PATCH 54/62] fix: accept the local, domain, user and detail parts of
 header variable addresses

---
 src/compiler/lexer/string.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index 11bf8fd..de064a6 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -537,6 +537,7 @@ impl TryFrom<&str> for HeaderPart {
     type Error = ();
 
     fn try_from(value: &str) -> Result<Self, Self::Error> {
+        let full_value = value;
         let (value, subvalue) = value.split_once('.').unwrap_or((value, ""));
         Ok(match value {
             "" | "text" => HeaderPart::Text,
@@ -544,7 +545,10 @@ impl TryFrom<&str> for HeaderPart {
             "name" => HeaderPart::Address(AddressPart::Name),
             "addr" => {
                 if !subvalue.is_empty() {
-                    HeaderPart::Address(AddressPart::try_from(subvalue)?)
+                    HeaderPart::Address(
+                        AddressPart::try_from(full_value)
+                            .or_else(|_| AddressPart::try_from(subvalue))?,
+                    )
                 } else {
                     HeaderPart::Address(AddressPart::All)
                 }
-- 
2.43.0


From 13623add035d1478f3d609c7488586df1c480eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:18 +0000
Subject: [PATCH 55/62] fix: header variables in expressions are not case
 sensitive

---
 src/compiler/grammar/expr/tokenizer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index 3700fb4..6ce30f1 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -54,6 +54,12 @@ where
         }
     }
 
+    fn is_header_variable(&self) -> bool {
+        self.buf
+            .get(0..7)
+            .is_some_and(|b| b.eq_ignore_ascii_case(b"header."))
+    }
+
     #[allow(clippy::should_implement_trait)]
     pub(crate) fn next(&mut self) -> Result<Option<Token>, String> {
         if let Some(token) = self.next_token.pop() {
@@ -80,11 +86,11 @@ where
                     self.is_eof = true;
                     break;
                 }
-                b'[' if matches!(self.buf.get(0..7), Some(b"header.")) => {
+                b'[' if self.is_header_variable() => {
                     self.buf.push(ch);
                 }
                 b'-' if self.buf.last().is_some_and( |c| *c == b'[')
-                    || matches!(self.buf.get(0..7), Some(b"header.")) =>
+                    || self.is_header_variable() =>
                 {
                     self.buf.push(ch);
                 }
-- 
2.43.0


From 930154386b7ab83599672344d92398c19568adb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:18 +0000
Subject: [PATCH 56/62] fix: header variables show the decoded text of unknown
 fields and the fields added by the script

---
 src/runtime/eval.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/runtime/eval.rs b/src/runtime/eval.rs
index 2ce5f02..8b5a421 100644
--- a/src/runtime/eval.rs
+++ b/src/runtime/eval.rs
@@ -156,6 +156,12 @@ impl<'x> Context<'x> {
         } else {
             for h in &part.headers {
                 match &header.part {
+                    // Added and renamed headers are not part of the raw message
+                    HeaderPart::Raw if h.offset_end == 0 => {
+                        if let HeaderValue::Text(text) = &h.value {
+                            result.push(Variable::from(format!("{}: {}", h.name.as_str(), text)));
+                        }
+                    }
                     HeaderPart::Raw => {
                         if let Some(var) = raw
                             .get(h.offset_field as usize..h.offset_end as usize)
@@ -165,7 +171,7 @@ impl<'x> Context<'x> {
                         }
                     }
                     HeaderPart::Text => {
-                        if let HeaderValue::Text(text) = &h.value {
+                        if let (HeaderValue::Text(text), false) = (&h.value, is_undecoded(h)) {
                             result.push(Variable::from(format!("{}: {}", h.name.as_str(), text)));
                         } else if let HeaderValue::Text(text) = MessageStream::new(
                             raw.get(h.offset_start as usize..h.offset_end as usize)
@@ -208,6 +214,17 @@ impl HeaderVariable {
     fn eval_part<'x>(&self, header: &'x Header<'x>, raw: &'x [u8], result: &mut Vec<Variable>) {
         let var = match &self.part {
             HeaderPart::Text => match &header.value {
+                HeaderValue::Text(_) if self.include_single_part() && is_undecoded(header) => {
+                    match MessageStream::new(
+                        raw.get(header.offset_start as usize..header.offset_end as usize)
+                            .unwrap_or(b""),
+                    )
+                    .parse_unstructured()
+                    {
+                        HeaderValue::Text(text) => Some(Variable::from(text)),
+                        _ => None,
+                    }
+                }
                 HeaderValue::Text(v) if self.include_single_part() => {
                     Some(Variable::from(v.as_ref()))
                 }
@@ -474,6 +491,11 @@ impl IntoString for Vec<u8> {
     }
 }
 
+/// The parser keeps the value of the header fields it does not know as found in the message.
+fn is_undecoded(header: &Header<'_>) -> bool {
+    matches!(header.name, HeaderName::Other(_)) && header.offset_end > 0
+}
+
 fn sanitize_raw_header(bytes: &[u8]) -> String {
     let mut result = Vec::with_capacity(bytes.len());
     let mut last_is_space = false;
-- 
2.43.0


From e16f316c45dd53d9ec8e861a1e5ac2cff71147f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:10 +0000
Subject: [PATCH 57/62] Undo the repair of include :once for runtime scripts,
 which nothing can set

---
 src/runtime/actions/action_include.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/runtime/actions/action_include.rs b/src/runtime/actions/action_include.rs
index 15db138..6aa15b5 100644
--- a/src/runtime/actions/action_include.rs
+++ b/src/runtime/actions/action_include.rs
@@ -20,7 +20,7 @@ pub(crate) enum IncludeResult {
 }
 
 impl Include {
-    pub(crate) fn exec(&self, ctx: &mut Context) -> IncludeResult {
+    pub(crate) fn exec(&self, ctx: &Context) -> IncludeResult {
         let script_name = ctx.eval_value(&self.value);
         if !script_name.is_empty() {
             let script_name = if self.location == Location::Global {
@@ -34,10 +34,8 @@ impl Include {
                 if ctx.script_stack.len() < ctx.runtime.max_nested_includes {
                     if let Some(script) = cached_script
                         .or_else(|| ctx.runtime.include_scripts.get(script_name.as_str()))
-                        .cloned()
                     {
-                        ctx.script_cache.insert(script_name, script.clone());
-                        return IncludeResult::Cached(script);
+                        return IncludeResult::Cached(script.clone());
                     } else {
                         return IncludeResult::Event(Event::IncludeScript {
                             name: script_name,
-- 
2.43.0


From 726e40cc7804a97ff0a1825b44341c8b42a5f38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:59 +0000
Subject: [PATCH 58/62] fix: match variables set by the second of two tests in
 an allof

The test a block depends on was taken for the last one to set a variable,
also where it is the first of several tests of the same command.
---
 src/compiler/grammar/instruction.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 5f885c6..341b0eb 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -908,10 +908,12 @@ impl CompilerState<'_> {
         let mut outermost = None;
         let mut test_pos = None;
 
-        'blocks: for block in [&mut self.block]
+        for block in [&mut self.block]
             .into_iter()
             .chain(self.block_stack.iter_mut().rev())
         {
+            let mut is_set = false;
+
             for pos in &block.match_test_pos {
                 // The arguments of the test being parsed refer to earlier tests
                 if *pos >= self.instructions.len() {
@@ -945,19 +947,21 @@ impl CompilerState<'_> {
                         return false;
                     }
 
-                    // The variable is set by the test its block depends on
-                    if !is_not
+                    // The variable is set by the test its block depends on, or by a later
+                    // one of the same command
+                    is_set |= !is_not
                         && test_pos == Some(*pos)
-                        && matches!(self.instructions.get(*pos + 1), Some(Instruction::Jz(_)))
-                    {
-                        break 'blocks;
-                    }
+                        && matches!(self.instructions.get(*pos + 1), Some(Instruction::Jz(_)));
                 } else {
                     debug_assert!(false, "This should not have happened");
                     return false;
                 }
             }
 
+            if is_set {
+                break;
+            }
+
             test_pos = block.test_pos;
         }
 
-- 
2.43.0


From 40452f9aa8377f5f25bd3e918e8509968c378e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:01 +0000
Subject: [PATCH 59/62] fix: keep the order of set modifiers of the same
 precedence however many there are

---
 src/compiler/grammar/actions/action_mime.rs | 2 +-
 src/compiler/grammar/actions/action_set.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/grammar/actions/action_mime.rs b/src/compiler/grammar/actions/action_mime.rs
index 0e2dddd..9dcfd5f 100644
--- a/src/compiler/grammar/actions/action_mime.rs
+++ b/src/compiler/grammar/actions/action_mime.rs
@@ -202,7 +202,7 @@ impl CompilerState<'_> {
             }
         }
 
-        modifiers.sort_unstable_by_key(|m| std::cmp::Reverse(m.order()));
+        modifiers.sort_by_key(|m| std::cmp::Reverse(m.order()));
 
         self.instructions
             .push(Instruction::ExtractText(ExtractText {
diff --git a/src/compiler/grammar/actions/action_set.rs b/src/compiler/grammar/actions/action_set.rs
index 390cb7a..586c6b3 100644
--- a/src/compiler/grammar/actions/action_set.rs
+++ b/src/compiler/grammar/actions/action_set.rs
@@ -130,7 +130,7 @@ impl CompilerState<'_> {
             }
         }
 
-        modifiers.sort_unstable_by_key(|m| std::cmp::Reverse(m.order()));
+        modifiers.sort_by_key(|m| std::cmp::Reverse(m.order()));
 
         self.instructions.push(Instruction::Set(Set {
             modifiers,
-- 
2.43.0


From 0bb54060afc70c8ed07764f5e3e95a32a413a68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:01 +0000
Subject: [PATCH 60/62] fix: fileinto :mailboxid needs the mailboxid
 capability, not mailbox

---
 src/compiler/grammar/actions/action_fileinto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/grammar/actions/action_fileinto.rs b/src/compiler/grammar/actions/action_fileinto.rs
index 551854a..88a6482 100644
--- a/src/compiler/grammar/actions/action_fileinto.rs
+++ b/src/compiler/grammar/actions/action_fileinto.rs
@@ -73,7 +73,7 @@ impl CompilerState<'_> {
                 Token::Tag(Word::MailboxId) => {
                     self.validate_argument(
                         4,
-                        Capability::Mailbox.into(),
+                        Capability::MailboxId.into(),
                         token_info.line_num,
                         token_info.line_pos,
                     )?;
-- 
2.43.0


From 006641f56bf6c953b2df237c193eab5850cb9414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:24 +0000
Subject: [PATCH 61/62] fix: flag variables need the variables capability

---
 src/compiler/grammar/actions/action_flags.rs | 23 +++++++++++++++-----
 src/compiler/grammar/actions/action_set.rs   | 16 +++++++++++++-
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/compiler/grammar/actions/action_flags.rs b/src/compiler/grammar/actions/action_flags.rs
index a4ecdfb..d864f89 100644
--- a/src/compiler/grammar/actions/action_flags.rs
+++ b/src/compiler/grammar/actions/action_flags.rs
@@ -7,7 +7,10 @@
 
 
 use crate::compiler::{
-    grammar::instruction::{CompilerState, Instruction},
+    grammar::{
+        instruction::{CompilerState, Instruction},
+        Capability,
+    },
     lexer::{word::Word, Token},
     CompileError, ErrorType, Value, VariableType,
 };
@@ -62,11 +65,19 @@ impl CompilerState<'_> {
                     Some(Ok(
                         Token::StringConstant(_) | Token::StringVariable(_) | Token::BracketOpen,
                     )),
-                ) => EditFlags {
-                    name: self.parse_variable_name(token_info, false)?.into(),
-                    flags: self.parse_strings(false)?,
-                    action,
-                },
+                ) => {
+                    self.validate_argument(
+                        0,
+                        Capability::Variables.into(),
+                        token_info.line_num,
+                        token_info.line_pos,
+                    )?;
+                    EditFlags {
+                        name: self.parse_variable_name(token_info, false)?.into(),
+                        flags: self.parse_strings(false)?,
+                        action,
+                    }
+                }
                 (Token::BracketOpen, _)
                 | (
                     Token::StringConstant(_) | Token::StringVariable(_),
diff --git a/src/compiler/grammar/actions/action_set.rs b/src/compiler/grammar/actions/action_set.rs
index 586c6b3..dc9ce1f 100644
--- a/src/compiler/grammar/actions/action_set.rs
+++ b/src/compiler/grammar/actions/action_set.rs
@@ -9,6 +9,7 @@ use crate::{
         grammar::{
             expr::Expression,
             instruction::{CompilerState, Instruction},
+            Capability,
         },
         lexer::{tokenizer::TokenInfo, word::Word, Token},
         CompileError, ErrorType, Value, VariableType,
@@ -156,7 +157,7 @@ impl CompilerState<'_> {
     ) -> Result<VariableType, CompileError> {
         match token_info.token {
             Token::StringConstant(value) => self
-                .register_variable(value.into_string(), register_as_local)
+                .resolve_variable(value.into_string(), register_as_local)
                 .map_err(|error_type| CompileError {
                     line_num: token_info.line_num,
                     line_pos: token_info.line_pos,
@@ -166,10 +167,23 @@ impl CompilerState<'_> {
         }
     }
 
+    /// A variable named in a test, which needs the variables extension
     pub(crate) fn register_variable(
         &mut self,
         name: String,
         register_as_local: bool,
+    ) -> Result<VariableType, ErrorType> {
+        if self.has_capability(&Capability::Variables) {
+            self.resolve_variable(name, register_as_local)
+        } else {
+            Err(ErrorType::UndeclaredCapability(Capability::Variables))
+        }
+    }
+
+    fn resolve_variable(
+        &mut self,
+        name: String,
+        register_as_local: bool,
     ) -> Result<VariableType, ErrorType> {
         if name.len() > self.compiler.max_variable_name_size {
             return Err(ErrorType::VariableTooLong);
-- 
2.43.0


From 051cbdc14ded75f39e4d91c3daa3441eed9104aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:58 +0000
Subject: [PATCH 62/62] fix: extracttext lengths of 4 GiB and more survive rkyv

---
 src/compiler/grammar/actions/action_mime.rs | 4 ++--
 src/runtime/actions/action_mime.rs          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compiler/grammar/actions/action_mime.rs b/src/compiler/grammar/actions/action_mime.rs
index 9dcfd5f..935411a 100644
--- a/src/compiler/grammar/actions/action_mime.rs
+++ b/src/compiler/grammar/actions/action_mime.rs
@@ -67,7 +67,7 @@ pub(crate) struct Enclose {
 )]
 pub(crate) struct ExtractText {
     pub modifiers: Vec<Modifier>,
-    pub first: Option<usize>,
+    pub first: Option<u64>,
     pub name: VariableType,
 }
 
@@ -168,7 +168,7 @@ impl CompilerState<'_> {
             match token_info.token {
                 Token::Tag(Word::First) => {
                     self.validate_argument(1, None, token_info.line_num, token_info.line_pos)?;
-                    first = self.tokens.expect_number(usize::MAX)?.into();
+                    first = (self.tokens.expect_number(usize::MAX)? as u64).into();
                 }
                 Token::Tag(
                     word @ (Word::Lower
diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 79144a8..778eda5 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -305,14 +305,14 @@ impl ExtractText {
             match ctx.message.parts.get(ctx.part as usize).map(|p| &p.body) {
                 Some(PartType::Text(text)) => {
                     value = if let Some(first) = &self.first {
-                        text.chars().take(*first).collect()
+                        text.chars().take(*first as usize).collect()
                     } else {
                         text.as_ref().to_string()
                     };
                 }
                 Some(PartType::Html(html)) => {
                     value = if let Some(first) = &self.first {
-                        html_to_text(html.as_ref()).chars().take(*first).collect()
+                        html_to_text(html.as_ref()).chars().take(*first as usize).collect()
                     } else {
                         html_to_text(html.as_ref())
                     };
-- 
2.43.0

