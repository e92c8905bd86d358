From 782c1d75db9daf2b39a1bef18483f22579b88a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 01/33] fix: let Ctrl+C interrupt error handlers that jump
 backwards

An ON ERROR GOTO handler that re-arms itself and fails again jumped backwards
without ever yielding, so such a program could not be stopped.
---
 core/src/vm/context.rs | 5 +++++
 core/src/vm/mod.rs     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index c7ef659..15faa58 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -250,6 +250,11 @@ impl Context {
         self.pc = pc;
     }
 
+    /// Requests that execution yields control back to the caller at the next statement boundary.
+    pub(super) fn request_yield(&mut self) {
+        self.yield_pending = true;
+    }
+
     /// Returns the current error handler configuration.
     pub(super) fn error_handler(&self) -> ErrorHandler {
         self.err_handler
diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 6b6490b..2d96eb4 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -347,6 +347,11 @@ impl Vm {
             ErrorHandler::Jump { active: false, addr } => {
                 self.context.set_error_handler_active();
                 self.context.set_pc(addr);
+                if addr <= pc {
+                    // Backward jumps must let the caller process pending events, or else a handler
+                    // that re-arms itself could never be interrupted.
+                    self.context.request_yield();
+                }
                 true
             }
             ErrorHandler::ResumeNext => {
-- 
2.43.0


From 2baace866c1eb6c2551b0aab53f8b771686e8d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 02/33] fix: let Ctrl+C interrupt recursive functions

---
 core/src/vm/context.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index 15faa58..7fdad4d 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -1071,8 +1071,10 @@ impl Context {
         } else {
             self.pc = frame.old_pc + 1;
             self.fp = frame.old_fp;
-            self.yield_pending = true;
         }
+        // Recursive functions can run for a very long time without ever jumping backwards, so all
+        // returns (and not just those from GOSUB) must let the caller process pending events.
+        self.yield_pending = true;
     }
 
     /// Implements the `SetErrorHandler` opcode.
-- 
2.43.0


From 98e5bf795a2e1c53e075472e7b01b6c1fdb705c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:48 +0000
Subject: [PATCH 03/33] fix: keep argless function calls from clobbering
 variables

---
 core/src/compiler/exprs.rs | 14 ++++++++++++--
 core/src/compiler/syms.rs  |  7 +++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/core/src/compiler/exprs.rs b/core/src/compiler/exprs.rs
index d965243..ba7b7f4 100644
--- a/core/src/compiler/exprs.rs
+++ b/core/src/compiler/exprs.rs
@@ -709,8 +709,18 @@ pub(super) fn compile_expr(
                 }
 
                 if md.is_user_defined() {
-                    let addr = codegen.emit(bytecode::make_nop(), span.pos);
-                    codegen.add_fixup(addr, Fixup::Call(reg, key));
+                    // The callee's frame starts at the register that receives the result, so the
+                    // call must not target a register that has other live registers above it.
+                    if symtable.is_top(reg) {
+                        let addr = codegen.emit(bytecode::make_nop(), span.pos);
+                        codegen.add_fixup(addr, Fixup::Call(reg, key));
+                    } else {
+                        let mut scope = symtable.temp_scope();
+                        let temp = scope.alloc().map_err(|e| Error::from_syms(e, span.pos))?;
+                        let addr = codegen.emit(bytecode::make_nop(), span.pos);
+                        codegen.add_fixup(addr, Fixup::Call(temp, key));
+                        codegen.emit(bytecode::make_move(reg, temp), span.pos);
+                    }
                 } else {
                     let upcall = codegen.get_upcall(key, Some(etype), span.pos)?;
                     let (is_global, _) = reg.to_parts();
diff --git a/core/src/compiler/syms.rs b/core/src/compiler/syms.rs
index d780b99..a2c01c7 100644
--- a/core/src/compiler/syms.rs
+++ b/core/src/compiler/syms.rs
@@ -470,6 +470,13 @@ impl<'temp, 'local> TempSymtable<'temp, 'local> {
         self.symtable.get_callable(key)
     }
 
+    /// Returns true if `reg` is a local register and there are no allocated registers above it.
+    pub(crate) fn is_top(&self, reg: Register) -> bool {
+        let (is_global, index) = reg.to_parts();
+        let next = self.symtable.locals.len() + usize::from(*self.next_temp.borrow());
+        !is_global && usize::from(index) + 1 == next
+    }
+
     /// Enters a new temporary scope.
     pub(crate) fn temp_scope(&self) -> TempScope {
         let nlocals = u8::try_from(self.symtable.locals.len())
-- 
2.43.0


From bd8cc6d307588c725f35432a7ae1e14d64f06386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 04/33] fix: report calls to undefined DECLAREd callables as
 errors

---
 core/src/compiler/codegen.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/src/compiler/codegen.rs b/core/src/compiler/codegen.rs
index 45505bf..67a7d14 100644
--- a/core/src/compiler/codegen.rs
+++ b/core/src/compiler/codegen.rs
@@ -16,7 +16,7 @@
 
 //! Code generation for the EndBASIC compiler.
 
-use crate::ast::ExprType;
+use crate::ast::{ExprType, VarRef};
 use crate::bytecode::{self, ErrorHandlerMode, Register};
 use crate::compiler::ids::HashMapWithIds;
 use crate::compiler::{Error, Result, SymbolKey};
@@ -203,8 +203,13 @@ impl Codegen {
             let pos = self.instrs[addr].linecol;
             let instr = match fixup {
                 Fixup::Call(reg, key) => {
-                    let (target, _end) =
-                        self.user_callables_addresses.get(&key).expect("Must be present");
+                    // The callable may have been declared but never defined.
+                    let Some((target, _end)) = self.user_callables_addresses.get(&key) else {
+                        return Err(Error::UndefinedSymbol(
+                            pos,
+                            VarRef::new(key.to_string(), None),
+                        ));
+                    };
                     bytecode::make_call(reg, Self::make_target(*target, pos)?)
                 }
                 Fixup::Gosub(label) => {
-- 
2.43.0


From f396de1f8a6195835a454acd537eea0e7bf9b2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:38 +0000
Subject: [PATCH 05/33] fix: report unresolved labels in program order

---
 core/src/compiler/codegen.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/codegen.rs b/core/src/compiler/codegen.rs
index 67a7d14..adc88b5 100644
--- a/core/src/compiler/codegen.rs
+++ b/core/src/compiler/codegen.rs
@@ -199,7 +199,10 @@ impl Codegen {
 
     /// Applies all registered fixups to the generated code.
     fn apply_fixups(&mut self) -> Result<()> {
-        for (addr, fixup) in self.fixups.drain() {
+        // Process the fixups in program order so that errors are reported deterministically.
+        let mut fixups = self.fixups.drain().collect::<Vec<_>>();
+        fixups.sort_by_key(|(addr, _)| *addr);
+        for (addr, fixup) in fixups {
             let pos = self.instrs[addr].linecol;
             let instr = match fixup {
                 Fixup::Call(reg, key) => {
-- 
2.43.0


From a10cc5265bdbcf981424b1dabc9975c677d98db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 06/33] fix: report oversized arrays as errors instead of
 crashing

---
 core/src/vm/context.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/core/src/vm/context.rs b/core/src/vm/context.rs
index 7fdad4d..fbc833e 100644
--- a/core/src/vm/context.rs
+++ b/core/src/vm/context.rs
@@ -635,15 +635,25 @@ impl Context {
                 Ok(n) => n,
             };
             dimensions.push(dim);
-            total *= dim;
+            total = match total.checked_mul(dim) {
+                Some(total) => total,
+                None => {
+                    self.set_exception("Array is too large");
+                    return;
+                }
+            };
         }
 
-        let values = match subtype {
-            ExprType::Boolean | ExprType::Double | ExprType::Integer => {
-                vec![0; total]
-            }
-            ExprType::Text => vec![heap.empty_text_ptr(); total],
+        let default = match subtype {
+            ExprType::Boolean | ExprType::Double | ExprType::Integer => 0,
+            ExprType::Text => heap.empty_text_ptr(),
         };
+        let mut values = vec![];
+        if values.try_reserve_exact(total).is_err() {
+            self.set_exception("Array is too large");
+            return;
+        }
+        values.resize(total, default);
         let array = ArrayData { dimensions, values };
         let ptr = match heap.push(HeapDatum::Array(array)) {
             Ok(ptr) => ptr,
-- 
2.43.0


From c7e3e95e0179394a3e43a758cbbd24200cf27d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:46 +0000
Subject: [PATCH 07/33] fix: reject EXIT DO and EXIT FOR of loops that surround
 a callable

---
 core/src/compiler/top.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 670dba7..31ed723 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1136,6 +1136,10 @@ fn compile_user_callable(
     });
     debug_assert!(ctx.callable_exit_jumps.is_empty());
 
+    // Loops that surround the callable's definition cannot be exited from within its body.
+    let outer_do_exit_stack = std::mem::take(&mut ctx.do_exit_stack);
+    let outer_for_exit_stack = std::mem::take(&mut ctx.for_exit_stack);
+
     let mut symtable = symtable.enter_scope();
 
     // The call protocol expects the return value to be in the first local variable
@@ -1179,6 +1183,8 @@ fn compile_user_callable(
         ctx.codegen.patch(addr, bytecode::make_jump(target));
     }
     ctx.current_callable = None;
+    ctx.do_exit_stack = outer_do_exit_stack;
+    ctx.for_exit_stack = outer_for_exit_stack;
     let skip_addr = ctx.codegen.next_pc();
     ctx.codegen.define_user_callable(key, start_pc, skip_addr);
 
-- 
2.43.0


From 8d8b5e4a77d3582a4a2de09287068a6687cc3036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 08/33] fix: let ON ERROR RESUME NEXT skip the last statement
 of a program

---
 core/src/vm/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/vm/mod.rs b/core/src/vm/mod.rs
index 2d96eb4..348a478 100644
--- a/core/src/vm/mod.rs
+++ b/core/src/vm/mod.rs
@@ -355,7 +355,8 @@ impl Vm {
                 true
             }
             ErrorHandler::ResumeNext => {
-                let mut next_pc = image.code.len();
+                // The trailing EOF is not a statement, so it is where we end up if there are no more.
+                let mut next_pc = image.code.len() - 1;
                 for (idx, meta) in image.debug_info.instrs.iter().enumerate().skip(pc + 1) {
                     if meta.is_stmt_start {
                         next_pc = idx;
-- 
2.43.0


From 09b52806373d80b67bac783e56d821691cc5961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 09/33] fix: resume at the enclosing statement after errors at
 the end of a block

---
 core/src/compiler/codegen.rs | 14 +++++++++++++-
 core/src/compiler/top.rs     |  1 +
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/core/src/compiler/codegen.rs b/core/src/compiler/codegen.rs
index adc88b5..6cc8578 100644
--- a/core/src/compiler/codegen.rs
+++ b/core/src/compiler/codegen.rs
@@ -61,6 +61,9 @@ pub(super) struct Codegen {
     /// Per-instruction metadata for every instruction in `code`.
     instrs: Vec<InstrMetadata>,
 
+    /// Whether the next instruction to be emitted is the start of a statement.
+    next_is_stmt_start: bool,
+
     /// Map of label names to their target addresses.
     labels: HashMap<SymbolKey, Address>,
 
@@ -82,12 +85,21 @@ impl Codegen {
         self.code.push(op);
         self.instrs.push(InstrMetadata {
             linecol: pos,
-            is_stmt_start: false,
+            is_stmt_start: self.next_is_stmt_start,
             arg_linecols: vec![],
         });
+        self.next_is_stmt_start = false;
         self.code.len() - 1
     }
 
+    /// Marks the next instruction to be emitted as the start of a statement.
+    ///
+    /// This is necessary because statements can be followed by instructions that belong to an
+    /// enclosing statement (e.g. the jump back to the beginning of a loop).
+    pub(super) fn mark_statement_end(&mut self) {
+        self.next_is_stmt_start = true;
+    }
+
     /// Marks the instruction at `addr` as the start of a statement.
     pub(super) fn mark_statement_start(&mut self, addr: Address) {
         self.instrs[addr].is_stmt_start = true;
diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index 31ed723..ae74a17 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -1074,6 +1074,7 @@ fn compile_stmt(
     }
     if mark_start && start_pc != ctx.codegen.next_pc() {
         ctx.codegen.mark_statement_start(start_pc);
+        ctx.codegen.mark_statement_end();
     }
     Ok(())
 }
-- 
2.43.0


From 1c581808481e024ef06edeeeca16cdf9b183b25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 10/33] fix: evaluate assignments to globals before modifying
 the destination

---
 core/src/compiler/top.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/core/src/compiler/top.rs b/core/src/compiler/top.rs
index ae74a17..d3b8d5b 100644
--- a/core/src/compiler/top.rs
+++ b/core/src/compiler/top.rs
@@ -105,15 +105,17 @@ fn static_end_code(expr: &Expr) -> Option<(i32, LineCol)> {
     }
 }
 
-/// Returns true if `expr` references `target_key`.
-fn expr_references_symbol(expr: &Expr, target_key: &SymbolKey) -> bool {
+/// Returns true if `expr` references a symbol for which `pred` returns true.
+///
+/// `pred` receives the key of the symbol and whether the reference to it has arguments.
+fn expr_references<P: Fn(&SymbolKey, bool) -> bool>(expr: &Expr, pred: P) -> bool {
     let mut stack = vec![expr];
     while let Some(expr) = stack.pop() {
         match expr {
             Expr::Boolean(..) | Expr::Double(..) | Expr::Integer(..) | Expr::Text(..) => {}
 
             Expr::Symbol(span) => {
-                if SymbolKey::from(&span.vref.name) == *target_key {
+                if pred(&SymbolKey::from(&span.vref.name), false) {
                     return true;
                 }
             }
@@ -123,6 +125,9 @@ fn expr_references_symbol(expr: &Expr, target_key: &SymbolKey) -> bool {
             }
 
             Expr::Call(span) => {
+                if pred(&SymbolKey::from(&span.vref.name), true) {
+                    return true;
+                }
                 for arg in &span.args {
                     if let Some(arg_expr) = &arg.expr {
                         stack.push(arg_expr);
@@ -190,7 +195,16 @@ fn compile_assignment(
         Err(e) => return Err(Error::from_syms(e, vref_pos)),
     };
 
-    let has_self_reference = was_defined && expr_references_symbol(&expr, &key);
+    // Global variables can also be accessed by the user-defined functions that the expression calls
+    // after having computed a partial result.
+    let (is_global, _) = reg.to_parts();
+    let has_self_reference = was_defined
+        && (expr_references(&expr, |k, is_call| !is_call && *k == key)
+            || (is_global
+                && !matches!(expr, Expr::Call(..) | Expr::Symbol(..))
+                && expr_references(&expr, |k, _is_call| {
+                    symtable.get_callable(k).is_some_and(|md| md.is_user_defined())
+                })));
 
     if let Some(etype) = etype {
         // The destination variable already exists.  Try to compile the expression into its target
-- 
2.43.0


From 7cebe89045391e8b30d7adba0d98eb56f5573ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:30 +0000
Subject: [PATCH 11/33] fix: reject dimension 0 in LBOUND and UBOUND

---
 std/src/arrays.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/arrays.rs b/std/src/arrays.rs
index 9b806f4..19ccff2 100644
--- a/std/src/arrays.rs
+++ b/std/src/arrays.rs
@@ -37,7 +37,7 @@ fn parse_bound_args(scope: &Scope<'_>) -> CallResult<(Vec<usize>, usize)> {
     if scope.nargs() == 2 {
         let i = scope.get_integer(1);
 
-        if i < 0 {
+        if i <= 0 {
             return Err(CallError::Syntax(
                 scope.get_pos(1),
                 format!("Dimension {} must be positive", i),
-- 
2.43.0


From d80ea76e932c4d560bd2b0960568cafaff0d0ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 12/33] fix: report overflows when negating DATA and STEP
 literals

---
 core/src/parser.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 30e75d6..6feec07 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -478,10 +478,18 @@ impl<'a> Parser<'a> {
                             value: -d,
                             pos: token_span.pos,
                         }))),
-                        Token::Integer(i) => values.push(Some(Expr::Integer(IntegerSpan {
-                            value: -i,
-                            pos: token_span.pos,
-                        }))),
+                        Token::Integer(i) => match i.checked_neg() {
+                            Some(value) => values.push(Some(Expr::Integer(IntegerSpan {
+                                value,
+                                pos: token_span.pos,
+                            }))),
+                            None => {
+                                return Err(Error::Bad(
+                                    token_span.pos,
+                                    "Integer overflow".to_owned(),
+                                ));
+                            }
+                        },
                         _ => {
                             return Err(Error::Bad(
                                 token_span.pos,
@@ -1234,9 +1242,12 @@ impl<'a> Parser<'a> {
                     }
                     Token::Integer(i) => {
                         let peeked = self.lexer.consume_peeked();
+                        let Some(value) = i.checked_neg() else {
+                            return Err(Error::Bad(peeked.pos, "Integer overflow".to_owned()));
+                        };
                         Ok((
-                            Expr::Integer(IntegerSpan { value: -i, pos: peeked.pos }),
-                            (-i).cmp(&0),
+                            Expr::Integer(IntegerSpan { value, pos: peeked.pos }),
+                            value.cmp(&0),
                             false,
                         ))
                     }
-- 
2.43.0


From 18680358c90ae3a39b86d37779132c7bdc7de7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:56 +0000
Subject: [PATCH 13/33] fix: report unrepresentable durations as errors

---
 std/src/datetime.rs   | 9 +++++----
 std/src/sound/cmds.rs | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/std/src/datetime.rs b/std/src/datetime.rs
index eaa2a74..37d1810 100644
--- a/std/src/datetime.rs
+++ b/std/src/datetime.rs
@@ -153,10 +153,11 @@ impl Callable for SleepCommand {
             ));
         }
 
-        self.datetime
-            .sleep(Duration::from_secs_f64(n))
-            .await
-            .map_err(|e| CallError::Syntax(scope.get_pos(0), e))
+        let Ok(duration) = Duration::try_from_secs_f64(n) else {
+            return Err(CallError::Syntax(scope.get_pos(0), "Sleep time is too long".to_owned()));
+        };
+
+        self.datetime.sleep(duration).await.map_err(|e| CallError::Syntax(scope.get_pos(0), e))
     }
 }
 
diff --git a/std/src/sound/cmds.rs b/std/src/sound/cmds.rs
index ab3d3ef..a7ba7ac 100644
--- a/std/src/sound/cmds.rs
+++ b/std/src/sound/cmds.rs
@@ -139,10 +139,11 @@ impl Callable for SoundCommand {
             ));
         }
 
-        self.console
-            .borrow_mut()
-            .play_tone(Tone::square(pitch, Duration::from_secs_f64(duration)))
-            .await?;
+        let Ok(duration) = Duration::try_from_secs_f64(duration) else {
+            return Err(CallError::Syntax(scope.get_pos(1), "Duration is too long".to_owned()));
+        };
+
+        self.console.borrow_mut().play_tone(Tone::square(pitch, duration)).await?;
         Ok(())
     }
 }
-- 
2.43.0


From 9ddc2d7318b799e88106b8490895398076c31794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:33 +0000
Subject: [PATCH 14/33] fix: accept non-ASCII text in the second line of
 scripts

---
 cli/src/propline.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/cli/src/propline.rs b/cli/src/propline.rs
index 72edfbb..97f661e 100644
--- a/cli/src/propline.rs
+++ b/cli/src/propline.rs
@@ -43,14 +43,12 @@ fn strip_newline(s: &mut String) {
 fn parse_propline(line: &str) -> io::Result<PropLine> {
     let without_comment = match line.strip_prefix("' ") {
         Some(line) => Some(line),
-        None => {
-            if line.len() <= 4 {
-                None
-            } else {
-                let token = line[0..4].to_ascii_lowercase();
-                if token == "rem " { Some(&line[4..]) } else { None }
+        None => match line.split_at_checked(4) {
+            Some((token, rest)) if token.eq_ignore_ascii_case("rem ") && !rest.is_empty() => {
+                Some(rest)
             }
-        }
+            _ => None,
+        },
     };
     let Some(payload) = without_comment else {
         return Ok(PropLine::default());
-- 
2.43.0


From a0a4f0c7bdbb983f99714c9bbd97250d2ded5344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:45 +0000
Subject: [PATCH 15/33] fix: reject SHARE ACLs that end in non-ASCII characters

---
 client/src/cmds.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/src/cmds.rs b/client/src/cmds.rs
index 3eb12d9..46a1066 100644
--- a/client/src/cmds.rs
+++ b/client/src/cmds.rs
@@ -307,7 +307,10 @@ among users of the EndBASIC service.",
 impl ShareCommand {
     /// Parses a textual ACL specification and adds it to `add` or `remove.
     fn parse_acl(mut acl: String, add: &mut FileAcls, remove: &mut FileAcls) -> Result<(), String> {
-        let change = if acl.len() < 3 { String::new() } else { acl.split_off(acl.len() - 2) };
+        let change = match acl.len().checked_sub(2) {
+            Some(i) if i > 0 && acl.is_char_boundary(i) => acl.split_off(i),
+            _ => String::new(),
+        };
         let username = acl; // For clarity after splitting off the ACL change request.
         match (username, change.as_str()) {
             (username, "+r") if !username.is_empty() => add.add_reader(username),
-- 
2.43.0


From 0c0aa4483ddd01e08bfb3f8d5d91361097a8f1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:04 +0000
Subject: [PATCH 16/33] fix: report empty console specifications as errors

---
 cli/src/console.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cli/src/console.rs b/cli/src/console.rs
index e24ce59..16ca2b5 100644
--- a/cli/src/console.rs
+++ b/cli/src/console.rs
@@ -100,7 +100,14 @@ pub fn setup_console(
     console_spec: Option<&str>,
     signals_tx: Sender<Signal>,
 ) -> io::Result<ConsoleHandles> {
-    let mut console_spec = ConsoleSpec::init(console_spec.unwrap_or("text"));
+    let console_spec = console_spec.unwrap_or("text");
+    if console_spec.is_empty() {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            "Invalid console spec: missing driver",
+        ));
+    }
+    let mut console_spec = ConsoleSpec::init(console_spec);
     let handles: ConsoleHandles = match console_spec.driver {
         "sdl" => setup_sdl_console(&mut console_spec, signals_tx)?,
         "st7735s" => setup_st7735s_console(&mut console_spec, signals_tx)?,
-- 
2.43.0


From 98239e793cb09adf0243d59991c3501ead3ea88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:50 +0000
Subject: [PATCH 17/33] fix: draw circles centered near the coordinate limits

---
 std/src/console/drawing.rs | 48 ++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index e0cc905..85d1f0c 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -193,14 +193,14 @@ where
     let mut e: i16 = tx - diameter;
 
     while x >= y {
-        point(rasops, center.x + x, center.y - y)?;
-        point(rasops, center.x + x, center.y + y)?;
-        point(rasops, center.x - x, center.y - y)?;
-        point(rasops, center.x - x, center.y + y)?;
-        point(rasops, center.x + y, center.y - x)?;
-        point(rasops, center.x + y, center.y + x)?;
-        point(rasops, center.x - y, center.y - x)?;
-        point(rasops, center.x - y, center.y + x)?;
+        point(rasops, center.x.saturating_add(x), center.y.saturating_sub(y))?;
+        point(rasops, center.x.saturating_add(x), center.y.saturating_add(y))?;
+        point(rasops, center.x.saturating_sub(x), center.y.saturating_sub(y))?;
+        point(rasops, center.x.saturating_sub(x), center.y.saturating_add(y))?;
+        point(rasops, center.x.saturating_add(y), center.y.saturating_sub(x))?;
+        point(rasops, center.x.saturating_add(y), center.y.saturating_add(x))?;
+        point(rasops, center.x.saturating_sub(y), center.y.saturating_sub(x))?;
+        point(rasops, center.x.saturating_sub(y), center.y.saturating_add(x))?;
 
         if e <= 0 {
             y += 1;
@@ -252,10 +252,34 @@ where
     let mut e: i16 = tx - diameter;
 
     while x >= y {
-        line(rasops, center.x + x, center.y - y, center.x + x, center.y + y)?;
-        line(rasops, center.x - x, center.y - y, center.x - x, center.y + y)?;
-        line(rasops, center.x + y, center.y - x, center.x + y, center.y + x)?;
-        line(rasops, center.x - y, center.y - x, center.x - y, center.y + x)?;
+        line(
+            rasops,
+            center.x.saturating_add(x),
+            center.y.saturating_sub(y),
+            center.x.saturating_add(x),
+            center.y.saturating_add(y),
+        )?;
+        line(
+            rasops,
+            center.x.saturating_sub(x),
+            center.y.saturating_sub(y),
+            center.x.saturating_sub(x),
+            center.y.saturating_add(y),
+        )?;
+        line(
+            rasops,
+            center.x.saturating_add(y),
+            center.y.saturating_sub(x),
+            center.x.saturating_add(y),
+            center.y.saturating_add(x),
+        )?;
+        line(
+            rasops,
+            center.x.saturating_sub(y),
+            center.y.saturating_sub(x),
+            center.x.saturating_sub(y),
+            center.y.saturating_add(x),
+        )?;
 
         if e <= 0 {
             y += 1;
-- 
2.43.0


From 767e63e108c240e853cc98f30913d76ce3a4498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:02 +0000
Subject: [PATCH 18/33] fix: fill polygons that span most of the coordinate
 space

---
 std/src/console/drawing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index 85d1f0c..256cec3 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -339,7 +339,9 @@ fn edge_intersection(y: i32, p1: PixelsXY, p2: PixelsXY) -> Option<i32> {
 
     let x1 = i32::from(p1.x);
     let x2 = i32::from(p2.x);
-    Some(x1 + (y - y1) * (x2 - x1) / (y2 - y1))
+    // The product of two 17-bit differences does not fit in 32 bits but the result always does.
+    let dx = i64::from(y - y1) * i64::from(x2 - x1) / i64::from(y2 - y1);
+    Some(x1 + dx as i32)
 }
 
 /// Fills the poligon defined by `points` using a scanline intersection algorithm.
-- 
2.43.0


From d04abe385a2e945fb6a4973a1b72d27973294733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:05 +0000
Subject: [PATCH 19/33] fix: reject NOT after a complete operand in expressions

---
 core/src/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/parser.rs b/core/src/parser.rs
index 6feec07..76b70c1 100644
--- a/core/src/parser.rs
+++ b/core/src/parser.rs
@@ -905,6 +905,12 @@ impl<'a> Parser<'a> {
                 }
 
                 Token::Not => {
+                    if !need_operand {
+                        return Err(Error::Bad(
+                            ts.pos,
+                            format!("Unexpected {} in expression", ts.token),
+                        ));
+                    }
                     op_spans.push(ExprOpSpan::new(ExprOp::Not, ts.pos));
                     need_operand = true;
                 }
-- 
2.43.0


From c4453ffe2688460cf1e616ffd799eb8a4ea46923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 20/33] fix: mark the edited program as modified even if the
 console fails

---
 repl/src/editor.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/repl/src/editor.rs b/repl/src/editor.rs
index 2224690..365460d 100644
--- a/repl/src/editor.rs
+++ b/repl/src/editor.rs
@@ -433,12 +433,11 @@ impl Editor {
                     line.insert(self.file_pos.col, ch);
                     self.file_pos.col += 1;
                     self.insert_col = self.file_pos.col;
+                    self.dirty = true;
 
                     if cursor_pos.x < console_size.x - 1 && refresh == RefreshKind::None {
                         console.write(ch.encode_utf8(&mut buf))?;
                     }
-
-                    self.dirty = true;
                 }
 
                 Key::End => {
@@ -496,10 +495,10 @@ impl Editor {
                     line.insert_str(self.file_pos.col, &new_text);
                     self.file_pos.col = new_pos;
                     self.insert_col = self.file_pos.col;
+                    self.dirty = true;
                     if refresh == RefreshKind::None {
                         console.write(&new_text)?;
                     }
-                    self.dirty = true;
                 }
 
                 // TODO(jmmv): Should do something smarter with unknown keys.
-- 
2.43.0


From 09f0e37fbcf230c8297dddbf589da478a9d85ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:30 +0000
Subject: [PATCH 21/33] fix: return infinite arguments from MAX and MIN

---
 std/src/numerics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/src/numerics.rs b/std/src/numerics.rs
index ff527fb..5494a2d 100644
--- a/std/src/numerics.rs
+++ b/std/src/numerics.rs
@@ -648,7 +648,7 @@ impl Callable for MaxFunction {
     }
 
     fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
-        let mut max = f64::MIN;
+        let mut max = f64::NEG_INFINITY;
         for i in 0..(scope.nargs() as u8) {
             let n = scope.get_double(i);
             if n > max {
@@ -693,7 +693,7 @@ impl Callable for MinFunction {
     }
 
     fn exec(&self, scope: Scope<'_>) -> CallResult<()> {
-        let mut min = f64::MAX;
+        let mut min = f64::INFINITY;
         for i in 0..(scope.nargs() as u8) {
             let n = scope.get_double(i);
             if n < min {
-- 
2.43.0


From a123813b3b9631440f471c980b36b871df075ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:48 +0000
Subject: [PATCH 22/33] fix: align fields of PRINT by characters

---
 std/src/console/cmds.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/console/cmds.rs b/std/src/console/cmds.rs
index c6b1786..4971762 100644
--- a/std/src/console/cmds.rs
+++ b/std/src/console/cmds.rs
@@ -590,7 +590,7 @@ impl Callable for PrintCommand {
                 ArgSep::End => break,
                 ArgSep::Long => {
                     text += " ";
-                    while !text.len().is_multiple_of(14) {
+                    while !text.chars().count().is_multiple_of(14) {
                         text += " ";
                     }
                 }
-- 
2.43.0


From f7ee8d1f96ff5110fa4f58ce6f19ff9ff125ed00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 23/33] fix: round to extreme numbers of decimals without
 overflows

---
 std/src/numerics.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/std/src/numerics.rs b/std/src/numerics.rs
index 5494a2d..bf72db5 100644
--- a/std/src/numerics.rs
+++ b/std/src/numerics.rs
@@ -954,7 +954,16 @@ impl Callable for RoundFunction {
             debug_assert_eq!(2, scope.nargs());
             let decimals = scope.get_integer(1);
             let factor = 10f64.powi(decimals);
-            scope.return_double((value * factor).round() / factor)
+            let scaled = value * factor;
+            let rounded = if !scaled.is_finite() {
+                // The value has no digits beyond the requested decimals.
+                value
+            } else if factor == 0.0 {
+                0.0
+            } else {
+                scaled.round() / factor
+            };
+            scope.return_double(rounded)
         }
     }
 }
-- 
2.43.0


From b89e53ed929e6a71e742e712069f8b3d0aa9b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 24/33] fix: measure prompts of line input in characters

---
 std/src/console/readline.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/std/src/console/readline.rs b/std/src/console/readline.rs
index a7fedfb..0162283 100644
--- a/std/src/console/readline.rs
+++ b/std/src/console/readline.rs
@@ -349,15 +349,15 @@ impl<'a, 'h> Readline<'a, 'h> {
         };
 
         let mut prompt = Cow::from(prompt);
-        let mut prompt_len = prompt.len();
+        let mut prompt_len = prompt.chars().count();
         if prompt_len >= console_width {
-            // TODO(jmmv): This slices by bytes and can split non-ASCII prompts.
             if console_width >= 5 {
-                prompt = Cow::from(format!("{}...", &prompt[0..console_width - 5]));
+                let visible = prompt.chars().take(console_width - 5).collect::<String>();
+                prompt = Cow::from(format!("{}...", visible));
             } else {
                 prompt = Cow::from("");
             }
-            prompt_len = prompt.len();
+            prompt_len = prompt.chars().count();
         }
 
         let input_width = {
-- 
2.43.0


From aa0c6b9e763afe7bf63be045a01f4dd8e3e19a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:02 +0000
Subject: [PATCH 25/33] fix: count characters, not bytes, of copied indentation

---
 repl/src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repl/src/editor.rs b/repl/src/editor.rs
index 365460d..9f0e2eb 100644
--- a/repl/src/editor.rs
+++ b/repl/src/editor.rs
@@ -457,7 +457,7 @@ impl Editor {
 
                 Key::NewLine | Key::CarriageReturn => {
                     let indent = copy_indent(&self.content[self.file_pos.line]);
-                    let indent_len = indent.len();
+                    let indent_len = indent.chars().count();
 
                     let appending = (self.file_pos.line + 1 == self.content.len())
                         && (self.file_pos.col == self.content[self.file_pos.line].len());
-- 
2.43.0


From 07d866665e187e242a061201e36b85ad4a411708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 26/33] fix: clear the previous character at the beginning of a
 row without crashing

---
 std/src/console/graphics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index 60f693d..d593c2c 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -512,8 +512,8 @@ where
                 self.cursor_pos.x = 0;
             }
             ClearType::PreviousChar => {
+                self.clear_cursor()?;
                 if self.cursor_pos.x > 0 {
-                    self.clear_cursor()?;
                     let previous_pos = CharsXY::new(self.cursor_pos.x - 1, self.cursor_pos.y);
                     let origin = previous_pos.clamped_mul(self.glyph_size);
                     self.raster_ops.set_draw_color(self.bg_color);
-- 
2.43.0


From 4bd774a149ba42c977598698b975e1b319a92f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:39 +0000
Subject: [PATCH 27/33] fix: keep the cursor out of the copy of the screen
 behind the alternate one

---
 std/src/console/graphics.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/std/src/console/graphics.rs b/std/src/console/graphics.rs
index d593c2c..f8d10aa 100644
--- a/std/src/console/graphics.rs
+++ b/std/src/console/graphics.rs
@@ -558,6 +558,7 @@ where
             ));
         }
 
+        self.clear_cursor()?;
         let pixels = self.raster_ops.read_pixels(PixelsXY::new(0, 0), self.size_pixels)?;
         self.alt_backup = Some((
             pixels,
-- 
2.43.0


From d250e5e2d1c2c18eca25e2730d4fba2c7faad8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 28/33] fix: do not fill forever with a color that looks like
 the one to replace

---
 std/src/console/drawing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/std/src/console/drawing.rs b/std/src/console/drawing.rs
index 256cec3..b1f3bcc 100644
--- a/std/src/console/drawing.rs
+++ b/std/src/console/drawing.rs
@@ -142,6 +142,10 @@ where
         }
 
         rasops.draw_pixel(xy)?;
+        if rasops.peek_pixel(xy)? == Some(seed_color) {
+            // Different color numbers can look the same, in which case the region is done already.
+            return Ok(());
+        }
 
         if xy.x > i16::MIN {
             pending.push(PixelsXY::new(xy.x - 1, xy.y));
-- 
2.43.0


From f79dd5a1ca78a033ece04050df4062afacf57c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:05 +0000
Subject: [PATCH 29/33] fix: draw no part of filled rectangles that lie beyond
 an LCD

---
 std/src/gfx/lcd/buffered/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/std/src/gfx/lcd/buffered/mod.rs b/std/src/gfx/lcd/buffered/mod.rs
index 683e16a..09d4ed9 100644
--- a/std/src/gfx/lcd/buffered/mod.rs
+++ b/std/src/gfx/lcd/buffered/mod.rs
@@ -486,6 +486,12 @@ where
     }
 
     fn draw_rect_filled(&mut self, xy: PixelsXY, size: SizeInPixels) -> io::Result<()> {
+        let beyond =
+            |value: i16, len: usize| usize::try_from(value).is_ok_and(|value| value >= len);
+        if beyond(xy.x, self.size_pixels.width) || beyond(xy.y, self.size_pixels.height) {
+            return Ok(());
+        }
+
         let x1y1 = self.clamp_xy(xy);
         let x2y2 = self.clip_x2y2(xy, size);
         match x2y2 {
-- 
2.43.0


From 50e760a09844355dde01169a0bbfbf558ca9b0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:41 +0000
Subject: [PATCH 30/33] fix: measure text to wrap in characters

---
 std/src/console/format.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/std/src/console/format.rs b/std/src/console/format.rs
index 971d4cf..999f45e 100644
--- a/std/src/console/format.rs
+++ b/std/src/console/format.rs
@@ -31,7 +31,9 @@ fn refill(paragraph: &str, width: usize) -> Vec<String> {
     let mut lines = vec![];
 
     let mut line = String::new();
+    let mut line_len = 0;
     for word in paragraph.split_whitespace() {
+        let word_len = word.chars().count();
         if !line.is_empty() {
             // Determine how many spaces to inject after a period.  We want 2 spaces to separate
             // different sentences and 1 otherwise.  The heuristic here isn't great and it'd be
@@ -43,16 +45,19 @@ fn refill(paragraph: &str, width: usize) -> Vec<String> {
                 1
             };
 
-            if (line.len() + word.len() + spaces) >= width {
+            if (line_len + word_len + spaces) >= width {
                 lines.push(line);
                 line = String::new();
+                line_len = 0;
             } else {
                 for _ in 0..spaces {
                     line.push(' ');
                 }
+                line_len += spaces;
             }
         }
         line.push_str(word);
+        line_len += word_len;
     }
     if !line.is_empty() {
         lines.push(line);
-- 
2.43.0


From 813209726567ed488bc4127a0bc7b2728a117d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:00 +0000
Subject: [PATCH 31/33] fix: do not crash when wrapping text for very narrow
 consoles

---
 std/src/console/format.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/std/src/console/format.rs b/std/src/console/format.rs
index 999f45e..2e52647 100644
--- a/std/src/console/format.rs
+++ b/std/src/console/format.rs
@@ -94,7 +94,9 @@ fn refill_many<S: AsRef<str>, P: IntoIterator<Item = S>>(
             }
         }
 
-        let lines = refill(paragraph, width - 4 - indent.len() - extra_indent.len());
+        // Words do not fit in consoles that are too narrow so they end up in lines of their own.
+        let width = width.saturating_sub(4 + indent.len() + extra_indent.len());
+        let lines = refill(paragraph, width);
         for line in lines {
             if line.is_empty() {
                 formatted.push(String::new());
-- 
2.43.0


From 13dc3845ad50b08d2360c066aeeb3e7f1d22ec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 32/33] fix: count the columns of paged text in characters

---
 std/src/console/pager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/src/console/pager.rs b/std/src/console/pager.rs
index 2d2eda7..e4bae02 100644
--- a/std/src/console/pager.rs
+++ b/std/src/console/pager.rs
@@ -88,7 +88,7 @@ impl<'a> Pager<'a> {
                 yielder.yield_now().await;
             }
 
-            self.cur_columns += text.len();
+            self.cur_columns += text.chars().count();
             self.cur_lines += (self.cur_columns / usize::from(self.size.x)) + 1;
 
             if self.cur_lines >= usize::from(self.size.y) - 1 {
@@ -110,7 +110,7 @@ impl<'a> Pager<'a> {
     pub(crate) fn write(&mut self, text: &str) -> io::Result<()> {
         self.console.write(text)?;
         if self.console.is_interactive() {
-            self.cur_columns += text.len();
+            self.cur_columns += text.chars().count();
         }
         Ok(())
     }
-- 
2.43.0


From 7ef2898cf74e0ec969ba9ddc39e4cd7407791c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:57 +0000
Subject: [PATCH 33/33] fix: restore the colors when HELP is interrupted

---
 std/src/help.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/std/src/help.rs b/std/src/help.rs
index 4a98957..429a1a7 100644
--- a/std/src/help.rs
+++ b/std/src/help.rs
@@ -499,11 +499,16 @@ impl Callable for HelpCommand {
 
         if scope.nargs() == 0 {
             let mut console = self.console.borrow_mut();
+            let previous = console.color();
             let result = {
                 let mut pager =
                     Pager::new(&mut *console, self.yielder.clone()).map_err(CallError::from)?;
                 self.summary(&topics, &mut pager).await
             };
+            if result.is_err() {
+                // Stopping half-way must not leave the colors of titles or links behind.
+                console.set_color(previous.0, previous.1).map_err(CallError::from)?;
+            }
             result.map_err(CallError::from)?;
         } else {
             debug_assert_eq!(1, scope.nargs());
@@ -511,11 +516,16 @@ impl Callable for HelpCommand {
 
             let topic = topics.find(&t, &scope, 0)?;
             let mut console = self.console.borrow_mut();
+            let previous = console.color();
             let result = {
                 let mut pager =
                     Pager::new(&mut *console, self.yielder.clone()).map_err(CallError::from)?;
                 topic.describe(&mut pager).await
             };
+            if result.is_err() {
+                // Stopping half-way must not leave the colors of titles or links behind.
+                console.set_color(previous.0, previous.1).map_err(CallError::from)?;
+            }
             result.map_err(CallError::from)?;
         }
 
-- 
2.43.0

