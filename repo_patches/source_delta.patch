From 77de992c93247703bf9303d6b041b1f46c891b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:01 +0000
Subject: [PATCH 01/27] fix: adt.variant_is yields a boolean of the converted
 width in native code

The comparison result is an i8, while every other boolean of the native
target is an i32; a variant test combined with another condition (nested
patterns), passed, returned or stored was rejected by the code generator.
---
 .../src/passes/adt_to_clif.rs                  | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs b/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs
index 157e1c9..a7aca1a 100644
--- a/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs
+++ b/crates/trunk-ir-cranelift-backend/src/passes/adt_to_clif.rs
@@ -223,7 +223,23 @@ impl RewritePattern for VariantIsPattern {
 
         rewriter.insert_op(tag_load.op_ref());
         rewriter.insert_op(expected.op_ref());
-        rewriter.replace_op(cmp_op.op_ref());
+
+        // Cranelift's icmp always yields an i8. When the converted boolean type
+        // is wider (the native converter maps core.i1 to core.i32), extend so
+        // that consumers other than branches see the expected width.
+        let result_ty = rewriter.result_type(ctx, op, 0).unwrap_or(i1_ty);
+        let is_wider = {
+            let data = ctx.types.get(result_ty);
+            data.dialect == Symbol::new("core")
+                && matches!(data.name.to_string().as_str(), "i16" | "i32" | "i64")
+        };
+        if is_wider {
+            rewriter.insert_op(cmp_op.op_ref());
+            let extended = clif::uextend(ctx, loc, cmp_op.result(ctx), result_ty);
+            rewriter.replace_op(extended.op_ref());
+        } else {
+            rewriter.replace_op(cmp_op.op_ref());
+        }
         true
     }
 }
-- 
2.43.0


From a77e32e988e0a88475012f78c88c4230f1c271fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:22 +0000
Subject: [PATCH 02/27] fix: retain references passed to a join that stay alive
 or are passed twice

clif.jump moved the value's only ownership unit into every anyref block
argument, even when the value is still used afterwards or is passed more
than once, so the object was released too often.
---
 .../tribute-passes/src/native/rc_insertion.rs | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/crates/tribute-passes/src/native/rc_insertion.rs b/crates/tribute-passes/src/native/rc_insertion.rs
index b98854b..31993be 100644
--- a/crates/tribute-passes/src/native/rc_insertion.rs
+++ b/crates/tribute-passes/src/native/rc_insertion.rs
@@ -1285,6 +1285,39 @@ fn insert_rc_in_block(
 
     // --- Retain insertions ---
 
+    // 0. Jump: every anyref block argument of the target receives one ownership
+    // unit. The value's own unit can be moved once, and only if it dies here.
+    if let Some(&jump) = ops.last()
+        && clif::Jump::matches(ctx, jump)
+        && let Some(&target) = ctx.op(jump).successors.first()
+    {
+        let passed: Vec<(ValueRef, ValueRef)> = ctx
+            .op_operands(jump)
+            .iter()
+            .copied()
+            .zip(ctx.block_args(target).iter().copied())
+            .collect();
+        let mut moved = HashSet::new();
+        for (argument, parameter) in passed {
+            if !is_anyref_value(ctx, parameter) || is_static_ptr(ctx, argument) {
+                continue;
+            }
+            let owned = ptr_alias_map.get(&argument).copied().unwrap_or(argument);
+            let can_move = ptr_values.contains(&owned)
+                && !live_out.contains(&owned)
+                && !borrow_info.parameters.contains(&owned)
+                && !borrow_info.temporaries.contains(&owned);
+            if can_move && moved.insert(owned) {
+                continue;
+            }
+            let retain = tribute_rt::retain(ctx, ctx.op(jump).location, argument, ptr_ty);
+            plan.before
+                .entry(ops.len() - 1)
+                .or_default()
+                .push(retain.op_ref());
+        }
+    }
+
     // 1. Entry block: retain each ptr parameter
     if is_entry {
         let args: Vec<ValueRef> = ctx.block_args(block).to_vec();
-- 
2.43.0


From c8dccaa7e2bcb3de54e0ef91317bd415f5abacda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:22 +0000
Subject: [PATCH 03/27] fix: release references that are dead on one branch of
 a conditional

A value that is used in only one successor of a branching block was never
released when the other successor was taken.
---
 .../tribute-passes/src/native/rc_insertion.rs | 43 +++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/crates/tribute-passes/src/native/rc_insertion.rs b/crates/tribute-passes/src/native/rc_insertion.rs
index 31993be..7713450 100644
--- a/crates/tribute-passes/src/native/rc_insertion.rs
+++ b/crates/tribute-passes/src/native/rc_insertion.rs
@@ -830,6 +830,49 @@ fn insert_rc_in_function(
             call_contracts,
         );
     }
+    release_on_dead_edges(ctx, body, &blocks, &liveness, &borrow_info);
+}
+
+/// Release values that leave a branching block alive but are not needed by one
+/// of its successors. Only successors entered by that edge alone can tell; the
+/// lowering of structured control flow produces no others.
+fn release_on_dead_edges(
+    ctx: &mut IrContext,
+    body: RegionRef,
+    blocks: &[BlockRef],
+    liveness: &LivenessInfo,
+    borrow_info: &RcBorrowInfo<'_>,
+) {
+    let successor_map = build_successor_map(ctx, body);
+    for &block in blocks {
+        let mut predecessors = blocks
+            .iter()
+            .flat_map(|b| successor_map[b].iter().map(move |s| (*b, *s)))
+            .filter(|(_, successor)| *successor == block)
+            .map(|(predecessor, _)| predecessor);
+        let (Some(predecessor), None) = (predecessors.next(), predecessors.next()) else {
+            continue;
+        };
+        let mut dead: Vec<ValueRef> = liveness.live_out[&predecessor]
+            .difference(&liveness.live_in[&block])
+            .copied()
+            .filter(|value| {
+                !borrow_info.parameters.contains(value) && !borrow_info.temporaries.contains(value)
+            })
+            .collect();
+        dead.sort();
+
+        let location = ctx.block(block).location;
+        let first = ctx.block(block).ops.first().copied();
+        for value in dead {
+            let size = infer_alloc_size(ctx, value);
+            let release = tribute_rt::release(ctx, location, value, size).op_ref();
+            match first {
+                Some(op) => ctx.insert_op_before(block, op, release),
+                None => ctx.push_op(block, release),
+            }
+        }
+    }
 }
 
 fn analyze_temporary_borrows(
-- 
2.43.0


From 9c2f5464b6d158c64e197f481d86337c91c2658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:57 +0000
Subject: [PATCH 04/27] fix: clone_region remaps uses of values defined in
 later blocks

Blocks need not be listed in dominance order; a use in an earlier listed
block kept referring to the original value instead of its clone.
---
 crates/trunk-ir/src/context.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir/src/context.rs b/crates/trunk-ir/src/context.rs
index fc15b4b..8beda89 100644
--- a/crates/trunk-ir/src/context.rs
+++ b/crates/trunk-ir/src/context.rs
@@ -804,11 +804,37 @@ impl IrContext {
             }
         }
 
-        self.create_region(RegionData {
+        let new_region = self.create_region(RegionData {
             location: loc,
             blocks: new_blocks.into(),
             parent_op: None,
-        })
+        });
+
+        // Pass 3: blocks need not be listed in dominance order, so an operand may
+        // refer to a value whose clone did not exist yet in pass 2.
+        let src_ops = self.ops_in_region(src_region);
+        let new_ops = self.ops_in_region(new_region);
+        for (src_op, new_op) in src_ops.into_iter().zip(new_ops) {
+            for index in 0..self.op_operands(src_op).len() {
+                let operand = self.op_operands(src_op)[index];
+                if self.op_operands(new_op)[index] == operand {
+                    let cloned = mapping.lookup_value_or_default(operand);
+                    self.set_op_operand(new_op, index as u32, cloned);
+                }
+            }
+        }
+
+        new_region
+    }
+
+    /// All operations in a region, nested ones included, in pre-order.
+    fn ops_in_region(&self, region: RegionRef) -> Vec<OpRef> {
+        let mut ops = Vec::new();
+        let _ = crate::walk::walk_region::<()>(self, region, &mut |op| {
+            ops.push(op);
+            std::ops::ControlFlow::Continue(crate::walk::WalkAction::Advance)
+        });
+        ops
     }
 
     /// Clone an operation and append it to a destination block.
-- 
2.43.0


From 33041eac4355ba7e179896ad3d497d312ab5182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:57 +0000
Subject: [PATCH 05/27] fix: closure.lambda attributes are not swallowed by a
 parameterized return type

---
 crates/tribute-ir/src/dialect/closure.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/tribute-ir/src/dialect/closure.rs b/crates/tribute-ir/src/dialect/closure.rs
index 69c8d74..d156814 100644
--- a/crates/tribute-ir/src/dialect/closure.rs
+++ b/crates/tribute-ir/src/dialect/closure.rs
@@ -93,7 +93,13 @@ fn print_closure_lambda(
         h.write_type(return_ty)?;
     }
 
-    // " {key = val, ...}" — attributes (if any)
+    // " {key = val, ...}" — attributes (if any).  A parameterized return type
+    // without attributes of its own would absorb a bare dictionary, so it is
+    // introduced by a keyword then.
+    let ambiguous = return_ty.is_some_and(|ty| {
+        let data = h.ctx().types.get(ty);
+        !data.params.is_empty() && data.attrs.is_empty()
+    });
     let attrs: Vec<(trunk_ir::Symbol, trunk_ir::Attribute)> = h
         .ctx()
         .op(op)
@@ -102,6 +108,9 @@ fn print_closure_lambda(
         .map(|(k, v)| (*k, v.clone()))
         .collect();
     if !attrs.is_empty() {
+        if ambiguous {
+            write!(h, " attributes")?;
+        }
         write!(h, " {{")?;
         for (i, (key, val)) in attrs.iter().enumerate() {
             if i > 0 {
@@ -176,7 +185,9 @@ fn parse_closure_lambda<'a>(
     // "-> return_type" (optional)
     let ret_ty = opt(return_type).parse_next(input)?;
 
-    // " {key = val, ...}" (optional attributes — distinguished from body by lookahead)
+    // " [attributes] {key = val, ...}" (optional attributes — distinguished from body by lookahead)
+    ws.parse_next(input)?;
+    opt("attributes").parse_next(input)?;
     ws.parse_next(input)?;
     let attributes = if starts_attr_dict(input) {
         raw_attr_dict.parse_next(input)?
-- 
2.43.0


From d4624bc90fce71a01e19a465a904ecafbe4f3409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:57 +0000
Subject: [PATCH 06/27] fix: parse operations without operands before results,
 and quoted type aliases with escapes

---
 crates/trunk-ir/src/parser/raw.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/crates/trunk-ir/src/parser/raw.rs b/crates/trunk-ir/src/parser/raw.rs
index 64836ad..bef850a 100644
--- a/crates/trunk-ir/src/parser/raw.rs
+++ b/crates/trunk-ir/src/parser/raw.rs
@@ -539,8 +539,13 @@ pub fn raw_operation<'a>(input: &mut &'a str) -> ModalResult<RawOperation<'a>> {
             // Empty parens: no params, no operands
         }
     } else if input.starts_with('%') {
-        // Operand list
+        // Operand list, unless these are the results of the next operation
+        let start = *input;
         operands = opt(operand_list).parse_next(input)?.unwrap_or_default();
+        if input.starts_with('=') {
+            *input = start;
+            operands.clear();
+        }
     }
 
     // Successor list (optional): [^bb0, ^bb1]
@@ -639,11 +644,19 @@ fn is_type_alias_def(input: &str) -> bool {
     }
     let rest = &input[1..];
     let after_name = if let Some(quoted) = rest.strip_prefix('"') {
-        // Quoted: skip to closing quote (simplified — no escape handling needed for lookahead)
-        match quoted.find('"') {
-            Some(end) => &quoted[end + 1..],
-            None => return false,
-        }
+        // Quoted: skip to the closing quote, stepping over escaped characters
+        let mut chars = quoted.char_indices();
+        let end = loop {
+            match chars.next() {
+                Some((_, '\\')) => {
+                    chars.next();
+                }
+                Some((end, '"')) => break end,
+                Some(_) => {}
+                None => return false,
+            }
+        };
+        &quoted[end + 1..]
     } else {
         // Bare ident
         let after_ident = rest.trim_start_matches(|c: char| c.is_ascii_alphanumeric() || c == '_');
-- 
2.43.0


From 8702e82bfe35f417c90cf98510964a0628aebd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:57 +0000
Subject: [PATCH 07/27] fix: print labels of self-branching blocks, quote
 digit-leading aliases, keep alias names distinct

---
 crates/trunk-ir/src/printer.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/crates/trunk-ir/src/printer.rs b/crates/trunk-ir/src/printer.rs
index 076eace..cfb84e9 100644
--- a/crates/trunk-ir/src/printer.rs
+++ b/crates/trunk-ir/src/printer.rs
@@ -243,7 +243,8 @@ impl<'a, 'ctx> OpPrintHelper<'a, 'ctx> {
             self.state.assign_block_label(block);
         }
 
-        let is_single_block = blocks.len() == 1;
+        let is_single_block =
+            blocks.len() == 1 && !branches_to(self.state.ctx, blocks[0], blocks[0]);
 
         for (i, &block) in blocks.iter().enumerate() {
             if i == 0 && is_single_block {
@@ -436,8 +437,9 @@ pub(crate) fn write_escaped_string(f: &mut dyn Write, s: &str) -> fmt::Result {
 
 /// Write a type alias name with `!` prefix. Quotes if name contains non-ident chars.
 fn write_type_alias_name(f: &mut dyn Write, name: &str) -> fmt::Result {
-    let needs_quoting =
-        name.is_empty() || !name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
+    let needs_quoting = name.is_empty()
+        || name.starts_with(|c: char| c.is_ascii_digit())
+        || !name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
     if needs_quoting {
         f.write_str("!\"")?;
         write_escaped_string(f, name)?;
@@ -566,7 +568,9 @@ fn generate_auto_aliases(
     candidates.sort_by(|a, b| b.1.cmp(&a.1).then(b.2.cmp(&a.2)).then(a.3.cmp(&b.3)));
 
     // Name assignment
+    // (several registered aliases may name one type; `existing` holds only one of them)
     let mut used_names: HashSet<String> = existing.values().cloned().collect();
+    used_names.extend(ctx.type_aliases().iter().map(|(name, _)| name.to_string()));
     let mut next_num = 0usize;
     let mut result = Vec::new();
 
@@ -824,6 +828,15 @@ fn print_generic_op(
 // Region / Block printing
 // ============================================================================
 
+/// Whether an operation of block `from` names `to` as a successor, so that the
+/// label of `to` has to be printed.
+fn branches_to(ctx: &IrContext, from: BlockRef, to: BlockRef) -> bool {
+    ctx.block(from)
+        .ops
+        .iter()
+        .any(|&op| ctx.op(op).successors.contains(&to))
+}
+
 fn print_region(
     state: &mut PrintState<'_>,
     f: &mut dyn Write,
@@ -838,7 +851,9 @@ fn print_region(
         state.assign_block_label(block);
     }
 
-    let can_elide_label = blocks.len() == 1 && state.ctx.block_args(blocks[0]).is_empty();
+    let can_elide_label = blocks.len() == 1
+        && state.ctx.block_args(blocks[0]).is_empty()
+        && !branches_to(state.ctx, blocks[0], blocks[0]);
 
     for (i, &block) in blocks.iter().enumerate() {
         if !can_elide_label {
-- 
2.43.0


From 6bc6d6c0ffd2ec93bd13c158980efb08332a543e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:13 +0000
Subject: [PATCH 08/27] fix: nested pass managers must skip targets erased by
 an earlier pass

remove_op keeps the arena slot with its dialect and name, so the
T::matches test alone never recognised an erased target and nested
passes ran on (and were verified against) operations no longer in the
module. Skip targets that are no longer below the op being processed.
---
 crates/trunk-ir/src/pass.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir/src/pass.rs b/crates/trunk-ir/src/pass.rs
index 92fa180..1ad3bbf 100644
--- a/crates/trunk-ir/src/pass.rs
+++ b/crates/trunk-ir/src/pass.rs
@@ -242,8 +242,10 @@ impl<T: DialectOp + 'static> NestedRunner for TypedNested<T> {
         let targets = collect_targets::<T>(ctx, parent_op);
         for target in targets {
             // Skip stale refs: a previous pass in this nested manager may
-            // have erased the op.
-            if !T::matches(ctx, target.op_ref()) {
+            // have erased the op. Erased ops keep their arena slot (and
+            // dialect/name), so also require the op to still be reachable
+            // from the op we are running on.
+            if !T::matches(ctx, target.op_ref()) || !is_within(ctx, target.op_ref(), parent_op) {
                 continue;
             }
             ensure_nested_anchor_is_isolated(ctx, target.op_ref())?;
@@ -270,6 +272,23 @@ fn target_still_alive<T: DialectOp>(ctx: &IrContext, op: OpRef, pre_attached: bo
     !pre_attached || ctx.op(op).parent_block.is_some()
 }
 
+/// Returns whether `op` is `root` or still attached somewhere below it.
+fn is_within(ctx: &IrContext, op: OpRef, root: OpRef) -> bool {
+    let mut current = op;
+    while current != root {
+        let parent = ctx
+            .op(current)
+            .parent_block
+            .and_then(|block| ctx.block(block).parent_region)
+            .and_then(|region| ctx.region(region).parent_op);
+        let Some(parent) = parent else {
+            return false;
+        };
+        current = parent;
+    }
+    true
+}
+
 fn collect_targets<T: DialectOp>(ctx: &IrContext, root: OpRef) -> Vec<T> {
     let mut found = Vec::new();
     let _ = walk_op::<()>(ctx, root, &mut |op| {
-- 
2.43.0


From edb9724851c5146d31059b8e89be5e48e2fa689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:07 +0000
Subject: [PATCH 09/27] fix: lower scf.if and scf.loop without results to wasm

The patterns default the result type to nil and then replaced an op with no
results by one with a nil result, which panics in replace_op.
---
 .../src/passes/scf_to_wasm.rs                 | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs b/crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs
index 3d0c1c3..413ed05 100644
--- a/crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs
+++ b/crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs
@@ -53,6 +53,7 @@ impl RewritePattern for ScfIfPattern {
         if result_types.len() > 1 {
             return false;
         }
+        let has_result = !result_types.is_empty();
         let result_ty = result_types
             .first()
             .copied()
@@ -68,7 +69,7 @@ impl RewritePattern for ScfIfPattern {
         ctx.detach_region(else_region);
 
         let new_op = wasm_dialect::r#if(ctx, loc, cond, result_ty, then_region, else_region);
-        rewriter.replace_op(new_op.op_ref());
+        replace_structured_op(rewriter, new_op.op_ref(), has_result);
         true
     }
 }
@@ -99,6 +100,7 @@ impl RewritePattern for ScfLoopPattern {
         if result_types.len() > 1 {
             return false;
         }
+        let has_result = !result_types.is_empty();
         let result_ty = result_types
             .first()
             .copied()
@@ -130,7 +132,7 @@ impl RewritePattern for ScfLoopPattern {
         });
 
         let wasm_block = wasm_dialect::block(ctx, loc, result_ty, block_body);
-        rewriter.replace_op(wasm_block.op_ref());
+        replace_structured_op(rewriter, wasm_block.op_ref(), has_result);
         true
     }
 }
@@ -267,3 +269,16 @@ impl RewritePattern for ScfBreakPattern {
 // ============================================================================
 // Helpers
 // ============================================================================
+
+/// Put `new_op` in the place of the structured op being rewritten.
+///
+/// `wasm.if` and `wasm.block` always carry a (possibly nil) result, so an scf
+/// op without results has nothing to map onto it.
+fn replace_structured_op(rewriter: &mut PatternRewriter<'_>, new_op: OpRef, has_result: bool) {
+    if has_result {
+        rewriter.replace_op(new_op);
+    } else {
+        rewriter.insert_op(new_op);
+        rewriter.erase_op(vec![]);
+    }
+}
-- 
2.43.0


From 6ff7c18e901a7f619c4068e2e036a41b9abf34ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:05 +0000
Subject: [PATCH 10/27] fix: resolve wasm.call_indirect's type index from its
 signature

Lowering sets type_idx to a placeholder 0; the emitter used it as if it were
resolved, so every indirect call named type 0.
---
 .../src/emit/handlers/call_handlers.rs        | 41 ++++++++-----------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
index c4fb863..ba93d39 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
@@ -192,32 +192,23 @@ pub(crate) fn handle_call_indirect(
         ctx.types.get(result_ty).name
     );
 
-    // Get or compute type_idx
+    // Resolve the type index from the signature. The `type_idx` attribute is
+    // only a placeholder set by lowering, before the type section exists.
     let attrs = &ctx.op(op).attributes;
-    let type_idx = match attr_u32(attrs, Symbol::new("type_idx")) {
-        Ok(idx) => {
-            debug!("call_indirect emit: using type_idx from attribute: {}", idx);
-            idx
-        }
-        Err(_) => {
-            // Look up type index
-            let idx = module_info
-                .type_idx_by_type
-                .get(&func_type)
-                .copied()
-                .ok_or_else(|| {
-                    debug!(
-                        "call_indirect emit: func_type not found in type_idx_by_type! func_type={:?}",
-                        func_type
-                    );
-                    CompilationError::invalid_module(
-                        "wasm.call_indirect function type not registered in type section",
-                    )
-                })?;
-            debug!("call_indirect emit: looked up type_idx: {}", idx);
-            idx
-        }
-    };
+    let type_idx = module_info
+        .type_idx_by_type
+        .get(&func_type)
+        .copied()
+        .ok_or_else(|| {
+            debug!(
+                "call_indirect emit: func_type not found in type_idx_by_type! func_type={:?}",
+                func_type
+            );
+            CompilationError::invalid_module(
+                "wasm.call_indirect function type not registered in type section",
+            )
+        })?;
+    debug!("call_indirect emit: looked up type_idx: {}", type_idx);
 
     // call_indirect with i32 table index
     // IR operand order: [table_idx, arg1, arg2, ...]
-- 
2.43.0


From 3de98c0e0dadf3b162dc3a7f8b190961803a4b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:06 +0000
Subject: [PATCH 11/27] fix: wasm branch depth of scf.continue and scf.break in
 nested ifs

The depths 1 and 2 assumed exactly one scf.if between the op and its loop.
---
 .../src/passes/scf_to_wasm.rs                 | 57 +++++++++++++------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs b/crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs
index 413ed05..c6e4118 100644
--- a/crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs
+++ b/crates/trunk-ir-wasm-backend/src/passes/scf_to_wasm.rs
@@ -4,8 +4,8 @@
 //! - `scf.if` -> `wasm.if`
 //! - `scf.loop` -> `wasm.block(wasm.loop(...))`
 //! - `scf.yield` -> `wasm.yield` (tracks region result value)
-//! - `scf.continue` -> `wasm.br(target=1)` (branch to loop)
-//! - `scf.break` -> `wasm.br(target=2)` (branch to outer block, past if and loop)
+//! - `scf.continue` -> `wasm.br` to the loop
+//! - `scf.break` -> `wasm.br` to the outer block, past the loop
 
 use trunk_ir::context::{BlockData, IrContext, RegionData};
 use trunk_ir::dialect::core;
@@ -77,9 +77,9 @@ impl RewritePattern for ScfIfPattern {
 /// Pattern for `scf.loop` -> `wasm.block(wasm.loop(...))`
 ///
 /// The loop is wrapped in a block to provide a break target.
-/// From inside a `wasm.if` within the loop body:
-/// - `wasm.br(target=1)` branches to the loop (continue)
-/// - `wasm.br(target=2)` branches to the block (break)
+/// From inside `n` nested `wasm.if`s within the loop body:
+/// - `wasm.br(target=n)` branches to the loop (continue)
+/// - `wasm.br(target=n+1)` branches to the block (break)
 struct ScfLoopPattern;
 
 impl RewritePattern for ScfLoopPattern {
@@ -181,11 +181,9 @@ impl RewritePattern for ScfYieldPattern {
     }
 }
 
-/// Pattern for `scf.continue` -> `wasm.br(target=1)`
+/// Pattern for `scf.continue` -> `wasm.br`
 ///
-/// Branches to the enclosing wasm.loop. Depth 1 is correct because
-/// `scf.continue` is always inside a `scf.if` (depth 0 = wasm.if,
-/// depth 1 = wasm.loop) within a `scf.loop`.
+/// Branches to the enclosing wasm.loop, past the `wasm.if`s between.
 struct ScfContinuePattern;
 
 impl RewritePattern for ScfContinuePattern {
@@ -200,6 +198,7 @@ impl RewritePattern for ScfContinuePattern {
         }
 
         let loc = ctx.op(op).location;
+        let depth = loop_depth(ctx, op);
 
         // Get loop-carried values (variadic operands)
         let values = ctx.op_operands(op).to_vec();
@@ -210,17 +209,17 @@ impl RewritePattern for ScfContinuePattern {
 
         if values.is_empty() {
             // No loop-carried values -- simple branch
-            let br_op = wasm_dialect::br(ctx, loc, 1);
+            let br_op = wasm_dialect::br(ctx, loc, depth);
             rewriter.replace_op(br_op.op_ref());
             return true;
         }
 
-        // Emit wasm.yield(value) + wasm.br(1) for each loop-carried value.
+        // Emit wasm.yield(value) + wasm.br for each loop-carried value.
         // The emit layer will translate yield+br targeting a loop into
         // local.set for the loop arg followed by br.
         let value = values[0];
         let yield_op = wasm_dialect::r#yield(ctx, loc, value);
-        let br_op = wasm_dialect::br(ctx, loc, 1);
+        let br_op = wasm_dialect::br(ctx, loc, depth);
 
         rewriter.insert_op(yield_op.op_ref());
         rewriter.replace_op(br_op.op_ref());
@@ -228,12 +227,11 @@ impl RewritePattern for ScfContinuePattern {
     }
 }
 
-/// Pattern for `scf.break` -> `wasm.yield(value) + wasm.br(target=2)`
+/// Pattern for `scf.break` -> `wasm.yield(value) + wasm.br`
 ///
 /// Branches to the enclosing wasm.block with a result value.
-/// `scf.break` is always inside a `scf.if` within a `scf.loop`, so after
-/// lowering the nesting is: wasm.block > wasm.loop > wasm.if. From inside
-/// the wasm.if, depth 2 targets the outer wasm.block (break out of loop).
+/// After lowering the nesting is: wasm.block > wasm.loop > wasm.if*, so the
+/// outer wasm.block (break out of loop) is one level past the wasm.loop.
 ///
 /// According to WASM spec, `br` instruction takes no operands - values are
 /// passed via the stack. We use `wasm.yield` to mark the break value as the
@@ -257,8 +255,9 @@ impl RewritePattern for ScfBreakPattern {
         // Emit the break value via wasm.yield (marks it as region result)
         let yield_op = wasm_dialect::r#yield(ctx, loc, value);
 
-        // Branch to outer block (depth 2: if=0, loop=1, block=2)
-        let br_op = wasm_dialect::br(ctx, loc, 2);
+        // Branch to the block around the loop
+        let depth = loop_depth(ctx, op) + 1;
+        let br_op = wasm_dialect::br(ctx, loc, depth);
 
         rewriter.insert_op(yield_op.op_ref());
         rewriter.replace_op(br_op.op_ref());
@@ -270,6 +269,28 @@ impl RewritePattern for ScfBreakPattern {
 // Helpers
 // ============================================================================
 
+/// Number of structured ops between `op` and its loop, which is the branch
+/// depth of the `wasm.loop` there. Ops are lowered innermost first, so the
+/// enclosing ops are still `scf.if` and `scf.loop` (or already wasm, when only
+/// part of the nest was written in scf).
+fn loop_depth(ctx: &IrContext, op: OpRef) -> u32 {
+    let mut depth = 0;
+    let mut current = op;
+    while let Some(parent) = ctx
+        .op(current)
+        .parent_block
+        .and_then(|block| ctx.block(block).parent_region)
+        .and_then(|region| ctx.region(region).parent_op)
+    {
+        if scf::Loop::matches(ctx, parent) || wasm_dialect::Loop::matches(ctx, parent) {
+            break;
+        }
+        depth += 1;
+        current = parent;
+    }
+    depth
+}
+
 /// Put `new_op` in the place of the structured op being rewritten.
 ///
 /// `wasm.if` and `wasm.block` always carry a (possibly nil) result, so an scf
-- 
2.43.0


From 177513ffed2fb47c011fa2cf69b62c4474cfe712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:06 +0000
Subject: [PATCH 12/27] fix: keep the result of a wasm.if whose then branch
 leaves

Whether the if produces a value was decided by the then region alone; when it
ends in a branch or return, the value yielded by the else region was dropped.
---
 .../src/emit/handlers/control_flow_handlers.rs     | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs
index fbdb6bc..bf5f4a1 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/control_flow_handlers.rs
@@ -73,14 +73,16 @@ pub(crate) fn handle_if(
     let operands = ctx.op_operands(op);
     let result_ty = ctx.op_result_types(op).first().copied();
 
-    // Check if we can actually get a result value from the then region
+    // Check if we can actually get a result value from one of the regions
+    // (the other one may leave through a branch or return)
     let regions = &ctx.op(op).regions;
-    let then_region_result = regions.first().and_then(|r| region_result_value(ctx, *r));
-    let then_has_result_value = then_region_result.is_some();
+    let has_result_value = regions
+        .iter()
+        .any(|r| region_result_value(ctx, *r).is_some());
 
     debug!(
-        "wasm.if: then_has_result_value={}, result_ty={:?}",
-        then_has_result_value,
+        "wasm.if: has_result_value={}, result_ty={:?}",
+        has_result_value,
         result_ty.map(|ty| {
             let data = ctx.types.get(ty);
             format!("{}.{}", data.dialect, data.name)
@@ -90,7 +92,7 @@ pub(crate) fn handle_if(
     // Determine if we should use a result type
     // Use IR result type directly - type variables are resolved at AST level
     let has_result =
-        then_has_result_value && matches!(result_ty, Some(ty) if !helpers::is_nil_type(ctx, ty));
+        has_result_value && matches!(result_ty, Some(ty) if !helpers::is_nil_type(ctx, ty));
 
     let block_type = compute_block_type(ctx, has_result, result_ty, module_info)?;
 
-- 
2.43.0


From 2ef1ef7191eba0467e3e7116ad493362e35b8825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:02 +0000
Subject: [PATCH 13/27] fix: wasm indirect calls declare enum parameters by
 their base type

An argument known to be a particular variant made call_indirect name a
signature the callee does not have, which traps.
---
 .../src/emit/call_indirect_collection.rs                  | 2 +-
 .../src/emit/handlers/call_handlers.rs                    | 2 +-
 crates/trunk-ir-wasm-backend/src/emit/helpers.rs          | 8 ++++++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/call_indirect_collection.rs b/crates/trunk-ir-wasm-backend/src/emit/call_indirect_collection.rs
index 272114d..dbdb2f4 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/call_indirect_collection.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/call_indirect_collection.rs
@@ -188,7 +188,7 @@ pub(crate) fn collect_call_indirect_types(
                             if helpers::is_type(ctx, ty, "wasm", "anyref") {
                                 anyref_ty
                             } else {
-                                ty
+                                helpers::call_indirect_param_type(ctx, ty)
                             }
                         })
                         .collect();
diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
index ba93d39..38760de 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
@@ -123,7 +123,7 @@ pub(crate) fn handle_call_indirect(
         if helpers::is_type(ctx, ty, "wasm", "anyref") {
             anyref_ty
         } else {
-            ty
+            helpers::call_indirect_param_type(ctx, ty)
         }
     };
     let param_types: Vec<TypeRef> = operands
diff --git a/crates/trunk-ir-wasm-backend/src/emit/helpers.rs b/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
index 1fffc9b..5c79ceb 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
@@ -87,6 +87,14 @@ pub(crate) fn should_normalize_to_anyref(ctx: &IrContext, ty: TypeRef) -> bool {
     is_type(ctx, ty, "wasm", "anyref")
 }
 
+/// Parameter type an indirect call declares for an argument of type `ty`.
+///
+/// `call_indirect` requires the callee's exact signature, and functions take
+/// enums by their base type, so variant instance types are widened to it.
+pub(crate) fn call_indirect_param_type(ctx: &IrContext, ty: TypeRef) -> TypeRef {
+    ctx.types.get(ty).attrs.get_type("base_enum").unwrap_or(ty)
+}
+
 // ============================================================================
 // Type conversion
 // ============================================================================
-- 
2.43.0


From 07669537ca17918b450a0ed69f8ab37084b6c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:54 +0000
Subject: [PATCH 14/27] fix: keep the untyped null reference abstract in wasm
 GC lowering

adt.ref_null of tribute_rt.anyref reached wasm_gc.ref_null unconverted and
was given a concrete GC type index, which then registered wasm.anyref as
that struct type; reading an anyref field of a closure inserted a ref.cast
to it and trapped as soon as a closure with a real environment existed.
---
 crates/trunk-ir-wasm-backend/src/passes/wasm_gc_to_wasm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/trunk-ir-wasm-backend/src/passes/wasm_gc_to_wasm.rs b/crates/trunk-ir-wasm-backend/src/passes/wasm_gc_to_wasm.rs
index 1e27a94..aed3d0b 100644
--- a/crates/trunk-ir-wasm-backend/src/passes/wasm_gc_to_wasm.rs
+++ b/crates/trunk-ir-wasm-backend/src/passes/wasm_gc_to_wasm.rs
@@ -75,6 +75,11 @@ fn builtin_type_idx(ctx: &IrContext, ty: TypeRef) -> Option<u32> {
 
 fn is_abstract_heap_type(ctx: &IrContext, ty: TypeRef) -> bool {
     let data = ctx.types.get(ty);
+    // `adt.ref_null` keeps its logical type, so the top type may still be the
+    // Tribute one here. It must not be given a concrete GC type index.
+    if data.dialect == Symbol::new("tribute_rt") && data.name == Symbol::new("anyref") {
+        return true;
+    }
     data.dialect == Symbol::new("wasm")
         && [
             "anyref",
-- 
2.43.0


From 2cb81eac20f80cab5620d8c5a94800aea9f40764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:07 +0000
Subject: [PATCH 15/27] fix: read bytes as unsigned values in the native bytes
 accessor

---
 .../src/native/intrinsic_to_native.rs         | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/crates/tribute-passes/src/native/intrinsic_to_native.rs b/crates/tribute-passes/src/native/intrinsic_to_native.rs
index 85f98b3..4397971 100644
--- a/crates/tribute-passes/src/native/intrinsic_to_native.rs
+++ b/crates/tribute-passes/src/native/intrinsic_to_native.rs
@@ -11,6 +11,7 @@ use std::rc::Rc;
 
 use trunk_ir::Symbol;
 use trunk_ir::context::IrContext;
+use trunk_ir::dialect::arith;
 use trunk_ir::dialect::func;
 use trunk_ir::dialect::mem;
 use trunk_ir::ops::DialectOp;
@@ -19,7 +20,7 @@ use trunk_ir::rewrite::{
     ConversionError, ConversionTarget, LegalityDecision, Module, PatternApplicator,
     PatternRewriter, RewritePattern, TypeConverter,
 };
-use trunk_ir::types::TypeDataBuilder;
+use trunk_ir::types::{Attribute, TypeDataBuilder};
 
 /// Lower bytes intrinsic calls to native mem operations.
 ///
@@ -77,7 +78,8 @@ pub fn lower(ctx: &mut IrContext, module: Module) -> Result<(), ConversionError>
 ///   %data_ptr = mem.load %bytes, offset=0 : core.ptr
 ///   %addr = arith.addi %data_ptr, %index : core.ptr
 ///   %byte = mem.load %addr, offset=0 : core.i8
-///   %result = arith.extend %byte : result_ty (Nat/i32)
+///   %extended = arith.extend %byte : result_ty (Nat/i32)
+///   %result = arith.and %extended, 0xff : result_ty
 struct BytesGetOrPanicPattern;
 
 impl RewritePattern for BytesGetOrPanicPattern {
@@ -112,11 +114,11 @@ impl RewritePattern for BytesGetOrPanicPattern {
         rewriter.insert_op(data_ptr.op_ref());
 
         // Extend index (Nat = i32) to pointer width (i64)
-        let index_ext = trunk_ir::dialect::arith::extend(ctx, loc, index, ptr_ty);
+        let index_ext = arith::extend(ctx, loc, index, ptr_ty);
         rewriter.insert_op(index_ext.op_ref());
 
         // Compute address: data_ptr + index
-        let addr = trunk_ir::dialect::arith::addi(
+        let addr = arith::addi(
             ctx,
             loc,
             data_ptr.result(ctx),
@@ -129,9 +131,14 @@ impl RewritePattern for BytesGetOrPanicPattern {
         let byte_val = mem::load(ctx, loc, addr.result(ctx), i8_ty, 0);
         rewriter.insert_op(byte_val.op_ref());
 
-        // Zero-extend i8 → result type (Nat = i32)
-        let extended = trunk_ir::dialect::arith::extend(ctx, loc, byte_val.result(ctx), result_ty);
-        rewriter.replace_op(extended.op_ref());
+        // Zero-extend i8 → result type (Nat = i32). `arith.extend` of a signless
+        // integer is a sign extension, so keep only the low eight bits.
+        let extended = arith::extend(ctx, loc, byte_val.result(ctx), result_ty);
+        rewriter.insert_op(extended.op_ref());
+        let mask = arith::r#const(ctx, loc, result_ty, Attribute::Int(0xff));
+        rewriter.insert_op(mask.op_ref());
+        let byte = arith::and(ctx, loc, extended.result(ctx), mask.result(ctx), result_ty);
+        rewriter.replace_op(byte.op_ref());
 
         true
     }
-- 
2.43.0


From 8866a91b8c52a0d1833a4c8aaae3dfa36442570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:16 +0000
Subject: [PATCH 16/27] fix: check bounds in the native bytes accessor

---
 .../src/native/intrinsic_to_native.rs         | 144 +++++++++++++-----
 1 file changed, 108 insertions(+), 36 deletions(-)

diff --git a/crates/tribute-passes/src/native/intrinsic_to_native.rs b/crates/tribute-passes/src/native/intrinsic_to_native.rs
index 4397971..80041a4 100644
--- a/crates/tribute-passes/src/native/intrinsic_to_native.rs
+++ b/crates/tribute-passes/src/native/intrinsic_to_native.rs
@@ -10,17 +10,19 @@ use std::collections::HashSet;
 use std::rc::Rc;
 
 use trunk_ir::Symbol;
-use trunk_ir::context::IrContext;
+use trunk_ir::context::{BlockData, IrContext, RegionData};
 use trunk_ir::dialect::arith;
 use trunk_ir::dialect::func;
 use trunk_ir::dialect::mem;
+use trunk_ir::dialect::scf;
 use trunk_ir::ops::DialectOp;
-use trunk_ir::refs::OpRef;
+use trunk_ir::refs::{OpRef, RegionRef};
 use trunk_ir::rewrite::{
     ConversionError, ConversionTarget, LegalityDecision, Module, PatternApplicator,
     PatternRewriter, RewritePattern, TypeConverter,
 };
-use trunk_ir::types::{Attribute, TypeDataBuilder};
+use trunk_ir::smallvec::smallvec;
+use trunk_ir::types::{Attribute, Location, TypeDataBuilder};
 
 /// Lower bytes intrinsic calls to native mem operations.
 ///
@@ -75,11 +77,18 @@ pub fn lower(ctx: &mut IrContext, module: Module) -> Result<(), ConversionError>
 ///   offset 8: len (u64)       - 8 bytes
 ///
 /// Emits:
-///   %data_ptr = mem.load %bytes, offset=0 : core.ptr
-///   %addr = arith.addi %data_ptr, %index : core.ptr
-///   %byte = mem.load %addr, offset=0 : core.i8
-///   %extended = arith.extend %byte : result_ty (Nat/i32)
-///   %result = arith.and %extended, 0xff : result_ty
+///   %len = mem.load %bytes, offset=8 : core.i64
+///   %in_bounds = arith.cmpi %index, %len {ult} : core.i1
+///   %result = scf.if %in_bounds : result_ty (Nat/i32) {
+///     %data_ptr = mem.load %bytes, offset=0 : core.ptr
+///     %addr = arith.addi %data_ptr, %index : core.ptr
+///     %byte = mem.load %addr, offset=0 : core.i8
+///     %extended = arith.extend %byte : result_ty
+///     %masked = arith.and %extended, 0xff : result_ty
+///     scf.yield %masked
+///   } {
+///     func.unreachable
+///   }
 struct BytesGetOrPanicPattern;
 
 impl RewritePattern for BytesGetOrPanicPattern {
@@ -102,48 +111,111 @@ impl RewritePattern for BytesGetOrPanicPattern {
         let bytes = operands[0];
         let index = operands[1];
 
-        let ptr_ty = ctx
-            .types
-            .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("ptr")).build());
-        let i8_ty = ctx
-            .types
-            .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new("i8")).build());
-
-        // Load data pointer from TributeBytes (offset 0)
-        let data_ptr = mem::load(ctx, loc, bytes, ptr_ty, 0);
-        rewriter.insert_op(data_ptr.op_ref());
-
-        // Extend index (Nat = i32) to pointer width (i64)
-        let index_ext = arith::extend(ctx, loc, index, ptr_ty);
-        rewriter.insert_op(index_ext.op_ref());
+        let mut ty = |name: &'static str| {
+            ctx.types
+                .intern(TypeDataBuilder::new(Symbol::new("core"), Symbol::new(name)).build())
+        };
+        let (ptr_ty, i64_ty, i8_ty, i1_ty) = (ty("ptr"), ty("i64"), ty("i8"), ty("i1"));
 
-        // Compute address: data_ptr + index
-        let addr = arith::addi(
+        // Zero-extend index (Nat = i32) to pointer width (i64). `arith.extend` of
+        // a signless integer is a sign extension, so keep only the low 32 bits.
+        let index_ext = arith::extend(ctx, loc, index, i64_ty);
+        let index_mask = arith::r#const(ctx, loc, i64_ty, Attribute::Int(0xffff_ffff));
+        let index = arith::and(
             ctx,
             loc,
-            data_ptr.result(ctx),
             index_ext.result(ctx),
-            ptr_ty,
+            index_mask.result(ctx),
+            i64_ty,
+        );
+
+        // Bounds check against the length in TributeBytes (offset 8)
+        let len = mem::load(ctx, loc, bytes, i64_ty, 8);
+        let in_bounds = arith::cmpi(
+            ctx,
+            loc,
+            index.result(ctx),
+            len.result(ctx),
+            i1_ty,
+            Symbol::new("ult"),
         );
-        rewriter.insert_op(addr.op_ref());
 
-        // Load byte (i8) from computed address
+        // Load data pointer from TributeBytes (offset 0) and the byte behind it
+        let data_ptr = mem::load(ctx, loc, bytes, ptr_ty, 0);
+        let addr = arith::addi(ctx, loc, data_ptr.result(ctx), index.result(ctx), ptr_ty);
         let byte_val = mem::load(ctx, loc, addr.result(ctx), i8_ty, 0);
-        rewriter.insert_op(byte_val.op_ref());
 
-        // Zero-extend i8 → result type (Nat = i32). `arith.extend` of a signless
-        // integer is a sign extension, so keep only the low eight bits.
+        // Zero-extend i8 → result type (Nat = i32), likewise
         let extended = arith::extend(ctx, loc, byte_val.result(ctx), result_ty);
-        rewriter.insert_op(extended.op_ref());
-        let mask = arith::r#const(ctx, loc, result_ty, Attribute::Int(0xff));
-        rewriter.insert_op(mask.op_ref());
-        let byte = arith::and(ctx, loc, extended.result(ctx), mask.result(ctx), result_ty);
-        rewriter.replace_op(byte.op_ref());
+        let byte_mask = arith::r#const(ctx, loc, result_ty, Attribute::Int(0xff));
+        let byte = arith::and(
+            ctx,
+            loc,
+            extended.result(ctx),
+            byte_mask.result(ctx),
+            result_ty,
+        );
+        let yield_byte = scf::r#yield(ctx, loc, [byte.result(ctx)]);
+        let load_region = single_block_region(
+            ctx,
+            loc,
+            [
+                data_ptr.op_ref(),
+                addr.op_ref(),
+                byte_val.op_ref(),
+                extended.op_ref(),
+                byte_mask.op_ref(),
+                byte.op_ref(),
+                yield_byte.op_ref(),
+            ],
+        );
+        let trap = func::unreachable(ctx, loc);
+        let trap_region = single_block_region(ctx, loc, [trap.op_ref()]);
+        let checked = scf::r#if(
+            ctx,
+            loc,
+            in_bounds.result(ctx),
+            result_ty,
+            load_region,
+            trap_region,
+        );
+
+        for inserted in [
+            index_ext.op_ref(),
+            index_mask.op_ref(),
+            index.op_ref(),
+            len.op_ref(),
+            in_bounds.op_ref(),
+        ] {
+            rewriter.insert_op(inserted);
+        }
+        rewriter.replace_op(checked.op_ref());
 
         true
     }
 }
 
+fn single_block_region<const N: usize>(
+    ctx: &mut IrContext,
+    loc: Location,
+    ops: [OpRef; N],
+) -> RegionRef {
+    let block = ctx.create_block(BlockData {
+        location: loc,
+        args: vec![],
+        ops: smallvec![],
+        parent_region: None,
+    });
+    for op in ops {
+        ctx.push_op(block, op);
+    }
+    ctx.create_region(RegionData {
+        location: loc,
+        blocks: smallvec![block],
+        parent_op: None,
+    })
+}
+
 /// Pattern that removes `func.func` declarations for bytes intrinsics.
 struct BytesIntrinsicFuncDeclPattern {
     intrinsic_names: Rc<HashSet<Symbol>>,
-- 
2.43.0


From 813b1798641b0a1b80455ccad4dc20b1c8e52b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:02 +0000
Subject: [PATCH 17/27] fix: lower every unsigned integer comparison to wasm

---
 crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs b/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
index a344721..e2f91bf 100644
--- a/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
+++ b/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
@@ -254,6 +254,13 @@ impl RewritePattern for ArithCmpPattern {
                 ("i32", "sge") => wasm_dialect::i32_ge_s(ctx, loc, lhs, rhs, result_ty).op_ref(),
                 ("i64", "sge") => wasm_dialect::i64_ge_s(ctx, loc, lhs, rhs, result_ty).op_ref(),
                 ("i32", "ult") => wasm_dialect::i32_lt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "ult") => wasm_dialect::i64_lt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i32", "ule") => wasm_dialect::i32_le_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "ule") => wasm_dialect::i64_le_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i32", "ugt") => wasm_dialect::i32_gt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "ugt") => wasm_dialect::i64_gt_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i32", "uge") => wasm_dialect::i32_ge_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
+                ("i64", "uge") => wasm_dialect::i64_ge_u(ctx, loc, lhs, rhs, result_ty).op_ref(),
                 _ => return false,
             };
             rewriter.replace_op(new_op);
-- 
2.43.0


From a42c74255c2c61fecc3269505c927437b3df4086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:42 +0000
Subject: [PATCH 18/27] fix: keep anyref parameters in wasm indirect call
 signatures

---
 .../src/emit/call_indirect_collection.rs      | 16 +---------
 .../src/emit/handlers/call_handlers.rs        | 19 +-----------
 .../trunk-ir-wasm-backend/src/emit/helpers.rs | 29 +++++++++++++++----
 .../src/passes/func_to_wasm.rs                | 18 ++++++++++++
 4 files changed, 44 insertions(+), 38 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/call_indirect_collection.rs b/crates/trunk-ir-wasm-backend/src/emit/call_indirect_collection.rs
index dbdb2f4..a33b918 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/call_indirect_collection.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/call_indirect_collection.rs
@@ -177,21 +177,7 @@ pub(crate) fn collect_call_indirect_types(
                         "call_indirect first operand must be i32 table index or closure struct, got {:?}",
                         fmt_type(ctx, first_operand_ty)
                     );
-                    let param_types: Vec<TypeRef> = operands
-                        .iter()
-                        .skip(1)
-                        .map(|v| {
-                            let ty = helpers::value_type(ctx, *v);
-                            // After normalize_primitive_types pass:
-                            // - tribute_rt.any -> wasm.anyref
-                            // So we only need to check for wasm.anyref
-                            if helpers::is_type(ctx, ty, "wasm", "anyref") {
-                                anyref_ty
-                            } else {
-                                helpers::call_indirect_param_type(ctx, ty)
-                            }
-                        })
-                        .collect();
+                    let param_types = helpers::call_indirect_param_types(ctx, op);
 
                     // Result type - use enclosing function's return type if it's funcref
                     // and the call_indirect has anyref result. This is needed because
diff --git a/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs b/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
index 38760de..8915a56 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/handlers/call_handlers.rs
@@ -116,24 +116,7 @@ pub(crate) fn handle_call_indirect(
         .common_types
         .anyref
         .ok_or_else(|| CompilationError::invalid_module("anyref type not pre-interned"))?;
-    let normalize_param_type = |ty: TypeRef| -> TypeRef {
-        // After normalize_primitive_types pass:
-        // - tribute_rt.any → wasm.anyref
-        // So we only need to check for wasm.anyref
-        if helpers::is_type(ctx, ty, "wasm", "anyref") {
-            anyref_ty
-        } else {
-            helpers::call_indirect_param_type(ctx, ty)
-        }
-    };
-    let param_types: Vec<TypeRef> = operands
-        .iter()
-        .skip(1)
-        .map(|v| {
-            let ty = helpers::value_type(ctx, *v);
-            normalize_param_type(ty)
-        })
-        .collect();
+    let param_types = helpers::call_indirect_param_types(ctx, op);
 
     // Get result type - use enclosing function's return type if it's funcref
     // and the call_indirect has anyref result. This is needed because
diff --git a/crates/trunk-ir-wasm-backend/src/emit/helpers.rs b/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
index 5c79ceb..c2b3e0d 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/helpers.rs
@@ -87,12 +87,31 @@ pub(crate) fn should_normalize_to_anyref(ctx: &IrContext, ty: TypeRef) -> bool {
     is_type(ctx, ty, "wasm", "anyref")
 }
 
-/// Parameter type an indirect call declares for an argument of type `ty`.
+/// Parameter types the indirect call `op` declares for its arguments.
 ///
-/// `call_indirect` requires the callee's exact signature, and functions take
-/// enums by their base type, so variant instance types are widened to it.
-pub(crate) fn call_indirect_param_type(ctx: &IrContext, ty: TypeRef) -> TypeRef {
-    ctx.types.get(ty).attrs.get_type("base_enum").unwrap_or(ty)
+/// `call_indirect` requires the callee's exact signature: arguments that were
+/// lowered as `wasm.anyref` keep that type even when their cast has since been
+/// resolved to a value of a concrete type, and functions take enums by their
+/// base type, so variant instance types are widened to it.
+pub(crate) fn call_indirect_param_types(ctx: &IrContext, op: OpRef) -> Vec<TypeRef> {
+    let declared = ctx
+        .op(op)
+        .attributes
+        .get_type(func::INDIRECT_CALL_SIGNATURE_ATTR)
+        .and_then(|signature| func_type_parts(ctx, signature))
+        .map_or(&[][..], |(params, _)| params);
+    ctx.op_operands(op)
+        .iter()
+        .skip(1)
+        .enumerate()
+        .map(|(i, &v)| match declared.get(i) {
+            Some(&param) if is_type(ctx, param, "wasm", "anyref") => param,
+            _ => {
+                let ty = value_type(ctx, v);
+                ctx.types.get(ty).attrs.get_type("base_enum").unwrap_or(ty)
+            }
+        })
+        .collect()
 }
 
 // ============================================================================
diff --git a/crates/trunk-ir-wasm-backend/src/passes/func_to_wasm.rs b/crates/trunk-ir-wasm-backend/src/passes/func_to_wasm.rs
index 86f1fba..5d191ac 100644
--- a/crates/trunk-ir-wasm-backend/src/passes/func_to_wasm.rs
+++ b/crates/trunk-ir-wasm-backend/src/passes/func_to_wasm.rs
@@ -19,6 +19,7 @@ use std::collections::HashMap;
 
 use trunk_ir::Symbol;
 use trunk_ir::context::{IrContext, OperationDataBuilder};
+use trunk_ir::dialect::core;
 use trunk_ir::dialect::func;
 use trunk_ir::dialect::wasm as wasm_dialect;
 use trunk_ir::ops::DialectOp;
@@ -269,7 +270,24 @@ impl RewritePattern for FuncCallIndirectPattern {
 
         // Build wasm.call_indirect with same operands
         // The emit phase will resolve the type_idx and table attributes
+        // Record the parameter types this call passes: resolving casts later
+        // may replace an argument by one of a more specific type, while the
+        // callee still declares these.
+        let signature = result_types.first().copied().map(|result_ty| {
+            let params: Vec<_> = all_operands
+                .iter()
+                .skip(1)
+                .map(|&v| ctx.value_ty(v))
+                .collect();
+            core::func(ctx, result_ty, params).as_type_ref()
+        });
         let new_op = wasm_dialect::call_indirect(ctx, loc, all_operands, result_types, 0, 0);
+        if let Some(signature) = signature {
+            ctx.op_mut(new_op.op_ref()).attributes.insert(
+                Symbol::new(func::INDIRECT_CALL_SIGNATURE_ATTR),
+                Attribute::Type(signature),
+            );
+        }
         rewriter.replace_op(new_op.op_ref());
         true
     }
-- 
2.43.0


From d6902eb569f4a9e50f92f51d54ea8780044d608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:34 +0000
Subject: [PATCH 19/27] fix: never bind abstract wasm reference types to a
 concrete GC type

---
 .../src/emit/gc_types_collection.rs           | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
index c3aee1c..dbd626f 100644
--- a/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
+++ b/crates/trunk-ir-wasm-backend/src/emit/gc_types_collection.rs
@@ -79,8 +79,20 @@ fn try_get_builder(builders: &mut Vec<GcTypeBuilder>, idx: u32) -> Option<&mut G
     Some(&mut builders[adjusted_idx])
 }
 
-/// Register a type in the type_idx_by_type map
-fn register_type(type_idx_by_type: &mut HashMap<TypeRef, u32>, idx: u32, ty: TypeRef) {
+/// Register a type in the type_idx_by_type map.
+///
+/// Abstract reference types never name a concrete type: field accesses on them
+/// cast their operand first.
+fn register_type(
+    ctx: &IrContext,
+    type_idx_by_type: &mut HashMap<TypeRef, u32>,
+    idx: u32,
+    ty: TypeRef,
+) {
+    if helpers::is_type(ctx, ty, "wasm", "anyref") || helpers::is_type(ctx, ty, "wasm", "structref")
+    {
+        return;
+    }
     type_idx_by_type.entry(ty).or_insert(idx);
 }
 
@@ -394,7 +406,7 @@ pub(crate) fn collect_gc_types(
                 }
 
                 if let Some(result_ty) = result_type {
-                    register_type(&mut type_idx_by_type, type_idx, result_ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, result_ty);
                 }
                 for (field_idx, &value) in operands.iter().enumerate() {
                     let ty = helpers::value_type(ctx, value);
@@ -426,7 +438,7 @@ pub(crate) fn collect_gc_types(
                 let operands = ctx.op_operands(op).to_vec();
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 // Record field type from result type
                 // Note: type variables should be resolved to concrete types before emit
@@ -456,7 +468,7 @@ pub(crate) fn collect_gc_types(
                 }
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 if let Some(&second_operand) = operands.get(1) {
                     let ty = helpers::value_type(ctx, second_operand);
@@ -476,7 +488,7 @@ pub(crate) fn collect_gc_types(
             if let Some(builder) = try_get_builder(&mut builders, type_idx) {
                 builder.kind = GcKind::Array;
                 if let Some(&result_ty) = result_types.first() {
-                    register_type(&mut type_idx_by_type, type_idx, result_ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, result_ty);
                 }
                 let operands = ctx.op_operands(op).to_vec();
                 if let Some(&second_operand) = operands.get(1) {
@@ -498,7 +510,7 @@ pub(crate) fn collect_gc_types(
                 builder.kind = GcKind::Array;
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 // Record element type from result type
                 // Note: type variables should be resolved to concrete types before emit
@@ -516,7 +528,7 @@ pub(crate) fn collect_gc_types(
                 builder.kind = GcKind::Array;
                 if let Some(&first_operand) = operands.first() {
                     let ty = helpers::value_type(ctx, first_operand);
-                    register_type(&mut type_idx_by_type, type_idx, ty);
+                    register_type(ctx, &mut type_idx_by_type, type_idx, ty);
                 }
                 if let Some(&third_operand) = operands.get(2) {
                     let ty = helpers::value_type(ctx, third_operand);
@@ -546,7 +558,7 @@ pub(crate) fn collect_gc_types(
                 continue;
             };
             if let Some(&result_ty) = result_types.first() {
-                register_type(&mut type_idx_by_type, type_idx, result_ty);
+                register_type(ctx, &mut type_idx_by_type, type_idx, result_ty);
             }
             if let Some(builder) = try_get_builder(&mut builders, type_idx)
                 && builder.kind == GcKind::Unknown
-- 
2.43.0


From 41106593d0385b954b8048bcf0decb7e264e9a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:08 +0000
Subject: [PATCH 20/27] fix: leave casts between any and structs to the backend
 type converters

---
 crates/tribute-passes/src/type_converter.rs | 25 ++++-----------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/crates/tribute-passes/src/type_converter.rs b/crates/tribute-passes/src/type_converter.rs
index 65ef8b8..0c64a0b 100644
--- a/crates/tribute-passes/src/type_converter.rs
+++ b/crates/tribute-passes/src/type_converter.rs
@@ -33,14 +33,6 @@ fn is_type(ctx: &IrContext, ty: TypeRef, dialect: Symbol, name: Symbol) -> bool
     ctx.types.is_dialect(ty, dialect, name)
 }
 
-fn is_adt_struct_type(ctx: &IrContext, ty: TypeRef) -> bool {
-    is_type(ctx, ty, Symbol::new("adt"), Symbol::new("struct"))
-}
-
-fn is_adt_typeref(ctx: &IrContext, ty: TypeRef) -> bool {
-    is_type(ctx, ty, Symbol::new("adt"), Symbol::new("typeref"))
-}
-
 /// Create an TypeConverter configured for target-agnostic type conversions.
 ///
 /// This converter handles the IR-level type transformations that are common
@@ -153,11 +145,6 @@ pub fn generic_type_converter(ctx: &mut IrContext) -> TypeConverter {
                     ops: vec![box_op.op_ref()],
                 });
             }
-
-            // adt.struct/adt.typeref → any: no-op (already a reference type)
-            if is_adt_struct_type(ctx, from_ty) || is_adt_typeref(ctx, from_ty) {
-                return Some(MaterializeResult { value, ops: vec![] });
-            }
         }
 
         // -----------------------------------------------------------------
@@ -200,14 +187,10 @@ pub fn generic_type_converter(ctx: &mut IrContext) -> TypeConverter {
                 });
             }
 
-            // any → adt.struct/adt.typeref: no-op (already a reference type)
-            if is_adt_struct_type(ctx, to_ty) || is_adt_typeref(ctx, to_ty) {
-                return Some(MaterializeResult { value, ops: vec![] });
-            }
-
-            // Note: any → trampoline.resume_wrapper and any → core.array conversions
-            // are handled by wasm_type_converter, not here, because they require
-            // wasm.ref_cast operations that are only available after WASM lowering.
+            // Note: conversions between any and adt.struct/adt.typeref,
+            // trampoline.resume_wrapper or core.array are handled by the backend
+            // type converters, not here: WasmGC needs wasm.ref_cast operations
+            // that are only available after WASM lowering.
         }
 
         None
-- 
2.43.0


From dd06ae015c7a656c2965c322c2013fe4b84d1221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:19 +0000
Subject: [PATCH 21/27] fix: a handle's done and escape regions run with the
 evidence surrounding it

Legacy handle dispatch transformed its done region with the evidence
extended by the very handler that has just been left, and did not transform
the escape region at all, so an operation performed after a handle could be
dispatched to the handler that is no longer installed.
---
 crates/tribute-passes/src/resolve_evidence.rs | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/crates/tribute-passes/src/resolve_evidence.rs b/crates/tribute-passes/src/resolve_evidence.rs
index f7bb44a..ec325fd 100644
--- a/crates/tribute-passes/src/resolve_evidence.rs
+++ b/crates/tribute-passes/src/resolve_evidence.rs
@@ -891,16 +891,20 @@ fn transform_shifts_in_block(
                 }
             }
 
-            // Always transform handler body region, even when abilities is
-            // empty, so that any shifts inside are properly resolved.
-            let handler_body = dispatch_op.body(ctx);
-            transform_shifts_in_region(
-                ctx,
-                handler_body,
-                current_ev,
-                fns_with_evidence,
-                prepend_evidence,
-            )?;
+            // The done and escape regions run after the handler is gone, so
+            // what they perform (and the continuation they enter) belongs to
+            // the evidence surrounding the handle, not to the extended one.
+            // Always transform them, even when abilities is empty, so that
+            // any shifts inside are properly resolved.
+            for region in ctx.op(op).regions.to_vec() {
+                transform_shifts_in_region(
+                    ctx,
+                    region,
+                    ev_value,
+                    fns_with_evidence,
+                    prepend_evidence,
+                )?;
+            }
             continue;
         }
 
-- 
2.43.0


From 4a80339ddf8f2c773281dfacf67b7eadca1d03d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:31 +0000
Subject: [PATCH 22/27] fix: evidence resolution keeps the environment of a
 direct closure call

Evidence was written over operand 1 of every indirect call. A closure of the
direct convention takes no evidence, so its environment was lost.
---
 crates/tribute-passes/src/resolve_evidence.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/tribute-passes/src/resolve_evidence.rs b/crates/tribute-passes/src/resolve_evidence.rs
index ec325fd..976554f 100644
--- a/crates/tribute-passes/src/resolve_evidence.rs
+++ b/crates/tribute-passes/src/resolve_evidence.rs
@@ -951,10 +951,14 @@ fn transform_shifts_in_block(
             }
         }
 
-        // Handle func.call_indirect: replace evidence argument (index 1)
+        // Handle func.call_indirect: replace evidence argument (index 1).
+        // A closure of the direct convention takes no evidence: its first
+        // argument is the environment and must stay.
         if func::CallIndirect::from_op(ctx, op).is_ok() {
             let current_operands = ctx.op_operands(op).to_vec();
-            if current_operands.len() >= 2 {
+            if current_operands.len() >= 2
+                && ability::is_evidence_type_ref(ctx, ctx.value_ty(current_operands[1]))
+            {
                 let current_ev = current_operands[1];
                 if current_ev != ev_value {
                     let loc = ctx.op(op).location;
-- 
2.43.0


From d0bfa4a1628907effdf6ed758e46c94190874ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:04 +0000
Subject: [PATCH 23/27] fix: convert the signature of indirect tail calls along
 with their arguments

---
 .../src/native/ownership_summary.rs           | 25 +++++++++++++++----
 .../src/passes/func_to_clif.rs                | 11 +++++++-
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/crates/tribute-passes/src/native/ownership_summary.rs b/crates/tribute-passes/src/native/ownership_summary.rs
index 1eadb0a..5f011da 100644
--- a/crates/tribute-passes/src/native/ownership_summary.rs
+++ b/crates/tribute-passes/src/native/ownership_summary.rs
@@ -392,11 +392,9 @@ fn collect_call_contracts(
                                 .get_symbol("callee")
                                 .expect("validated direct callee")
                         }),
-                        indirect_signature: if indirect {
-                            get_indirect_call_signature(ctx, op)
-                        } else {
-                            None
-                        },
+                        indirect_signature: indirect
+                            .then(|| lowered_call_signature(ctx, op, type_converter))
+                            .flatten(),
                     },
                 ));
             }
@@ -409,6 +407,23 @@ fn collect_call_contracts(
     Ok(())
 }
 
+/// Signature an indirect call carries once `func_to_clif` has converted it.
+fn lowered_call_signature(
+    ctx: &mut IrContext,
+    op: OpRef,
+    type_converter: &TypeConverter,
+) -> Option<TypeRef> {
+    let signature = get_indirect_call_signature(ctx, op)?;
+    let callable = core::Func::from_type_ref(ctx, signature)?;
+    let result = callable.r#return(ctx);
+    let params = callable.params(ctx).to_vec();
+    let params: Vec<TypeRef> = params
+        .into_iter()
+        .map(|ty| type_converter.convert_type_or_identity(ctx, ty))
+        .collect();
+    Some(core::func(ctx, result, params).as_type_ref())
+}
+
 fn action_for_entry(
     entry: RcOwnership,
     is_tail: bool,
diff --git a/crates/trunk-ir-cranelift-backend/src/passes/func_to_clif.rs b/crates/trunk-ir-cranelift-backend/src/passes/func_to_clif.rs
index ecae316..9160b7e 100644
--- a/crates/trunk-ir-cranelift-backend/src/passes/func_to_clif.rs
+++ b/crates/trunk-ir-cranelift-backend/src/passes/func_to_clif.rs
@@ -339,9 +339,18 @@ impl RewritePattern for FuncTailCallIndirectPattern {
         let Some(callable) = core::Func::from_type_ref(ctx, signature) else {
             return false;
         };
-        if callable.r#return(ctx) != core::nil(ctx).as_type_ref() {
+        let nil_ty = core::nil(ctx).as_type_ref();
+        if callable.r#return(ctx) != nil_ty {
             return false;
         }
+        // The arguments carry converted types, so the signature must as well.
+        let params = callable.params(ctx).to_vec();
+        let tc = rewriter.type_converter();
+        let params: Vec<TypeRef> = params
+            .into_iter()
+            .map(|p| tc.convert_type_or_identity(ctx, p))
+            .collect();
+        let signature = core::func(ctx, nil_ty, params).as_type_ref();
 
         let new_op = crate::passes::cf_to_clif::rebuild_op_as(
             ctx,
-- 
2.43.0


From b99a8efa6f71a86d504b2c4c9d43b57ba5e7283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:04 +0000
Subject: [PATCH 24/27] fix: read names that begin with true, false or unit as
 names

---
 crates/trunk-ir/src/parser/raw.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crates/trunk-ir/src/parser/raw.rs b/crates/trunk-ir/src/parser/raw.rs
index bef850a..e5904a0 100644
--- a/crates/trunk-ir/src/parser/raw.rs
+++ b/crates/trunk-ir/src/parser/raw.rs
@@ -4,7 +4,8 @@
 //! It is shared by both the Salsa IR builder and the Arena IR builder.
 
 use winnow::ascii;
-use winnow::combinator::{alt, delimited, opt, preceded, repeat, separated};
+use winnow::combinator::{alt, delimited, not, opt, preceded, repeat, separated, terminated};
+use winnow::error::ContextError;
 use winnow::prelude::*;
 use winnow::token::{any, one_of, take, take_while};
 
@@ -300,13 +301,23 @@ pub fn raw_type<'a>(input: &mut &'a str) -> ModalResult<RawType<'a>> {
     })
 }
 
+/// Parse a keyword that is not merely the beginning of a longer name.
+fn keyword<'a>(word: &'static str) -> impl ModalParser<&'a str, &'a str, ContextError> {
+    terminated(
+        word,
+        not(one_of(|c: char| {
+            c.is_ascii_alphanumeric() || c == '_' || c == '.'
+        })),
+    )
+}
+
 /// Parse an attribute value.
 pub fn raw_attr_value<'a>(input: &mut &'a str) -> ModalResult<RawAttribute<'a>> {
     alt((
         // Keywords
-        "true".value(RawAttribute::Bool(true)),
-        "false".value(RawAttribute::Bool(false)),
-        "unit".value(RawAttribute::Unit),
+        keyword("true").value(RawAttribute::Bool(true)),
+        keyword("false").value(RawAttribute::Bool(false)),
+        keyword("unit").value(RawAttribute::Unit),
         // Location: loc("path" start:end)
         raw_location_attr,
         // Bytes: b"..."
-- 
2.43.0


From 765daf6d7694bf124610a2ac78087ae040a0e9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:42 +0000
Subject: [PATCH 25/27] fix: read non-finite float attributes back as the
 printer writes them

---
 crates/trunk-ir/src/parser/raw.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/trunk-ir/src/parser/raw.rs b/crates/trunk-ir/src/parser/raw.rs
index e5904a0..5c0b8be 100644
--- a/crates/trunk-ir/src/parser/raw.rs
+++ b/crates/trunk-ir/src/parser/raw.rs
@@ -336,6 +336,10 @@ pub fn raw_attr_value<'a>(input: &mut &'a str) -> ModalResult<RawAttribute<'a>>
         alt((
             // Float (requires dot: 3.14, -1.0)
             float_with_dot.map(RawAttribute::Float),
+            // Non-finite floats, as the printer writes them
+            keyword("inf").value(RawAttribute::Float(f64::INFINITY)),
+            keyword("-inf").value(RawAttribute::Float(f64::NEG_INFINITY)),
+            keyword("NaN").value(RawAttribute::Float(f64::NAN)),
             // Integer (42, -1)
             integer_lit.map(RawAttribute::Int),
             // Type (dialect.name...)
-- 
2.43.0


From 091209ba2d48ddf4a9cca51bdca997d77c61666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:42 +0000
Subject: [PATCH 26/27] fix: lower f32 constants from the double their
 attribute holds

---
 crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs | 2 +-
 crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs b/crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs
index 7826103..f2bbb72 100644
--- a/crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs
+++ b/crates/trunk-ir-cranelift-backend/src/passes/arith_to_clif.rs
@@ -149,7 +149,7 @@ impl RewritePattern for ArithConstPattern {
                 let Attribute::FloatBits(v) = value else {
                     return false;
                 };
-                clif::f32const(ctx, loc, result_ty, f32::from_bits(v as u32)).op_ref()
+                clif::f32const(ctx, loc, result_ty, f64::from_bits(v) as f32).op_ref()
             }
             "f64" => {
                 let Attribute::FloatBits(v) = value else {
diff --git a/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs b/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
index e2f91bf..bb328a6 100644
--- a/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
+++ b/crates/trunk-ir-wasm-backend/src/passes/arith_to_wasm.rs
@@ -92,7 +92,7 @@ impl RewritePattern for ArithConstPattern {
                     warn!("arith.const: expected FloatBits for f32, got {:?}", value);
                     return false;
                 };
-                wasm_dialect::f32_const(ctx, loc, result_ty, f32::from_bits(v as u32)).op_ref()
+                wasm_dialect::f32_const(ctx, loc, result_ty, f64::from_bits(v) as f32).op_ref()
             }
             "f64" => {
                 let Attribute::FloatBits(v) = value else {
-- 
2.43.0


From 0d3df61452820551c83759c2abbaff903addde17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:10 +0000
Subject: [PATCH 27/27] fix: a handle's completion runs with the evidence
 surrounding the handle

---
 .../src/tribute_control_to_cps.rs             | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/crates/tribute-passes/src/tribute_control_to_cps.rs b/crates/tribute-passes/src/tribute_control_to_cps.rs
index 7b8d437..9e35797 100644
--- a/crates/tribute-passes/src/tribute_control_to_cps.rs
+++ b/crates/tribute-passes/src/tribute_control_to_cps.rs
@@ -2447,13 +2447,11 @@ impl<'a> Converter<'a> {
             dispatchers.push(handler_value);
         }
 
-        let evidence_type = self.evidence_type();
-        let body_block = self.make_block(location, &[evidence_type]);
-        let extended_evidence = self.ctx.block_args(body_block)[0];
-        let mut body_mapping = mapping.clone();
-        let body_flow_base = Flow {
+        // The completion runs after the handler is left: it sees the evidence
+        // surrounding the handle, not the evidence of its body.
+        let completion_flow = Flow {
             convention: CallingConvention::Cps,
-            evidence: Some(extended_evidence),
+            evidence: flow.evidence,
             exit_k: Some(after_handle),
             root_exit_k: Some(after_handle),
             answer_type: handle_answer,
@@ -2462,14 +2460,20 @@ impl<'a> Converter<'a> {
         let (completion_op, completion_k) = self.build_completion_continuation(
             completion_source,
             after_handle,
-            &body_mapping,
-            &body_flow_base,
+            mapping,
+            &completion_flow,
             location,
         )?;
-        self.ctx.push_op(body_block, completion_op);
+        self.ctx.push_op(block, completion_op);
+
+        let evidence_type = self.evidence_type();
+        let body_block = self.make_block(location, &[evidence_type]);
+        let extended_evidence = self.ctx.block_args(body_block)[0];
+        let mut body_mapping = mapping.clone();
         let body_flow = Flow {
+            evidence: Some(extended_evidence),
             exit_k: Some(completion_k),
-            ..body_flow_base
+            ..completion_flow
         };
         let source_body_block = self.ctx.region(body_source).blocks[0];
         self.convert_sequence(
-- 
2.43.0

