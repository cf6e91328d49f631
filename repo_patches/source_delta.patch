From f95a0b60c97c3d02a9f03749e1446cf12590362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:49 +0000
Subject: [PATCH 01/92] fix: allocate the full size of a character object

Mchar allocated sizeof(minim_char_size), the size of an int, and then
wrote the character four bytes past it.
---
 src/core/c/char.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/char.c b/src/core/c/char.c
index 9a64b43..b46fd1f 100644
--- a/src/core/c/char.c
+++ b/src/core/c/char.c
@@ -5,7 +5,7 @@
 #include "../minim.h"
 
 mobj Mchar(mchar c) {
-    mobj o = GC_alloc_atomic(sizeof(minim_char_size));
+    mobj o = GC_alloc_atomic(minim_char_size);
     minim_type(o) = MINIM_OBJ_CHAR;
     minim_char(o) = c;
     return o;
-- 
2.43.0


From 7b2235f35f29011c29a07d84075b64e551980768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:56 +0000
Subject: [PATCH 02/92] fix: reject malformed lambda, case-lambda and operator
 forms in the syntax checker

check_lambda and check_case_lambda read past short forms, (begin) was
dereferenced as a pair, and the operator of an application was never checked.
---
 src/core/c/check.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/c/check.c b/src/core/c/check.c
index 3dad68e..eab23cb 100644
--- a/src/core/c/check.c
+++ b/src/core/c/check.c
@@ -132,7 +132,12 @@ static void check_begin(mobj expr) {
 // Already assumes `expr` is `(<name> . <???>)`
 // Check: `expr` must be `(<name> <datum> ...)`
 static void check_lambda(mobj expr) {
-    mobj args = minim_cadr(expr);
+    mobj args;
+
+    if (!minim_consp(minim_cdr(expr)) || !minim_consp(minim_cddr(expr)))
+        bad_syntax_exn(expr);
+
+    args = minim_cadr(expr);
     for (; minim_consp(args); args = minim_cdr(args)) {
         assert_identifier(expr, minim_car(args));
     }
@@ -148,6 +153,9 @@ static void check_case_lambda(mobj expr) {
     mobj clauses, args;
 
     for (clauses = minim_cdr(expr); minim_consp(clauses); clauses = minim_cdr(clauses)) {
+        if (!minim_consp(minim_car(clauses)) || !minim_consp(minim_cdar(clauses)))
+            bad_syntax_exn(expr);
+
         for (args = minim_caar(clauses); minim_consp(args); args = minim_cdr(args))
             assert_identifier(expr, minim_car(args));
 
@@ -214,6 +222,9 @@ loop:
             // begin form
             check_begin(expr);
             expr = minim_cdr(expr);
+            if (minim_nullp(expr))
+                return;
+
             while (!minim_nullp(minim_cdr(expr))) {
                 check_expr(minim_car(expr));
                 expr = minim_cdr(expr);
@@ -224,7 +235,7 @@ loop:
         } else if (minim_listp(expr)) {
             // application
             check_begin(expr);
-            for (expr = minim_cdr(expr); !minim_nullp(expr); expr = minim_cdr(expr)) {
+            for (; !minim_nullp(expr); expr = minim_cdr(expr)) {
                 check_expr(minim_car(expr));
             }
         } else {
-- 
2.43.0


From 1833731122a0fcbc7bed5247a1894acfa33e0dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:56 +0000
Subject: [PATCH 03/92] fix: check the syntax of an expression passed to eval

---
 src/core/c/eval.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 5cfa275..9367f47 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -580,6 +580,7 @@ application:
         arity_mismatch_exn(tc_cp(tc), tc_ac(tc));
     } else if (ty == do_eval_symbol) {
         // do-eval
+        check_expr(tregs[0]);
         tregs[0] = Mclosure(Menv(0), compile_expr(tregs[0]), 0);
     } else if (ty == do_raise_symbol) {
         // do-raise
-- 
2.43.0


From 014532b8f9ec18fc992ce4b90c1bb4f1a10cb97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:56 +0000
Subject: [PATCH 04/92] fix: an empty begin as the producer of multiple values

---
 src/core/c/jitopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 5597205..54ac4d3 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -354,7 +354,7 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
         } else if (minim_car(e) == mvvalues_symbol) {
             // (mv-call (mv-values e ...) consumer) => (consumer e ...)
             return jit_opt_L1(Mcons(consumer, minim_cdr(e)));
-        } else if (minim_car(e) == begin_symbol) {
+        } else if (minim_car(e) == begin_symbol && !minim_nullp(minim_cdr(e))) {
             // (mv-call (begin e ... e_last) consumer)
             // => (begin e ... (mv-call e_last consumer))
             hd = tl = Mlist1(begin_symbol);
-- 
2.43.0


From e330aba4c6a8cd1a86f10459f0d41aa30dcfd201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 05/92] fix: growing and shrinking the evaluator's stack

The limit of a stack segment was computed by scaling its size in bytes by the
size of a pointer, so a segment never filled up and deep recursion or a large
apply wrote past its end. When a segment is added, move the current frame to
it, and return to the segment that holds the frame being restored.
---
 src/boot/c/boot.c |  2 +-
 src/core/c/eval.c | 66 ++++++++++++++++++++++++++++-------------------
 2 files changed, 41 insertions(+), 27 deletions(-)

diff --git a/src/boot/c/boot.c b/src/boot/c/boot.c
index dadd89f..fb5df55 100644
--- a/src/boot/c/boot.c
+++ b/src/boot/c/boot.c
@@ -16,6 +16,6 @@ void minim_boot_init() {
     tc_stack_base(tc) = GC_alloc(stack_size);
     tc_stack_size(tc) = stack_size;
     tc_sfp(tc) = tc_stack_base(tc);
-    tc_esp(tc) = tc_sfp(tc) + tc_stack_size(tc) - stack_slop;
+    tc_esp(tc) = ptr_add(tc_sfp(tc), tc_stack_size(tc) - stack_slop);
     current_tc() = tc;
 }
diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 9367f47..9c79bb8 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -77,9 +77,9 @@ static int stack_overflowp(mobj tc, size_t size) {
 }
 
 static void grow_stack(mobj tc, size_t size) {
-    mobj srecord;
+    mobj srecord, *sfp;
     void *stack;
-    size_t req, actual;
+    size_t req, actual, i;
 
     // compute required space
     req = size + stack_slop;
@@ -93,8 +93,28 @@ static void grow_stack(mobj tc, size_t size) {
     tc_stack_base(tc) = stack;
     tc_stack_link(tc) = srecord;
     tc_stack_size(tc) = actual;
-    tc_sfp(tc) = tc_stack_base(tc);
-    tc_esp(tc) = tc_sfp(tc) + tc_stack_size(tc) - stack_slop;
+    tc_esp(tc) = ptr_add(stack, actual - stack_slop);
+
+    // the current frame moves to the new segment
+    sfp = tc_sfp(tc);
+    tc_sfp(tc) = stack;
+    for (i = 0; i < 1 + tc_ac(tc); i++)
+        tc_sfp(tc)[i] = sfp[i];
+}
+
+// Returns to the previous stack segment.
+static void shrink_stack(mobj tc) {
+    mobj srecord = tc_stack_link(tc);
+    tc_stack_base(tc) = cache_stack_base(srecord);
+    tc_stack_size(tc) = cache_stack_len(srecord);
+    tc_stack_link(tc) = cache_stack_prev(srecord);
+    tc_esp(tc) = ptr_add(tc_stack_base(tc), tc_stack_size(tc) - stack_slop);
+}
+
+// Is a frame pointer within the current stack segment?
+static int in_stackp(mobj tc, mobj *sfp) {
+    return (uintptr_t) sfp >= (uintptr_t) tc_stack_base(tc) &&
+        (uintptr_t) sfp < (uintptr_t) ptr_add(tc_stack_base(tc), tc_stack_size(tc));
 }
 
 void reserve_stack(mobj tc, size_t argc) {
@@ -140,6 +160,7 @@ static void push_frame(mobj tc, mobj pc) {
     tc_ra(tc) = pc;
     tc_cp(tc) = minim_void;
     tc_ac(tc) = 0;
+    reserve_stack(tc, 0);
 }
 
 static mobj do_ccall(mobj tc, mobj (*prim)()) {
@@ -193,11 +214,10 @@ static mobj do_rest(mobj tc, size_t idx) {
 }
 
 static void do_apply(mobj tc) {
-    mobj *sfp, rest;
+    mobj rest;
     size_t i, ac, req;
 
     // thread parameters
-    sfp = tc_sfp(tc);
     ac = tc_ac(tc);
 
     // the first argument becomes the current procedure
@@ -221,8 +241,6 @@ static void do_apply(mobj tc) {
     req = stack_frame_size(tc, list_length(rest));
     if (stack_overflowp(tc, req)) {
         grow_stack(tc, req);
-        for (i = 0; i < ac; i++)
-            tc_frame_ref(tc, i) = sfp[i + 1]; 
     }
 
     // push rest argument to stack
@@ -248,6 +266,7 @@ static mobj do_values(mobj tc) {
 static void values_to_args(mobj tc, mobj x) {
     if (minim_valuesp(x)) {
         // multi-valued
+        maybe_grow_stack(tc, tc_vc(tc));
         for (size_t i = 0; i < tc_vc(tc); i++)
             push_arg(tc, tc_values(tc)[i]);
     } else {
@@ -670,28 +689,23 @@ do_raise:
 
 // restores previous continuation
 restore_frame:
-    if (tc_sfp(tc) <= tc_stack_base(tc)) {
-        // we underflowed, so we need to unpack the previous stack
-        mobj srecord = tc_stack_link(tc);
-        if (minim_nullp(srecord)) {
-            // no previous stack so we should exit
-            // make sure to pop entry frame
-            tc_env(tc) = penv;
-            return tregs[0];
-        }
-
-        tc_stack_base(tc) = cache_stack_base(srecord);
-        tc_stack_size(tc) = cache_stack_len(srecord);
-        tc_stack_link(tc) = cache_stack_prev(srecord);
+    cc = tc_ccont(tc);
+    if (minim_nullp(cc)) {
+        // no previous frame so we should exit
+        // make sure to pop entry frame
+        while (!minim_nullp(tc_stack_link(tc)))
+            shrink_stack(tc);
         tc_sfp(tc) = tc_stack_base(tc);
-        tc_esp(tc) = tc_sfp(tc) + tc_stack_size(tc) - stack_slop;
-        cc = cache_stack_ret(srecord);
-    } else {
-        cc = tc_ccont(tc);
+        tc_env(tc) = penv;
+        return tregs[0];
     }
 
+    // the previous frame might be on a previous stack segment
+    while (!in_stackp(tc, continuation_sfp(cc)))
+        shrink_stack(tc);
+
     // restore instruction stream and environment
-    istream = tc_ra(tc);
+    istream = continuation_pc(cc);
     tc_env(tc) = continuation_env(cc);
 
     // update thread parameters
-- 
2.43.0


From 466234ce3d482a00d61a93f131f2c6285479cea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:15 +0000
Subject: [PATCH 06/92] fix: eval in an environment restores the previous
 environment

set-arg ignored its register, so the expression was stored in place of the
environment to be restored.
---
 src/core/c/eval.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 9c79bb8..583a795 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -582,8 +582,9 @@ application:
         v0 = tc_frame_ref(tc, minim_fixnum(minim_car(minim_cddr(ins))));
         store_reg(tc, tregs, ins, minim_cadr(ins), v0);
     } else if (ty == set_arg_symbol) {
-        // set-arg
-        tc_frame_ref(tc, minim_fixnum(minim_cadr(ins))) = tregs[0];
+        // (set-arg <stack index> <reg>)
+        v0 = load_reg(tc, tregs, ins, minim_car(minim_cddr(ins)));
+        tc_frame_ref(tc, minim_fixnum(minim_cadr(ins))) = v0;
     } else if (ty == get_tenv_symbol) {
         // (get-tenv <dst reg>)
         store_reg(tc, tregs, ins, minim_cadr(ins), tc_tenv(tc));
-- 
2.43.0


From 2c9424d737e447f36d4dab3423e63f868a30dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:39 +0000
Subject: [PATCH 07/92] fix: evaluation within an evaluation

load called from inside an expression overwrote the caller's frame, returned
into the caller's code, and left the error handler's jump buffer pointing to a
dead frame. Give a nested evaluation an entry frame and a jump buffer of its own.
---
 src/core/c/eval.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 583a795..8a2bb3b 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -468,9 +468,20 @@ static mobj eval_istream(mobj tc, mobj *istream) {
 
     // temporary (non-register) locations
     mobj v0, v1;
+
+    // where errors are handled: in this call, then in its caller
+    jmp_buf reentry, *prev_reentry;
     
     // setup interpreter
     tc = current_tc();
+    prev_reentry = tc_reentry(tc);
+    tc_reentry(tc) = &reentry;
+
+    // called during the evaluation of another expression:
+    // needs a frame of its own, with no instructions to return to
+    if (!minim_nullp(tc_ccont(tc)))
+        push_frame(tc, NULL);
+
     tc_ra(tc) = NULL;
     tc_cp(tc) = minim_void;
     tc_ac(tc) = 0;
@@ -479,7 +490,7 @@ static mobj eval_istream(mobj tc, mobj *istream) {
     penv = tc_env(tc);
 
     // possibly handle long jump back into the procedure
-    if (setjmp(*tc_reentry(tc)) != 0) {
+    if (setjmp(reentry) != 0) {
         // long jumped from somewhere mysterious
         // valid long jumps require an immediate function application
         goto application;
@@ -698,6 +709,7 @@ restore_frame:
             shrink_stack(tc);
         tc_sfp(tc) = tc_stack_base(tc);
         tc_env(tc) = penv;
+        tc_reentry(tc) = prev_reentry;
         return tregs[0];
     }
 
@@ -714,6 +726,12 @@ restore_frame:
     tc_sfp(tc) = continuation_sfp(cc);
     tc_cp(tc) = continuation_cp(cc);
     tc_ac(tc) = continuation_ac(cc);
+    if (istream == NULL) {
+        // entry frame of this call
+        tc_reentry(tc) = prev_reentry;
+        return tregs[0];
+    }
+
     goto loop;
 
 not_procedure:
-- 
2.43.0


From bd3c6687acbdc74f47c7bf6d6edc2416032075e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 08/92] fix: multiple values produced outside of tail position

mv-values collected the whole frame, including arguments already pushed for an
enclosing application, and then cleared it. Collect the values in a new frame.
---
 src/core/c/jitcompile.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/core/c/jitcompile.c b/src/core/c/jitcompile.c
index 4f31bc8..5236fa2 100644
--- a/src/core/c/jitcompile.c
+++ b/src/core/c/jitcompile.c
@@ -298,22 +298,29 @@ static mobj compile_mvlet(mobj expr, mobj env, int tailp) {
 }
 
 static mobj compile_mvvalues(mobj expr, mobj env, int tailp) {
-    mobj vals, ins;
-    
-    vals = minim_cdr(expr);
-    if (minim_nullp(vals)) {
-        ins = Mlist1(Mlist1(do_values_symbol));
+    mobj vals, ins, label;
+
+    // the values are collected from the entire frame,
+    // so need a fresh frame if not in tail position
+    if (tailp) {
+        ins = minim_null;
     } else {
-        ins = Mlist1(Mlist2(check_stack_symbol, Mfixnum(list_length(vals))));
-        for (; !minim_nullp(vals); vals = minim_cdr(vals)) {
-            list_set_tail(ins, compile_expr2(minim_car(vals), env, 0));
-            list_set_tail(ins, Mlist1(Mlist1(push_symbol)));
-        }
+        label = scope_cenv_make_label(env);
+        ins = Mlist1(Mlist2(save_cc_symbol, label));
+    }
 
-        list_set_tail(ins, Mlist2(Mlist1(do_values_symbol), Mlist1(clear_frame_symbol)));
+    vals = minim_cdr(expr);
+    ins = list_append2(ins, Mlist1(Mlist2(check_stack_symbol, Mfixnum(list_length(vals)))));
+    for (; !minim_nullp(vals); vals = minim_cdr(vals)) {
+        list_set_tail(ins, compile_expr2(minim_car(vals), env, 0));
+        list_set_tail(ins, Mlist1(Mlist1(push_symbol)));
     }
 
-    return with_tail_ret(ins, tailp);
+    list_set_tail(ins, Mlist2(Mlist1(do_values_symbol), Mlist1(ret_symbol)));
+    if (!tailp)
+        list_set_tail(ins, Mlist1(label));
+
+    return ins;
 }
 
 static mobj compile_begin(mobj expr, mobj env, int tailp) {
-- 
2.43.0


From 0f287726ea7ca46bbb29110d1e8aaef8d0b482db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 09/92] fix: applying a lambda expression to the wrong number
 of arguments

The closure elimination dropped the arity check.
---
 src/core/c/jitopt.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 54ac4d3..5f616b7 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -517,7 +517,10 @@ static mobj jit_opt_L2_app(mobj expr) {
     mobj hd, tl, args, body;
 
     hd = minim_car(expr);
-    if (minim_consp(hd) && minim_car(hd) == lambda_symbol && minim_listp(minim_cadr(hd))) {
+    if (minim_consp(hd) &&
+        minim_car(hd) == lambda_symbol &&
+        minim_listp(minim_cadr(hd)) &&
+        list_length(minim_cadr(hd)) == list_length(minim_cdr(expr))) {
         // `((lambda (ids ...) body ...) args ...)`
         // => `(mv-let (values args ...) (ids ...) (begin body ...)`
         args = minim_cdr(expr);
-- 
2.43.0


From 8ace2294723b4e55eb84a721dfd0a8a603f4b2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 10/92] fix: call-with-values with a consumer that takes a rest
 argument

---
 src/core/c/jitopt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 5f616b7..88a9b4d 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -383,7 +383,8 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
 
         if (minim_consp(consumer) &&
             minim_car(consumer) == lambda_symbol &&
-            minim_consp(minim_cadr(consumer))) {
+            minim_consp(minim_cadr(consumer)) &&
+            minim_listp(minim_cadr(consumer))) {
             // (mv-call e (lambda (id ...) body) => (mv-let e (id ...) body)
             mobj body = minim_cddr(consumer);
             return jit_opt_L1(Mlist4(
-- 
2.43.0


From cff2af80581db451aaa2bf3e4b67f122527c7d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:48 +0000
Subject: [PATCH 11/92] fix: call-with-values applied to other than two
 arguments

---
 src/core/c/jitopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 88a9b4d..148eca5 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -441,7 +441,7 @@ mobj jit_opt_L1(mobj expr) {
             } else if (head == values_symbol) {
                 // values form
                 return jit_opt_L1_values(expr);
-            } else if (head == call_with_values_symbol) {
+            } else if (head == call_with_values_symbol && list_length(expr) == 3) {
                 // call-with-values form
                 return jit_opt_L1_mvcall(
                     Mlist3(
-- 
2.43.0


From 8a176eb66ddc65839b7ad35656c4da0c4962a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:48 +0000
Subject: [PATCH 12/92] fix: the arity of a procedure with several clauses

Clauses that were not in increasing order produced a value that was not an
arity, or one that left out argument counts that are accepted.
---
 src/core/c/eval.c       | 27 +++++----------
 src/core/c/jitcompile.c | 74 +++++++++++++++--------------------------
 2 files changed, 36 insertions(+), 65 deletions(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 8a2bb3b..8e44467 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -39,25 +39,16 @@ void arity_mismatch_exn(mobj proc, size_t actual) {
     if (minim_fixnump(arity)) {
         // exact arity
         minim_error2(name, "arity mismatch", arity, Mfixnum(actual));
+    } else if (minim_consp(arity) && minim_falsep(minim_cdr(arity))) {
+        // at-least arity
+        minim_error2(
+            name,
+            "arity mismatch, expected at least",
+            minim_car(arity), Mfixnum(actual)
+        );
     } else {
-        // range of arities
-        mobj min_arity = minim_car(arity);
-        mobj max_arity = minim_cdr(arity);
-        if (minim_falsep(max_arity)) {
-            // at-least arity
-            minim_error2(
-                name,
-                "arity mismatch, expected at least",
-                min_arity, Mfixnum(actual)
-            );
-        } else {
-            // range arity
-            minim_error3(
-                name,
-                "arity mismatch, expected between",
-                min_arity, max_arity, Mfixnum(actual)
-            );
-        }
+        // multiple arities
+        minim_error2(name, "arity mismatch", arity, Mfixnum(actual));
     }
 }
 
diff --git a/src/core/c/jitcompile.c b/src/core/c/jitcompile.c
index 5236fa2..92efccc 100644
--- a/src/core/c/jitcompile.c
+++ b/src/core/c/jitcompile.c
@@ -13,57 +13,37 @@ static int get_formals_len(mobj e, size_t *len) {
     return !minim_nullp(e);
 }
 
-static mobj update_arity(mobj arity, size_t req_arity, int restp) {
-    if (minim_nullp(arity)) {
-        // no arity set
-        return restp ? Mcons(Mfixnum(req_arity), minim_false) : Mfixnum(req_arity);
-    } else if (minim_fixnump(arity)) {
-        // single arity
-        if (req_arity > minim_fixnum(arity)) {
-            if (restp) {
-                 return Mcons(arity, Mcons(Mfixnum(req_arity), minim_false));
-            } else {
-                return Mlist2(arity, Mfixnum(req_arity));
-            }
-        } else if (req_arity == minim_fixnum(arity)) {
-            if (restp) {
-                return Mcons(arity, minim_false);
-            } else {
-                return arity;
-            }
-        } else {
-            if (restp) {
-                return Mcons(Mfixnum(req_arity), minim_false);
-            } else {
-                return Mcons(Mfixnum(req_arity), arity);
-            }
-        }
+// Adds the arity of a clause to a list of increasing arities that is
+// terminated by `#f` if any argument count above the last one is accepted.
+static mobj insert_arity(mobj arities, size_t req_arity, int restp) {
+    if (minim_falsep(arities)) {
+        // covered by the previous arity
+        return arities;
+    } else if (minim_nullp(arities)) {
+        return Mcons(Mfixnum(req_arity), restp ? minim_false : minim_null);
+    } else if (req_arity > minim_fixnum(minim_car(arities))) {
+        return Mcons(
+            minim_car(arities),
+            insert_arity(minim_cdr(arities), req_arity, restp)
+        );
+    } else if (restp) {
+        return Mcons(Mfixnum(req_arity), minim_false);
+    } else if (req_arity == minim_fixnum(minim_car(arities))) {
+        return arities;
     } else {
-        // multi-arity or arity with rest
-        if (req_arity > minim_fixnum(minim_car(arity))) {
-            if (minim_falsep(minim_cdr(arity))) {
-                return arity;
-            } else {
-                return Mcons(minim_car(arity), update_arity(minim_cdr(arity), req_arity, restp));
-            }
-        } else if (req_arity == minim_fixnum(minim_car(arity))) {
-            if (restp) {
-                return Mcons(minim_car(arity), minim_false);
-            } else {
-                return arity;
-            }
-        } else {
-            if (restp) {
-                return Mcons(minim_car(arity), minim_false);
-            } else {
-                return Mcons(Mfixnum(req_arity), arity);
-            }
-        }
-
-        minim_error("update_arity", "unimplemented");
+        return Mcons(Mfixnum(req_arity), arities);
     }
 }
 
+static mobj update_arity(mobj arity, size_t req_arity, int restp) {
+    // single arities are not stored as a list
+    if (minim_fixnump(arity))
+        arity = Mlist1(arity);
+
+    arity = insert_arity(arity, req_arity, restp);
+    return minim_nullp(minim_cdr(arity)) ? minim_car(arity) : arity;
+}
+
 //
 //  Compiler
 //
-- 
2.43.0


From 776301137f6b8dfa98ee5a434f55c393946bff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 13/92] fix: case-lambda without clauses

---
 src/core/c/jitcompile.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/c/jitcompile.c b/src/core/c/jitcompile.c
index 92efccc..b57b17e 100644
--- a/src/core/c/jitcompile.c
+++ b/src/core/c/jitcompile.c
@@ -183,7 +183,12 @@ static mobj compile_case_lambda2(mobj expr, mobj env, mobj fvs, mobj bounds, int
     }
 
     // arity exception
-    list_set_tail(ins, Mlist2(label, Mlist1(do_arity_error_symbol)));
+    if (label) {
+        list_set_tail(ins, Mlist2(label, Mlist1(do_arity_error_symbol)));
+    } else {
+        // no clauses
+        ins = Mlist1(Mlist1(do_arity_error_symbol));
+    }
 
     // resolve references
     reloc = resolve_refs(env, ins);
-- 
2.43.0


From 98ec5f3b2f3605e30c107e62823bfa0e0f035245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 14/92] fix: set! of an undefined top-level variable

---
 src/core/c/eval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 8e44467..64ee5d6 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -338,6 +338,8 @@ static mobj tl_env_lookup_cell(mobj tc, mobj id) {
 
 static void tl_env_rebind(mobj tc, mobj id, mobj val) {
     mobj cell = top_env_find(tc_tenv(tc), id);
+    if (minim_falsep(cell))
+        minim_error1(NULL, "cannot set variable before its definition", id);
     minim_cdar(cell) = val;
 }
 
-- 
2.43.0


From 04a3d5d7a6c3350e36ef0979921ee1f1e4ef6a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 15/92] fix: set! takes a single value and returns void for any
 variable

---
 src/core/c/eval.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 64ee5d6..0e2f95c 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -570,11 +570,12 @@ application:
         tregs[0] = minim_void;
     } else if (ty == rebind_symbol) {
         // rebind
-        env_rebind(tc, minim_cadr(ins), tregs[0]);
+        env_rebind(tc, minim_cadr(ins), force_single_value(tc, tregs[0]));
         tregs[0] = minim_void;
     } else if (ty == tl_rebind_symbol) {
         // tl-rebind
-        tl_env_rebind(tc, minim_cadr(ins), tregs[0]);
+        tl_env_rebind(tc, minim_cadr(ins), force_single_value(tc, tregs[0]));
+        tregs[0] = minim_void;
     } else if (ty == push_env_symbol) {
         // push-env
         tc_env(tc) = Menv(minim_fixnum(minim_cadr(ins)));
-- 
2.43.0


From 271bfda9f175d8f7ce9478758a45d5153556dacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:07 +0000
Subject: [PATCH 16/92] fix: procedure-rename leaves its argument as it is

---
 src/core/c/procedure.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/c/procedure.c b/src/core/c/procedure.c
index 4369ca8..09fe503 100644
--- a/src/core/c/procedure.c
+++ b/src/core/c/procedure.c
@@ -52,6 +52,6 @@ mobj procedure_rename_proc(mobj proc, mobj id) {
         minim_closure_ref(proc2, i) = minim_closure_ref(proc, i);
     }
 
-    minim_closure_name(proc) = id;
-    return proc;
+    minim_closure_name(proc2) = id;
+    return proc2;
 }
-- 
2.43.0


From 7c526a8c6b8647afaf6eef8c0fb8528d256218a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 17/92] fix: division by zero and division by several numbers

The error procedure was bound under another name, and with three or more
arguments / subtracted.
---
 src/core/s/prelude.min | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 46c9fad..65577d7 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -578,7 +578,7 @@
   (let-values ([(non-number-error)
                 (lambda (who v)
                   (raise-argument-error who "number?" v))]
-               [(divide-0-error)
+               [(division-0-error)
                 (lambda (who v)
                   (error who "division by zero" v))])
     (values
@@ -657,8 +657,8 @@
                                              (loop ($fx2* x ($car xs)) ($cdr xs))
                                              (non-number-error '* ($car xs)))))])
                    (loop ($fx2* x y) rest))
-                 (non-number-error '* x))
-             (non-number-error '* y))])
+                 (non-number-error '* y))
+             (non-number-error '* x))])
       ; /
       (case-lambda
         [(x)
@@ -673,8 +673,8 @@
                  (if (zero? y)
                      (division-0-error '/ y)
                      ($fx2/ x y))
-                 (non-number-error '- y))
-             (non-number-error '- x))]
+                 (non-number-error '/ y))
+             (non-number-error '/ x))]
         [(x y . rest)
          (if (number? x)
              (if (number? y)
@@ -687,11 +687,11 @@
                                              (if (number? ($car xs))
                                                  (if (zero? ($car xs))
                                                      (division-0-error '/ ($car xs))
-                                                     (loop ($fx2- x ($car xs)) ($cdr xs)))
-                                                 (non-number-error '- ($car xs)))))])
-                       (loop ($fx2- x y) rest)))
-                 (non-number-error '- y))
-             (non-number-error '- x))]))))
+                                                     (loop ($fx2/ x ($car xs)) ($cdr xs)))
+                                                 (non-number-error '/ ($car xs)))))])
+                       (loop ($fx2/ x y) rest)))
+                 (non-number-error '/ y))
+             (non-number-error '/ x))]))))
 
 (define-values (add1)
   (lambda (x)
-- 
2.43.0


From f2aa7c539e3dfa149048209156b4637a9dc57ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 18/92] fix: remainder and modulo by zero

---
 src/core/s/prelude.min | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 65577d7..0300270 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -709,7 +709,9 @@
   (lambda (x y)
     (if (number? x)
         (if (number? y)
-            ($fxremainder x y)
+            (if (zero? y)
+                (error 'remainder "division by zero" y)
+                ($fxremainder x y))
             (raise-argument-error 'remainder "number?" y))
         (raise-argument-error 'remainder "number?" x))))
 
@@ -717,7 +719,9 @@
   (lambda (x y)
     (if (number? x)
         (if (number? y)
-            ($fxmodulo x y)
+            (if (zero? y)
+                (error 'modulo "division by zero" y)
+                ($fxmodulo x y))
             (raise-argument-error 'modulo "number?" y))
         (raise-argument-error 'modulo "number?" x))))
 
-- 
2.43.0


From 967ab086dd19c201b691609fc02b81c7d46de4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 19/92] fix: modulo of a multiple, and dividing the least
 fixnum by -1

---
 src/core/c/number.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/c/number.c b/src/core/c/number.c
index bb160ab..a0b6a68 100644
--- a/src/core/c/number.c
+++ b/src/core/c/number.c
@@ -41,11 +41,16 @@ mobj fx2_mul(mobj x, mobj y) {
 
 mobj fx2_div(mobj x, mobj y) {
     // (-> integer integer integer)
+    // the quotient of the least fixnum and -1 is not a fixnum, and traps
+    if (minim_fixnum(y) == -1)
+        return Mfixnum(-(muptr) minim_fixnum(x));
     return Mfixnum(minim_fixnum(x) / minim_fixnum(y));
 }
 
 mobj fx_remainder(mobj x, mobj y) {
     // (-> integer integer integer)
+    if (minim_fixnum(y) == -1)
+        return Mfixnum(0);
     return Mfixnum(minim_fixnum(x) % minim_fixnum(y));
 }
 
@@ -53,8 +58,8 @@ mobj fx_modulo(mobj x, mobj y) {
     // (-> integer integer integer)
     mfixnum xv = minim_fixnum(x);
     mfixnum yv = minim_fixnum(y);
-    mfixnum z = xv % yv;
-    if ((xv < 0) != (yv < 0))
+    mfixnum z = (yv == -1) ? 0 : xv % yv;
+    if (z != 0 && (xv < 0) != (yv < 0))
         z += yv;
     return Mfixnum(z);
 }
-- 
2.43.0


From 824c53b2311467b3a059df232615a1b1e7b4ddf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 20/92] fix: argument errors of make-string, string-append and
 make-list

---
 src/core/s/prelude.min | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 0300270..0a67bf1 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -815,8 +815,8 @@
                   (if (non-negative-integer? n)
                       (if (char? c)
                           (void)
-                          (raise-argument-error 'make-string "char?" init))
-                      (raise-argument-error 'make-string "non-negative-integer?" len)))])
+                          (raise-argument-error 'make-string "char?" c))
+                      (raise-argument-error 'make-string "non-negative-integer?" n)))])
     (case-lambda
       [(n)
        (check-args! n #\a)
@@ -859,7 +859,7 @@
                   (for-each (lambda (x)
                               (if (string? x)
                                   (void)
-                                  (raise-argument-error 'string-append "string?" s)))
+                                  (raise-argument-error 'string-append "string?" x)))
                             xs))]
                [(sum-lengths)
                 (lambda (xs)
@@ -928,7 +928,7 @@
   (lambda (len init)
     (if (if (integer? len) (>= len 0) #f)
         ($make-list len init)
-        (raise-argument-error 'length "non-negative-integer?" len))))
+        (raise-argument-error 'make-list "non-negative-integer?" len))))
 
 (define-values (length)
   (lambda (xs)
-- 
2.43.0


From d0a4bc74a62de876abfbd0c75e1e3f7089ad3f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:22 +0000
Subject: [PATCH 21/92] fix: string->list includes the terminator of the string

---
 src/core/c/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/string.c b/src/core/c/string.c
index 8de8d31..b2a728f 100644
--- a/src/core/c/string.c
+++ b/src/core/c/string.c
@@ -103,7 +103,7 @@ mobj list_to_string(mobj xs) {
 mobj string_to_list(mobj s) {
     // (-> string (listof char))
     mobj lst = minim_null;
-    for (long i = strlen(minim_string(s)); i >= 0; i--)
+    for (long i = (long) strlen(minim_string(s)) - 1; i >= 0; i--)
         lst = Mcons(Mchar(minim_string(s)[i]), lst);
     return lst;
 }
-- 
2.43.0


From 5f770503a021a0601a0c96a3945d776df9884883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:22 +0000
Subject: [PATCH 22/92] fix: string->number truncates to an int and accepts any
 string

---
 src/core/c/string.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/c/string.c b/src/core/c/string.c
index b2a728f..9fe557e 100644
--- a/src/core/c/string.c
+++ b/src/core/c/string.c
@@ -4,6 +4,8 @@
 
 #include "../minim.h"
 
+#include <errno.h>
+
 #define FIXNUM_STRING_LEN   24
 
 mobj Mstring(const char *s) {
@@ -70,8 +72,13 @@ mobj number_to_string(mobj n) {
 }
 
 mobj string_to_number(mobj s) {
-    // (-> string number)
-    return Mfixnum(atoi(minim_string(s)));
+    // (-> string (or number #f))
+    char *end;
+    mfixnum v;
+
+    errno = 0;
+    v = strtol(minim_string(s), &end, 10);
+    return (end == minim_string(s) || *end != '\0' || errno) ? minim_false : Mfixnum(v);
 }
 
 mobj symbol_to_string(mobj s) {
-- 
2.43.0


From 3ee8f7bfde827ce12ced36b4befbd6fd0d4100bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:22 +0000
Subject: [PATCH 23/92] fix: the integers of characters above 127

---
 src/core/c/string.c    | 2 +-
 src/core/minim.h       | 2 +-
 src/core/s/prelude.min | 6 ++++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/c/string.c b/src/core/c/string.c
index 9fe557e..6deaf83 100644
--- a/src/core/c/string.c
+++ b/src/core/c/string.c
@@ -55,7 +55,7 @@ mobj string_length(mobj s) {
 
 mobj string_ref(mobj s, mobj idx) {
     // (-> string fixnum any)
-    return Mchar(minim_string(s)[minim_fixnum(idx)]);
+    return Mchar((mbyte) minim_string(s)[minim_fixnum(idx)]);
 }
 
 mobj string_set(mobj s, mobj idx, mobj x) {
diff --git a/src/core/minim.h b/src/core/minim.h
index 780069c..3bd92b9 100644
--- a/src/core/minim.h
+++ b/src/core/minim.h
@@ -175,7 +175,7 @@ extern mobj minim_unbound;
 // +------------+
 #define minim_char_size         ptr_size
 #define minim_charp(o)          (minim_type(o) == MINIM_OBJ_CHAR)
-#define minim_char(o)           (*((char *) ptr_add(o, 4)))
+#define minim_char(o)           (*((mbyte *) ptr_add(o, 4)))
 
 #define NUL_CHAR        ((mchar) 0x00)      // null
 #define BEL_CHAR        ((mchar) 0x07)      // alarm / bell
diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 0a67bf1..b6e5846 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -786,8 +786,10 @@
 
 (define-values (integer->char)
   (lambda (x)
-    (if (integer? x) ; TODO: bounds on characters
-        ($integer->char x)
+    (if (integer? x)
+        (if (if (>= x 0) (< x 256) #f)
+            ($integer->char x)
+            (raise-range-error 'integer->char x "" 0 256 x))
         (raise-argument-error 'integer->char "integer?" x))))
 
 ;; --------------------------------------------------------
-- 
2.43.0


From 6c306e8f568102fcfb5563c15c1529c614311c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 24/92] fix: the vector index errors of vector-ref, vector-set!
 and vector-fill!

---
 src/core/s/prelude.min | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index b6e5846..5b05a94 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1135,7 +1135,7 @@
     (if (vector? v)
         (if (non-negative-integer? idx)
             (if (>= idx ($vector-length v))
-                (raise-range-error 'vector-ref "" v 0 ($vector-length v) idx)
+                (raise-range-error 'vector-ref v "" 0 ($vector-length v) idx)
                 ($vector-ref v idx))
             (raise-argument-error 'vector-ref "non-negative-integer?" idx))
         (raise-argument-error 'vector-ref "vector?" v))))
@@ -1145,7 +1145,7 @@
     (if (vector? v)
         (if (non-negative-integer? idx)
             (if (>= idx ($vector-length v))
-                (raise-range-error 'vector-set! "" v 0 ($vector-length v) idx)
+                (raise-range-error 'vector-set! v "" 0 ($vector-length v) idx)
                 ($vector-set! v idx x))
             (raise-argument-error 'vector-set! "non-negative-integer?" idx))
         (raise-argument-error 'vector-set! "vector?" v))))
@@ -1154,7 +1154,7 @@
   (lambda (v x)
     (if (vector? v)
         ($vector-fill! v x)
-        (raise-argument-error 'vector->list "vector?" v))))
+        (raise-argument-error 'vector-fill! "vector?" v))))
 
 (define-values (list->vector)
   (lambda (xs)
-- 
2.43.0


From 1fd2b1f6891d23f91533ff87b0de49249c2d5e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 25/92] fix: argument errors of port operations

---
 src/core/s/prelude.min | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 5b05a94..7b54131 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1202,19 +1202,19 @@
   (lambda (str)
     (if (string? str)
         ($open-input-string str)
-        (raise-argument-error 'open-input-string "string?" name))))
+        (raise-argument-error 'open-input-string "string?" str))))
 
 (define-values (close-input-port)
   (lambda (port)
     (if (input-port? port)
         ($close-input-port port)
-        (raise-argument-error 'close-input-file "input-port?" port))))
+        (raise-argument-error 'close-input-port "input-port?" port))))
 
 (define-values (close-output-port)
   (lambda (port)
     (if (output-port? port)
         ($close-output-port port)
-        (raise-argument-error 'close-output-file "output-port?" port))))
+        (raise-argument-error 'close-output-port "output-port?" port))))
 
 (define-values (get-output-string)
   (lambda (port)
@@ -1966,7 +1966,7 @@
         (if (char? ch)
             ($put-char p ch)
             (raise-argument-error 'put-char "char?" ch))
-        (raise-argument-error 'put-char "output-port?" ch))))
+        (raise-argument-error 'put-char "output-port?" p))))
 
 (define-values (put-string)
   (let-values ([(non-output-port-error)
@@ -1984,8 +1984,8 @@
                     (if (<= start len)
                         (if (<= (+ start n) len)
                             ($put-string p s start n)
-                            (raise-range-error 'put-string str "end" 0 (+ len 1) (+ start n)))
-                        (raise-range-error 'put-string str "start" 0 (+ len 1) start))))])
+                            (raise-range-error 'put-string s "end" 0 (+ len 1) (+ start n)))
+                        (raise-range-error 'put-string s "start" 0 (+ len 1) start))))])
     (case-lambda
       [(p s)
        (if (output-port? p)
@@ -2007,7 +2007,7 @@
                (if (non-negative-integer? start)
                    (if (non-negative-integer? n)
                        (1/put-string p s start n)
-                       (non-integer-error start))
+                       (non-integer-error n))
                    (non-integer-error start))
                (non-string-error s))
            (non-output-port-error p))])))
@@ -2248,7 +2248,7 @@
             (begin
               (check-format! 'fprintf fmt args)
               (do-format p fmt args))
-            (raise-argument-error 'fprintf "output port?" fmt)))
+            (raise-argument-error 'fprintf "output port?" p)))
       ; printf
       (lambda (fmt . args)
         (check-format! 'printf fmt args)
-- 
2.43.0


From 5aaf0a2669bc992ef37d834112d67599cbfbe13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 26/92] fix: write-char calls a procedure that does not exist

---
 src/core/s/prelude.min | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 7b54131..ae7cca7 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2022,12 +2022,12 @@
   (case-lambda
     [(c)
      (if (char? c)
-         ($write-char c (current-output-port))
+         ($put-char (current-output-port) c)
          (raise-argument-error 'write-char "char?" c))]
     [(c p)
      (if (char? c)
          (if (output-port? p)
-             ($write-char c p)
+             ($put-char p c)
              (raise-argument-error 'write-char "output-port?" p))
          (raise-argument-error 'write-char "char?" c))]))
 
-- 
2.43.0


From b4e34a0579d58708d9897a90af606632b1af5d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 27/92] fix: ~~ in a format string

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index ae7cca7..f2e8e11 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2195,7 +2195,7 @@
                                                                 (if (eq? nc #\%)
                                                                     (loop (+ n 2) args)
                                                                     (if (eq? nc #\~)
-                                                                        (loop (+ n 2) xs)
+                                                                        (loop (+ n 2) args)
                                                                         (errorf who "unknown format directive `~a`" nc)))))))
                                                   (loop (+ n 1) args)))))])
                        (loop 0 '())))]                                                
-- 
2.43.0


From 907f220352591d98eff72ab03c4d34a82bdabdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 28/92] fix: the setters of default-record-equal-procedure and
 default-record-hash-procedure

---
 src/core/s/prelude.min | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index f2e8e11..a854d55 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1730,7 +1730,7 @@
     [() ($default-record-equal-procedure)]
     [(proc)
      (if (procedure? proc)
-         ($default-record-equal-procedure proc)
+         ($default-record-equal-procedure-set! proc)
          (raise-argument-error 'default-record-equal-procedure
                                "procedure?"
                                proc))]))
@@ -1738,10 +1738,10 @@
 ; TODO: thread parameter
 (define-values (default-record-hash-procedure)
   (case-lambda
-    [() ($default-record-equal-procedure)]
+    [() ($default-record-hash-procedure)]
     [(proc)
      (if (procedure? proc)
-         ($default-record-hash-procedure proc)
+         ($default-record-hash-procedure-set! proc)
          (raise-argument-error 'default-record-hash-procedure
                                "procedure?"
                                proc))]))
-- 
2.43.0


From 2249cf3b9f7a561f5ef5368ebef3d422efd13ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 29/92] fix: errors of record procedures applied to
 non-descriptors

---
 src/core/s/prelude.min | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index a854d55..fea4cac 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1765,7 +1765,7 @@
                              (errorf 'do-table-ref "unknown mode: ~a" mode))))]
                   [(non-rtd-error)
                    (lambda (who v)
-                     (raise-argument-error who "record-type-desriptor?" v_))]
+                     (raise-argument-error who "record-type-descriptor?" v))]
                   [(non-proc-error)
                    (lambda (who v)
                      (raise-argument-error who "procedure?" v))])
@@ -1821,7 +1821,7 @@
   (letrec-values ([($writer-table) (make-eq-hashtable)]
                   [(non-rtd-error)
                    (lambda (who v)
-                     (raise-argument-error who "record-type-desriptor?" v_))]
+                     (raise-argument-error who "record-type-descriptor?" v))]
                   [(non-proc-error)
                    (lambda (who v)
                      (raise-argument-error who "procedure?" v))])
-- 
2.43.0


From e7694c0b0d338f85b8396b2c40bfa29c4b853756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 30/92] fix: a record type inherits the writer of its parent

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index fea4cac..88e5c9c 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1321,7 +1321,7 @@
                   (record-type-hash-procedure rtd rec-hash)
                   (void))
               (if rec-writer
-                  (record-writer rec-writer)
+                  (record-writer rtd rec-writer)
                   (void)))
             (void))
         rtd))))
-- 
2.43.0


From 9588c5a1fc23ce5c1e17a35071c2a118563bca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 31/92] fix: make-record-type-descriptor checks its arguments

---
 src/core/s/prelude.min | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 88e5c9c..dc724fd 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1231,7 +1231,7 @@
                      (if (pair? field)
                          (let-values ([(type) ($car field)]
                                       [(rib) ($cdr field)])
-                            (if (if (eq? type 'immutable) #t (eq? type 'mutable))
+                            (if (if (pair? rib) (if (eq? type 'immutable) #t (eq? type 'mutable)) #f)
                                 (let-values ([(name) ($car rib)]
                                              [(rib) ($cdr rib)])
                                    (if (symbol? name)
@@ -1242,7 +1242,7 @@
                                 #f))
                          #f))]
                   [(check-args!)
-                   (lambda (name parent uid sealed? opaque?)
+                   (lambda (name parent uid sealed? opaque? fields)
                      (if (symbol? name)
                          (if (if (record-type-descriptor? parent)
                                  (begin
@@ -1257,15 +1257,7 @@
                                  (if (boolean? sealed?)
                                      (if (boolean? opaque?)
                                          (if (vector? fields)
-                                            (begin
-                                              (check-fields! fields)
-                                              ($make-record-type-descriptor
-                                                 name
-                                                 parent
-                                                 uid
-                                                 sealed?
-                                                 opaque?
-                                                 fields))
+                                            (check-fields! fields)
                                             (raise-argument-error
                                               'make-record-type-descriptor
                                               "vector?"
@@ -1306,9 +1298,10 @@
                                  (raise-argument-error
                                    'make-record-type-descriptor
                                    "invalid field; '(immutable <name>) or '(mutable <name>)"
-                                   field))))
+                                   ($vector-ref fields i)))))
                          (iota ($vector-length fields)))))])
     (lambda (name parent uid sealed? opaque? fields)
+      (check-args! name parent uid sealed? opaque? fields)
       (let-values ([(rtd) ($make-record-type-descriptor name parent uid sealed? opaque? fields)])
         (if parent
             (let-values ([(rec-equal?) (record-type-equal-procedure parent)]
@@ -2434,7 +2427,7 @@
 
 ; base exception
 (define-values (&exn make-exn exn? exn-who exn-message)
-  (let-values ([(&exn) (make-record-type-descriptor '&exn #f #f #t #t #(who message))])
+  (let-values ([(&exn) (make-record-type-descriptor '&exn #f #f #f #t #((immutable who) (immutable message)))])
     (values &exn
             (record-constructor &exn)
             (record-predicate &exn)
@@ -2443,7 +2436,7 @@
 
 ; argument exception
 (define-values (&argument make-argument-exn argument-exn? argument-exn-expect argument-exn-actual)
-  (let-values ([(&argument) (make-record-type-descriptor '&argument-exn &exn #f #t #t #(expect actual))])
+  (let-values ([(&argument) (make-record-type-descriptor '&argument-exn &exn #f #t #t #((immutable expect) (immutable actual)))])
     (values &argument
             (record-constructor &argument)
             (record-predicate &argument)
@@ -2452,7 +2445,7 @@
 
 ; arity exception
 (define-values (&arity make-arity-exn arity-exn? arity-exn-expect arity-exn-actual)
-  (let-values ([(&arity) (make-record-type-descriptor '&arity-exn &exn #f #t #t #(expect actual))])
+  (let-values ([(&arity) (make-record-type-descriptor '&arity-exn &exn #f #t #t #((immutable expect) (immutable actual)))])
     (values &arity
             (record-constructor &arity)
             (record-predicate &arity)
@@ -2461,7 +2454,11 @@
 
 ; range exception
 (define-values (&range make-range-exn range-exn? range-exn-value range-exn-description range-exn-lower range-exn-upper range-exn-index)
-  (let-values ([(&range) (make-record-type-descriptor '&range-exn &exn #f #t #t #(value description lower upper index))])
+  (let-values ([(&range) (make-record-type-descriptor '&range-exn &exn #f #t #t #((immutable value)
+                                                 (immutable description)
+                                                 (immutable lower)
+                                                 (immutable upper)
+                                                 (immutable index)))])
     (values &range
             (record-constructor &range)
             (record-predicate &range)
@@ -2473,7 +2470,7 @@
 
 ; missing exception
 (define-values (&missing make-missing-exn missing-exn? missing-exn-description missing-exn-value missing-exn-key)
-  (let-values ([(&missing) (make-record-type-descriptor '&missing-exn &exn #f #t #t #(description value key))])
+  (let-values ([(&missing) (make-record-type-descriptor '&missing-exn &exn #f #t #t #((immutable description) (immutable value) (immutable key)))])
     (values &missing
             (record-constructor &missing)
             (record-predicate &missing)
@@ -2483,7 +2480,7 @@
 
 ; syntax exception
 (define-values (&syntax make-syntax-exn syntax-exn? syntax-exn-form syntax-exn-subform)
-  (let-values ([(&syntax) (make-record-type-descriptor '&syntax-exn &exn #f #t #t #(form subform))])
+  (let-values ([(&syntax) (make-record-type-descriptor '&syntax-exn &exn #f #t #t #((immutable form) (immutable subform)))])
     (values &syntax
             (record-constructor &syntax)
             (record-predicate &syntax)
-- 
2.43.0


From 8c7ce0536d507a3921135210af8a4d23ccf47134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 32/92] fix: arity errors of record constructors

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index dc724fd..b8dc957 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1391,7 +1391,7 @@
                              (lambda args
                                (if (= (length args) size)
                                    ($make-record rtd args)
-                                   (raise-arity-error make size (length args))))])
+                                   (raise-arity-error (procedure-name make) size (length args))))])
               make)
             (raise-argument-error
               'record-constructor
-- 
2.43.0


From 08f73d5c71642264258b614b45544f0a9477c40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 33/92] fix: default failure and argument errors of
 environment-ref

---
 src/core/s/prelude.min | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index b8dc957..862fcd6 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2361,11 +2361,11 @@
                                        (fail)
                                        fail)
                                    v))
-                             (raise-arugment-error 'environment-ref "symbol?" k))
-                         (raise-arugment-error 'environment-ref "environment?" env)))])        
+                             (raise-argument-error 'environment-ref "symbol?" k))
+                         (raise-argument-error 'environment-ref "environment?" env)))])        
     (case-lambda
       [(env k)
-       (1/environment-ref env k default-fail)]
+       (1/environment-ref env k (lambda () (default-fail env k)))]
       [(env k fail)
        (1/environment-ref env k fail)])))
 
-- 
2.43.0


From 2e7190e418a8619e38bd13c64d6d95072dd8be5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 34/92] fix: equal? of hashtables of different sizes

---
 src/core/s/prelude.min | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 862fcd6..5c4ae44 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1850,7 +1850,9 @@
                   [(equal-hashtable?)
                    (lambda (a b)
                      (if (eq? (hashtable-hash-proc a) (hashtable-hash-proc b))
-                         (if (eq? (hashtable-equiv-proc a) (hashtable-equiv-proc b))
+                         (if (if (eq? (hashtable-equiv-proc a) (hashtable-equiv-proc b))
+                                 (= (hashtable-size a) (hashtable-size b))
+                                 #f)
                              (let-values ([(kas vas) (hashtable-entries a)])
                                (andmap
                                  (lambda (i)
-- 
2.43.0


From df4436041cae901dbed8528d6ca0f0859ece6fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 35/92] fix: an invalid hash function is reported as such

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 5c4ae44..8d86baa 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1550,7 +1550,7 @@
         (let-values ([(h) (hash x)])
           (if (fixnum? h)
               h
-              (raise-argument-error 'do-hash "invalid hash function" hash h))))]
+              (error 'do-hash "invalid hash function" hash h))))]
      [(incr-size!)
       (lambda (ht store)
         (let-values ([(size) (add1 ($hashtable-size store))]
-- 
2.43.0


From 084ea0f2b8866e579ea0718cc729a6049fa832c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 36/92] fix: hashtable-update! with an updater that modifies
 the table

---
 src/core/s/prelude.min | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 8d86baa..fb7b518 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1649,14 +1649,12 @@
      (lambda (ht k updater default)
        (letrec-values ([(h) (do-hash (hashtable-hash-proc ht) k)]
                        [(cell) (1/hashtable-cell-ref ht h k)])
-         (if cell
-             (set-cdr! cell (updater ($cdr cell)))
-             (let-values ([(store) ($hashtable-store ht)]
-                          [(cell) (cons k (if (procedure? default)
-                                              (updater (default))
-                                              (updater default)))])
-               ($hashtable-set! store h (cons cell ($hashtable-ref store h)))
-               (incr-size! ht store)))))]
+         (1/hashtable-set! ht k
+                           (updater (if cell
+                                        ($cdr cell)
+                                        (if (procedure? default)
+                                            (default)
+                                            default))))))]
 
     [(no-key!)
      (lambda (who ht k)
-- 
2.43.0


From 7f2640d0faab9209ed5d11d00e8a71644b6903a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 37/92] fix: the default writer prints a box

---
 src/core/s/prelude.min | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index fb7b518..99392d1 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2037,6 +2037,7 @@
                      (if (char? x) (if d? (put-char p x) (wrchar x p))
                      (if (string? x) (if d? (put-string p x) (wrstring x p))
                      (if (vector? x) (wrvector x d? p)
+                     (if (box? x) (wrbox x d? p)
                      (if (eof-object? x) (put-string p "#<eof>")
                      (if (void? x) (put-string p "#<void>")
                      (if (input-port? x) (put-string p "#<input port>")
@@ -2046,7 +2047,7 @@
                      (if (environment? x) (put-string p "#<environment>")
                      (if (record-type-descriptor? x) (wrrtd x d? p)
                      (if ($record-value? x) (wrrecord x d? p)
-                     (put-string p "#<garbage>")))))))))))))))))))]
+                     (put-string p "#<garbage>"))))))))))))))))))))]
                   ; character writer
                   [(wrchar)
                    (lambda (x p)
@@ -2115,6 +2116,11 @@
                                               (loop (+ i 1) #\space))))])
                        (loop 0 lparen))
                      (put-char p rparen))]
+                  ; box writer
+                  [(wrbox)
+                   (lambda (x d? p)
+                     (put-string p "#&")
+                     (wr (unbox x) d? p))]
                   ; record type writer
                   [(wrrtd)
                    (lambda (x d? p)
-- 
2.43.0


From cbb04cc98889eef9eb902dd0bfafe2e65981ce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 38/92] fix: equal-hash of a hashtable

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 99392d1..8e8700f 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1920,7 +1920,7 @@
                         (if (box? x)
                             (loop (unbox x) (+ hc 410225874))
                             (if (hashtable? x)
-                                (loop (hashtable->list x) hc)
+                                (loop (hashtable-size x) hc)
                                 (if ($record-value? x)
                                     (let-values ([(proc) (record-hash-procedure x)])
                                       (if proc
-- 
2.43.0


From c962e35e9cf442532c532ec37784a5d567681ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 39/92] fix: operations on a closed port

---
 src/core/c/fasl.c   |  4 +--
 src/core/c/io.c     | 59 +++++++++++++++++++++++++++++++--------------
 src/core/c/thread.c |  3 +++
 src/core/minim.h    |  1 +
 4 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/src/core/c/fasl.c b/src/core/c/fasl.c
index 27146aa..b2c4a88 100644
--- a/src/core/c/fasl.c
+++ b/src/core/c/fasl.c
@@ -345,11 +345,11 @@ void write_fasl(FILE *out, mobj o) {
 
 mobj fasl_read_proc(mobj port) {
     // (-> input-port any)
-    return read_fasl(minim_port(port));
+    return read_fasl(port_stream("fasl-read", port));
 }
 
 mobj fasl_write_proc(mobj x, mobj port) {
     // (-> any output-port void)
-    write_fasl(minim_port(port), x);
+    write_fasl(port_stream("fasl-write", port), x);
     return minim_void;
 }
diff --git a/src/core/c/io.c b/src/core/c/io.c
index b6b0baa..44c1cb7 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -35,6 +35,26 @@ mobj Moutput_port(FILE *stream) {
     return o;
 }
 
+// Returns the stream of a port, signalling an error if the port is closed.
+FILE *port_stream(const char *who, mobj port) {
+    if (!minim_port_openp(port))
+        minim_error1(who, "port is closed", port);
+    return minim_port(port);
+}
+
+// Closes a port. Closing a closed port does nothing;
+// the standard streams are never closed.
+static void close_port(mobj port) {
+    if (!minim_port_openp(port) ||
+        minim_port(port) == stdin ||
+        minim_port(port) == stdout ||
+        minim_port(port) == stderr)
+        return;
+
+    minim_port_unset(port, PORT_FLAG_OPEN);
+    fclose(minim_port(port));
+}
+
 //
 //  Primitives
 //
@@ -136,35 +156,35 @@ mobj open_output_string() {
 
 mobj close_input_port(mobj port) {
     // (-> input-port? void)
-    fclose(minim_port(port));
-    minim_port_unset(port, PORT_FLAG_OPEN);
+    close_port(port);
     return minim_void;
 }
 
 mobj close_output_port(mobj port) {
     // (-> output-port? void)
-    fclose(minim_port(port));
-    minim_port_unset(port, PORT_FLAG_OPEN);
+    close_port(port);
     return minim_void;
 }
 
 mobj get_output_string(mobj port) {
     // (-> (and output-port? string-port?) string?)
+    FILE *stream;
     mobj str;
     size_t len, read;
     
     // read from file
-    len = ftell(minim_port(port));
+    stream = port_stream("get-output-string", port);
+    len = ftell(stream);
     if (len != 0) {
         str = Mstring2(len, 0);
-        fseek(minim_port(port), 0, SEEK_SET);
-        read = fread(minim_string(str), len, 1, minim_port(port));
+        fseek(stream, 0, SEEK_SET);
+        read = fread(minim_string(str), len, 1, stream);
         if (read != 1) {
             minim_error("get-output-string", "failed to read from");
         }
 
         // reset port, set null-terminator and return
-        rewind(minim_port(port));
+        rewind(stream);
         minim_string(str)[len] = '\0';
         return str;
     } else {
@@ -174,38 +194,40 @@ mobj get_output_string(mobj port) {
 
 mobj read_proc(mobj port) {
     // (-> input-port? any/c)
-    return read_object(minim_port(port));
+    return read_object(port_stream("read", port));
 }
 
 mobj read_char_proc(mobj port) {
     // (-> input-port? char?)
-    mchar ch = getc(minim_port(port));
+    mchar ch = getc(port_stream("read-char", port));
     return (ch == EOF) ? minim_eof : Mchar(ch);
 }
 
 mobj peek_char_proc(mobj port) {
     // (-> input-port? char?)
-    mchar ch = getc(minim_port(port));
-    ungetc(ch, minim_port(port));
+    FILE *stream = port_stream("peek-char", port);
+    mchar ch = getc(stream);
+    ungetc(ch, stream);
     return (ch == EOF) ? minim_eof : Mchar(ch);
 }
 
 mobj char_readyp_proc(mobj port) {
     // (-> input-port? char?)
-    mchar ch = getc(minim_port(port));
-    ungetc(ch, minim_port(port));
+    FILE *stream = port_stream("char-ready?", port);
+    mchar ch = getc(stream);
+    ungetc(ch, stream);
     return (ch == EOF) ? minim_false : minim_true;
 }
 
 mobj put_char_proc(mobj port, mobj ch) {
     // (-> output-port? char? void)
-    putc(minim_char(ch), minim_port(port));
+    putc(minim_char(ch), port_stream("put-char", port));
     return minim_void;
 }
 
 mobj flush_output_proc(mobj port) {
     // (-> output-port? void)
-    fflush(minim_port(port));
+    fflush(port_stream("flush-output-port", port));
     return minim_void;
 }
 
@@ -213,8 +235,9 @@ mobj put_string_proc(mobj port, mobj str, mobj start, mobj len) {
     // (-> output-port? string? integer? integer?)
     long start_idx = minim_fixnum(start);
     long end_idx = start_idx + minim_fixnum(len);
+    FILE *stream = port_stream("put-string", port);
     for (long i = start_idx; i < end_idx; i++) {
-        putc(minim_string_ref(str, i), minim_port(port));
+        putc(minim_string_ref(str, i), stream);
     }
 
     return minim_void;
@@ -222,6 +245,6 @@ mobj put_string_proc(mobj port, mobj str, mobj start, mobj len) {
 
 mobj newline_proc(mobj port) {
     // (-> output-port? void)
-    putc('\n', minim_port(port));
+    putc('\n', port_stream("newline", port));
     return minim_void;
 }
diff --git a/src/core/c/thread.c b/src/core/c/thread.c
index aa9db0e..0e362b0 100644
--- a/src/core/c/thread.c
+++ b/src/core/c/thread.c
@@ -23,6 +23,9 @@ mobj Mthread_context() {
     tc_input_port(tc) = Minput_port(stdin);
     tc_output_port(tc) = Moutput_port(stdout);
     tc_error_port(tc) = Moutput_port(stderr);
+    minim_port_set(tc_input_port(tc), PORT_FLAG_OPEN);
+    minim_port_set(tc_output_port(tc), PORT_FLAG_OPEN);
+    minim_port_set(tc_error_port(tc), PORT_FLAG_OPEN);
     tc_directory(tc) = Mstring(get_current_dir());
     tc_command_line(tc) = minim_null;
     tc_record_equal(tc) = minim_false;
diff --git a/src/core/minim.h b/src/core/minim.h
index 3bd92b9..b915782 100644
--- a/src/core/minim.h
+++ b/src/core/minim.h
@@ -479,6 +479,7 @@ mobj Mbox(mobj x);
 mobj Mclosure(mobj env, mobj code, size_t free_count);
 mobj Minput_port(FILE *stream);
 mobj Moutput_port(FILE *stream);
+FILE *port_stream(const char *who, mobj port);
 mobj Msyntax(mobj e, mobj loc);
 mobj Mrecord(mobj rtd, int fieldc);
 mobj Mhashtable(size_t size_hint);
-- 
2.43.0


From 65ade225effb295472150bcf752ceaadec3362cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 40/92] fix: read at the end of a port returns the eof object

---
 src/core/c/io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/c/io.c b/src/core/c/io.c
index 44c1cb7..4a0624b 100644
--- a/src/core/c/io.c
+++ b/src/core/c/io.c
@@ -194,7 +194,8 @@ mobj get_output_string(mobj port) {
 
 mobj read_proc(mobj port) {
     // (-> input-port? any/c)
-    return read_object(port_stream("read", port));
+    mobj o = read_object(port_stream("read", port));
+    return (o == NULL) ? minim_eof : o;
 }
 
 mobj read_char_proc(mobj port) {
-- 
2.43.0


From 9c05ac92916554e4d4dd01837d2ff023fe7cf861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:46 +0000
Subject: [PATCH 41/92] fix: the reader takes the byte 255 for the end of the
 input

---
 src/core/c/read.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 8b216bd..e3548e5 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -14,13 +14,13 @@ static int is_symbol_char(int c) {
     return !is_delimeter(c);
 }
 
-static void assert_not_eof(char c) {
+static void assert_not_eof(int c) {
     if (c == EOF) {
         minim_error("read_object", "unexpected end of input");
     }
 }
 
-static void assert_delimeter(char c) {
+static void assert_delimeter(int c) {
     if (!is_delimeter(c)) {
         minim_error1("read_object", "expected delimeter", Mchar(c));
     }
@@ -258,7 +258,7 @@ mobj read_object(FILE *in) {
     char buffer[symbol_max_len];
     long num, i, block_level;
     short sign;
-    char c;
+    int c;
 
 loop:
 
-- 
2.43.0


From 9aeb75ed0338ebe1940295d4cd0f6ad74f1a88ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:46 +0000
Subject: [PATCH 42/92] fix: the end of the input within a datum

---
 src/core/c/read.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index e3548e5..de9a0f6 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -186,6 +186,15 @@ static mobj read_char(FILE *in) {
     return Mchar(c);
 }
 
+// Reads a datum that must be present.
+static mobj read_datum(FILE *in) {
+    mobj o = read_object(in);
+    if (o == NULL) {
+        minim_error("read_object", "unexpected end of input");
+    }
+    return o;
+}
+
 static mobj read_pair(FILE *in, char open_paren) {
     mobj car, cdr;
     int c;
@@ -201,7 +210,7 @@ static mobj read_pair(FILE *in, char open_paren) {
     }
 
     ungetc(c, in);
-    car = read_object(in);
+    car = read_datum(in);
 
     skip_whitespace(in);
     c = fgetc(in);
@@ -210,7 +219,7 @@ static mobj read_pair(FILE *in, char open_paren) {
     if (is_cons_dot(in, c)) {
         // improper list
         peek_expected_delimeter(in);
-        cdr = read_object(in);
+        cdr = read_datum(in);
 
         skip_whitespace(in);
         c = getc(in);
@@ -239,12 +248,13 @@ static mobj read_vector(FILE *in) {
     while (1) {
         skip_whitespace(in);
         c = peek_char(in);
+        assert_not_eof(c);
         if (c == ')') {
             read_char(in);
             break;
         }
 
-        l = Mcons(read_object(in), l);
+        l = Mcons(read_datum(in), l);
     }
 
     if (minim_nullp(l)) {
@@ -288,13 +298,13 @@ loop:
             return read_char(in);
         case '\'':
             // quote
-            return Mcons(intern("quote-syntax"), Mcons(read_object(in), minim_null));
+            return Mcons(intern("quote-syntax"), Mcons(read_datum(in), minim_null));
         case '(':
             // vector
             return read_vector(in);
         case '&':
             // vector
-            return Mbox(read_object(in));
+            return Mbox(read_datum(in));
         case 'x':
             // hex number
             c = getc(in);
@@ -304,7 +314,7 @@ loop:
             skip_whitespace(in);
             c = peek_char(in);
             assert_not_eof(c);
-            read_object(in);        // throw away
+            read_datum(in);         // throw away
             goto loop;
         case '|':
             // block comment
@@ -433,7 +443,7 @@ read_hex:
         return read_pair(in, c);
     } else if (c == '\'') {
         // quoted expression
-        return Mcons(intern("quote"), Mcons(read_object(in), minim_null));
+        return Mcons(intern("quote"), Mcons(read_datum(in), minim_null));
     } else if (is_symbol_char(c) || ((c == '+' || c == '-') && is_delimeter(peek_char(in)))) {
         // symbol
         i = 0;
-- 
2.43.0


From 0afcb676d570be8c054c50c8ba66f10e8ec87abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:46 +0000
Subject: [PATCH 43/92] fix: tokens of the reader's maximal length

---
 src/core/c/read.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index de9a0f6..cd3bfd5 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -360,6 +360,10 @@ loop:
 
         // magnitude
         while (isdigit(c = getc(in))) {
+            if (i >= symbol_max_len - 1) {
+                minim_error("read_object", "number exceeded max length");
+            }
+
             buffer[i++] = c;
             num = (num * 10) + (c - '0');
         }
@@ -392,6 +396,10 @@ read_hex:
 
         // magnitude
         while (isxdigit(c = getc(in))) {
+            if (i >= symbol_max_len - 1) {
+                minim_error("read_object", "number exceeded max length");
+            }
+
             buffer[i++] = c;
             if ('A' <= c && c <= 'F')       num = (num * 16) + (10 + (c - 'A'));
             else if ('a' <= c && c <= 'f')  num = (num * 16) + (10 + (c - 'a'));
@@ -429,7 +437,7 @@ read_hex:
                 }
             }
 
-            if (i >= symbol_max_len) {
+            if (i >= symbol_max_len - 1) {
                 minim_error("read_object", "string exceeded max length");
             }
 
@@ -451,7 +459,7 @@ read_hex:
 read_symbol:
 
         while (is_symbol_char(c)) {
-            if (i >= symbol_max_len) {
+            if (i >= symbol_max_len - 1) {
                 minim_error("read_object", "symbol exceeded max length");
             }
 
-- 
2.43.0


From 85e20865afb4eef9f71e079aa688d335e58d2f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:30 +0000
Subject: [PATCH 44/92] fix: tokens that start like a number but are a symbol

---
 src/core/c/read.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index cd3bfd5..44ee5cf 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -350,12 +350,11 @@ loop:
         i = 0;
 
         // optional sign
-        if (c == '-') {
-            sign = -1;
+        if (c == '-' || c == '+') {
+            if (c == '-') sign = -1;
             buffer[i++] = c;
-        } else if (c != '+') {
+        } else {
             ungetc(c, in);
-            buffer[i++] = c;
         }
 
         // magnitude
@@ -386,12 +385,11 @@ read_hex:
         i = 0;
 
         // optional sign
-        if (c == '-') {
-            sign = -1;
+        if (c == '-' || c == '+') {
+            if (c == '-') sign = -1;
             buffer[i++] = c;
-        } else if (c != '+') {
+        } else {
             ungetc(c, in);
-            buffer[i++] = c;
         }
 
         // magnitude
-- 
2.43.0


From 4530c21c8859676dde0a3525ba926167ca400f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:30 +0000
Subject: [PATCH 45/92] fix: numbers that are not fixnums are rejected by the
 reader

---
 src/core/c/read.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 44ee5cf..c0a0004 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -1,6 +1,7 @@
 // read.c: reader
 
 #include "../minim.h"
+#include <errno.h>
 
 static int is_delimeter(int c) {
     return isspace(c) || c == EOF || 
@@ -240,6 +241,18 @@ static mobj read_pair(FILE *in, char open_paren) {
     }
 }
 
+static mobj digits_to_fixnum(const char *digits, int base) {
+    long num;
+
+    errno = 0;
+    num = strtol(digits, NULL, base);
+    if (errno == ERANGE) {
+        minim_error1("read_object", "number out of range", Mstring(digits));
+    }
+
+    return Mfixnum(num);
+}
+
 static mobj read_vector(FILE *in) {
     mobj l;
     int c;
@@ -266,8 +279,7 @@ static mobj read_vector(FILE *in) {
 
 mobj read_object(FILE *in) {
     char buffer[symbol_max_len];
-    long num, i, block_level;
-    short sign;
+    long i, block_level;
     int c;
 
 loop:
@@ -345,13 +357,10 @@ loop:
     } else if (isdigit(c) || ((c == '-' || c == '+') && isdigit(peek_char(in)))) {
         // decimal number (possibly)
         // if we encounter a non-digit, the token is a symbol
-        num = 0;
-        sign = 1;
         i = 0;
 
         // optional sign
         if (c == '-' || c == '+') {
-            if (c == '-') sign = -1;
             buffer[i++] = c;
         } else {
             ungetc(c, in);
@@ -364,7 +373,6 @@ loop:
             }
 
             buffer[i++] = c;
-            num = (num * 10) + (c - '0');
         }
 
         if (is_symbol_char(c)) {
@@ -375,18 +383,16 @@ loop:
         assert_delimeter(c);
         ungetc(c, in);
     
-        return Mfixnum(num * sign);
+        buffer[i] = '\0';
+        return digits_to_fixnum(buffer, 10);
     } else if (0) {
         // hexadecimal number
         // same caveat applies: if we encounter a non-digit, the token is a symbol
 read_hex:
-        num = 0;
-        sign = 1;
         i = 0;
 
         // optional sign
         if (c == '-' || c == '+') {
-            if (c == '-') sign = -1;
             buffer[i++] = c;
         } else {
             ungetc(c, in);
@@ -399,9 +405,6 @@ read_hex:
             }
 
             buffer[i++] = c;
-            if ('A' <= c && c <= 'F')       num = (num * 16) + (10 + (c - 'A'));
-            else if ('a' <= c && c <= 'f')  num = (num * 16) + (10 + (c - 'a'));
-            else                            num = (num * 16) + (c - '0');
         }
 
         if (is_symbol_char(c)) {
@@ -412,7 +415,8 @@ read_hex:
         assert_delimeter(c);
         ungetc(c, in);
 
-        return Mfixnum(num * sign);
+        buffer[i] = '\0';
+        return digits_to_fixnum(buffer, 16);
     } else if (c == '"') {
         // string
         i = 0;
-- 
2.43.0


From 21dc1f85fbc94f4f987e29369276bace7703a6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:30 +0000
Subject: [PATCH 46/92] fix: the reader accepts every escape that the writer
 prints

---
 src/core/c/read.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index c0a0004..2f98eec 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -428,6 +428,16 @@ read_hex:
                     c = '\n';
                 } else if (c == 't') {
                     c = '\t';
+                } else if (c == 'a') {
+                    c = '\a';
+                } else if (c == 'b') {
+                    c = '\b';
+                } else if (c == 'f') {
+                    c = '\f';
+                } else if (c == 'r') {
+                    c = '\r';
+                } else if (c == 'v') {
+                    c = '\v';
                 } else if (c == '\\') {
                     c = '\\';
                 } else if (c == '\'') {
-- 
2.43.0


From 8c3b2a1a101ec8e8a162f03046f17cc327ded46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:30 +0000
Subject: [PATCH 47/92] fix: write_object escapes strings like write

---
 src/core/c/print.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/core/c/print.c b/src/core/c/print.c
index 968f663..636df47 100644
--- a/src/core/c/print.c
+++ b/src/core/c/print.c
@@ -20,6 +20,25 @@ static void write_char(FILE *out, mobj o) {
     else fputc(c, out);
 }
 
+static void write_string(FILE *out, mobj o) {
+    fputc('"', out);
+    for (const char *s = minim_string(o); *s; s++) {
+        switch (*s) {
+        case '\a': fputs("\\a", out); break;
+        case '\b': fputs("\\b", out); break;
+        case '\n': fputs("\\n", out); break;
+        case '\f': fputs("\\f", out); break;
+        case '\r': fputs("\\r", out); break;
+        case '\t': fputs("\\t", out); break;
+        case '\v': fputs("\\v", out); break;
+        case '"': fputs("\\\"", out); break;
+        case '\\': fputs("\\\\", out); break;
+        default: fputc(*s, out);
+        }
+    }
+    fputc('"', out);
+}
+
 static void write_pair(FILE *out, mobj o) {
     fputc('(', out);
 loop:
@@ -85,7 +104,7 @@ void write_object(FILE *out, mobj o) {
     else if (minim_charp(o)) write_char(out, o);
     else if (minim_fixnump(o)) fprintf(out, "%ld", minim_fixnum(o));
     else if (minim_symbolp(o)) fprintf(out, "%s", minim_symbol(o));
-    else if (minim_stringp(o)) fprintf(out, "\"%s\"", minim_string(o));
+    else if (minim_stringp(o)) write_string(out, o);
     else if (minim_consp(o)) write_pair(out, o);
     else if (minim_vectorp(o)) write_vector(out, o);
     else if (minim_boxp(o)) write_box(out, o);
-- 
2.43.0


From dd3a3585df445bd5199b7ba80169afff72743ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:30 +0000
Subject: [PATCH 48/92] fix: interning a symbol when the table is resized

---
 src/core/c/symbol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/symbol.c b/src/core/c/symbol.c
index 589a607..f7afd8d 100644
--- a/src/core/c/symbol.c
+++ b/src/core/c/symbol.c
@@ -173,7 +173,7 @@ mobj intern_symbol(intern_table *itab, const char *sym) {
 
     // update table
     resize_if_needed(itab);
-    intern_table_insert(itab, idx, obj);
+    intern_table_insert(itab, h % itab->alloc, obj);
     return obj;
 }
 
-- 
2.43.0


From 3451d8ede031570e1b725db801f7c580797e56e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 49/92] fix: the delimiters of block comments after # or |

---
 src/core/c/read.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 2f98eec..bff07b6 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -340,12 +340,14 @@ loop:
                     c = fgetc(in);
                     assert_not_eof(c);
                     if (c == '|') ++block_level;
+                    else ungetc(c, in);
                     break;
                 
                 case '|':
                     c = fgetc(in);
                     assert_not_eof(c);
                     if (c == '#') --block_level;
+                    else ungetc(c, in);
                     break;
                 }
             }
-- 
2.43.0


From d1c98f5cd12c808e1974a989f8e02cefcf1ae2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:33 +0000
Subject: [PATCH 50/92] fix: reading truncated or malformed FASL data

---
 src/core/c/fasl.c | 143 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 108 insertions(+), 35 deletions(-)

diff --git a/src/core/c/fasl.c b/src/core/c/fasl.c
index b2c4a88..b42bedc 100644
--- a/src/core/c/fasl.c
+++ b/src/core/c/fasl.c
@@ -72,8 +72,19 @@
 //  Reading FASL
 //
 
-#define read_fasl_type(ip)       ((mbyte) fgetc(ip))
-#define read_fasl_byte(ip)       ((mbyte) fgetc(ip))
+#define read_fasl_type(ip)       read_fasl_byte(ip)
+
+static void fasl_malformed() {
+    fprintf(stderr, "read_fasl: malformed FASL data\n");
+    exit(1);
+}
+
+static mbyte read_fasl_byte(FILE *in) {
+    int c = fgetc(in);
+    if (c == EOF)
+        fasl_malformed();
+    return c;
+}
 
 // Unserializes a word that is encoded using a variable-length
 // block encoding 7-bits of the word per byte
@@ -83,6 +94,10 @@ static muptr read_fasl_uptr(FILE *in) {
     int offset = 0;
 
     do {
+        // at most 10 blocks encode a word
+        if (offset >= 70)
+            fasl_malformed();
+
         // read and decompose the block
         b = read_fasl_byte(in);
         c = b & 0x1;
@@ -97,30 +112,45 @@ static muptr read_fasl_uptr(FILE *in) {
 }
 
 
-static mobj read_fasl_symbol(FILE *in) {
-    char *str;
-    long len, i;
-    
+// Reads the length and characters of a string.
+// The buffer grows as characters are read since
+// malformed data may claim any length.
+static char *read_fasl_chars(FILE *in) {
+    char *str, *str2;
+    muptr len, cap, i;
+
     len = read_fasl_uptr(in);
-    str = GC_alloc_atomic((len + 1) * sizeof(char));
-    for (i = 0; i < len; ++i)
+    cap = (len < 1024) ? len : 1024;
+    str = GC_alloc_atomic((cap + 1) * sizeof(char));
+    for (i = 0; i < len; ++i) {
+        if (i == cap) {
+            cap = (len < 2 * cap) ? len : 2 * cap;
+            str2 = GC_alloc_atomic((cap + 1) * sizeof(char));
+            memcpy(str2, str, i);
+            str = str2;
+        }
+
         str[i] = read_fasl_byte(in);
+    }
+
     str[len] = '\0';
+    return str;
+}
 
-    return intern(str);
+static mobj read_fasl_symbol(FILE *in) {
+    return intern(read_fasl_chars(in));
 }
 
 static mobj read_fasl_string(FILE *in) {
-    char *str;
-    long len, i;
-    
-    len = read_fasl_uptr(in);
-    str = GC_alloc_atomic((len + 1) * sizeof(char));
-    for (i = 0; i < len; ++i)
-        str[i] = read_fasl_byte(in);
-    str[len] = '\0';
+    return Mstring(read_fasl_chars(in));
+}
 
-    return Mstring(str);
+// Reads `len` objects into a list.
+static mobj read_fasl_objects(FILE *in, muptr len) {
+    mobj l = minim_null;
+    for (muptr i = 0; i < len; ++i)
+        l = Mcons(read_fasl(in), l);
+    return list_reverse(l);
 }
 
 static mobj read_fasl_fixnum(FILE *in) {
@@ -133,11 +163,13 @@ static mobj read_fasl_char(FILE *in) {
 
 static mobj read_fasl_pair(FILE *in) {
     mobj head, it;
-    long i, len;
+    muptr i, len;
 
     // improper list has at least one element
     // set the head and hold on to it
     len = read_fasl_uptr(in);
+    if (len == 0)
+        fasl_malformed();
     head = Mcons(read_fasl(in), minim_null);
     it = head;
 
@@ -154,26 +186,70 @@ static mobj read_fasl_pair(FILE *in) {
 }
 
 static mobj read_fasl_vector(FILE *in) {
-    mobj vec;
-    long i, len;
+    mobj l = read_fasl_objects(in, read_fasl_uptr(in));
+    return minim_nullp(l) ? minim_empty_vec : list_to_vector(l);
+}
 
-    len = read_fasl_uptr(in);
-    vec = Mvector(len, NULL);
-    for (i = 0; i < len; ++i)
-        minim_vector_ref(vec, i) = read_fasl(in);
+// Returns 1 if the elements of a record are those of a record type descriptor
+static int is_fasl_rtd(mobj l) {
+    mobj field;
+
+    if (list_length(l) < record_rtd_min_size ||
+        !minim_symbolp(minim_car(l)) ||
+        (!minim_falsep(minim_cadr(l)) &&
+         (minim_base_rtdp(minim_cadr(l)) || !record_rtdp(minim_cadr(l)))))
+        return 0;
+
+    for (int i = 0; i < record_rtd_min_size; ++i)
+        l = minim_cdr(l);
+
+    for (; !minim_nullp(l); l = minim_cdr(l)) {
+        field = minim_car(l);
+        if (!minim_consp(field) ||
+            !minim_consp(minim_cdr(field)) ||
+            !minim_symbolp(minim_cadr(field)))
+            return 0;
+    }
+
+    return 1;
+}
 
-    return vec;
+// Returns the number of fields in a value of a record type
+static muptr rtd_size(mobj rtd) {
+    muptr size = 0;
+    for (; !minim_falsep(rtd); rtd = record_rtd_parent(rtd))
+        size += record_rtd_fieldc(rtd);
+    return size;
 }
 
 static mobj read_fasl_record(FILE *in) {
-    mobj rec, rtd;
-    long len, i;
+    fasl_type type;
+    mobj rec, rtd, l;
+    muptr len, i;
 
     len = read_fasl_uptr(in);
-    rtd = read_fasl(in);
+    type = read_fasl_type(in);
+    if (type == FASL_BASE_RTD) {
+        // only valid as the descriptor of a record type descriptor
+        rtd = minim_base_rtd;
+    } else {
+        ungetc(type, in);
+        rtd = read_fasl(in);
+    }
+
+    if (!minim_base_rtdp(rtd) &&
+        (!record_rtdp(rtd) || rtd_size(rtd) != len))
+        fasl_malformed();
+
+    l = read_fasl_objects(in, len);
+    if (minim_base_rtdp(rtd) && !is_fasl_rtd(l))
+        fasl_malformed();
+
     rec = Mrecord(rtd, len);
-    for (i = 0; i < len; i++)
-        minim_record_ref(rec, i) = read_fasl(in);
+    for (i = 0; i < len; i++) {
+        minim_record_ref(rec, i) = minim_car(l);
+        l = minim_cdr(l);
+    }
 
     return rec;
 }
@@ -208,14 +284,11 @@ mobj read_fasl(FILE *in) {
         return minim_empty_vec;
     case FASL_VECTOR:
         return read_fasl_vector(in);
-    case FASL_BASE_RTD:
-        return minim_base_rtd;
     case FASL_RECORD:
         return read_fasl_record(in);
     
     default:
-        fprintf(stderr, "read_fasl: malformed FASL data\n");
-        exit(1);
+        fasl_malformed();
         break;
     }
 }
-- 
2.43.0


From 2cd55a8ff44e124cb8884a8a1311eb5bfad56a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:07 +0000
Subject: [PATCH 51/92] fix: comments before the end of a list or vector

---
 src/core/c/read.c | 80 ++++++++++++++++++++++++++---------------------
 1 file changed, 44 insertions(+), 36 deletions(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index bff07b6..9644f30 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -45,6 +45,8 @@ static void peek_expected_delimeter(FILE *in) {
     assert_delimeter(c);
 }
 
+static mobj read_datum(FILE *in);
+
 static int is_cons_dot(FILE *in, int c) {
     if (c != '.')
         return 0;
@@ -54,8 +56,35 @@ static int is_cons_dot(FILE *in, int c) {
     return isspace(c);
 }
 
+// Skips a block comment after the initial `#|`.
+static void skip_block_comment(FILE *in) {
+    int c, block_level = 1;
+
+    while (block_level > 0) {
+        c = fgetc(in);
+        assert_not_eof(c);
+        switch (c)
+        {
+        case '#':
+            c = fgetc(in);
+            assert_not_eof(c);
+            if (c == '|') ++block_level;
+            else ungetc(c, in);
+            break;
+        
+        case '|':
+            c = fgetc(in);
+            assert_not_eof(c);
+            if (c == '#') --block_level;
+            else ungetc(c, in);
+            break;
+        }
+    }
+}
+
+// Skips whitespace and comments.
 static void skip_whitespace(FILE *in) {
-    int c;
+    int c, nc;
 
     while ((c = getc(in)) != EOF) {
         if (isspace(c))
@@ -65,6 +94,19 @@ static void skip_whitespace(FILE *in) {
             while (((c = getc(in)) != EOF) && (c != '\n'));
             ungetc(c, in);
             continue;
+        } else if (c == '#') {
+            nc = peek_char(in);
+            if (nc == '|') {
+                // block comment
+                getc(in);
+                skip_block_comment(in);
+                continue;
+            } else if (nc == ';') {
+                // datum comment: read and throw away
+                getc(in);
+                read_datum(in);
+                continue;
+            }
         }
         
         // too far
@@ -279,11 +321,9 @@ static mobj read_vector(FILE *in) {
 
 mobj read_object(FILE *in) {
     char buffer[symbol_max_len];
-    long i, block_level;
+    long i;
     int c;
 
-loop:
-
     skip_whitespace(in);
     c = getc(in);
     // no assertion: may actually be at end
@@ -321,38 +361,6 @@ loop:
             // hex number
             c = getc(in);
             goto read_hex;
-        case ';':
-            // datum comment
-            skip_whitespace(in);
-            c = peek_char(in);
-            assert_not_eof(c);
-            read_datum(in);         // throw away
-            goto loop;
-        case '|':
-            // block comment
-            block_level = 1;
-            while (block_level > 0) {
-                c = fgetc(in);
-                assert_not_eof(c);
-                switch (c)
-                {
-                case '#':
-                    c = fgetc(in);
-                    assert_not_eof(c);
-                    if (c == '|') ++block_level;
-                    else ungetc(c, in);
-                    break;
-                
-                case '|':
-                    c = fgetc(in);
-                    assert_not_eof(c);
-                    if (c == '#') --block_level;
-                    else ungetc(c, in);
-                    break;
-                }
-            }
-
-            goto loop;
         default:
             minim_error1("read_object", "unknown special datum", Mchar(c));   
         }
-- 
2.43.0


From 839d9c7d63fd745dd6c1af077132f54b50dc0762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:08 +0000
Subject: [PATCH 52/92] fix: a vector may be followed by any datum

---
 src/core/c/read.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/read.c b/src/core/c/read.c
index 9644f30..19188a4 100644
--- a/src/core/c/read.c
+++ b/src/core/c/read.c
@@ -305,7 +305,7 @@ static mobj read_vector(FILE *in) {
         c = peek_char(in);
         assert_not_eof(c);
         if (c == ')') {
-            read_char(in);
+            getc(in);
             break;
         }
 
-- 
2.43.0


From 601c465564676027adc326ca92f1ec2980d6b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:02 +0000
Subject: [PATCH 53/92] fix: the end of the input within a datum, for the
 library's reader

---
 src/boot/s/boot.min  |  2 +-
 src/library/read.min | 20 ++++++++++++++------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 08c26a0..de65348 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -136,4 +136,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (car envs) #f) (copy-environment (cdr envs)) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (eq? c #\newline))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9)) ((i) (char->integer c))) (<= 0-char i 9-char)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (char->integer c))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-loop)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-loop)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-loop)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (eq? c #\newline))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9))) (if (char? c) (<= 0-char (char->integer c) 9-char) #f)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (if (char? c) (char->integer c) -1))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/read.min b/src/library/read.min
index 06fce4e..924a755 100644
--- a/src/library/read.min
+++ b/src/library/read.min
@@ -41,11 +41,11 @@
      (define (digit? c)
        (define 0-char (char->integer #\0))
        (define 9-char (char->integer #\9))
-       (define i (char->integer c))
-       (<= 0-char i 9-char))
+       (and (char? c)
+            (<= 0-char (char->integer c) 9-char)))
  
      (define (hex-digit? c)
-       (define i (char->integer c))
+       (define i (if (char? c) (char->integer c) -1))
        (or (<= (char->integer #\0) i (char->integer #\9))
            (<= (char->integer #\a) i (char->integer #\f))
            (<= (char->integer #\A) i (char->integer #\F))))
@@ -91,6 +91,7 @@
            [(= block-level 0) (void)]
            [else
             (define c (read-char p))
+            (assert-not-eof! c)
             (cond
               [(eq? c #\#)
                (define c (peek-char p))
@@ -142,6 +143,12 @@
            [else
             (void)])))
  
+     ; reads a datum that must be present
+     (define (read-datum)
+       (define datum (read-loop))
+       (assert-not-eof! datum)
+       datum)
+ 
      ; pair reader
      (define (read-pair open)
        (skip-until-token!)
@@ -192,6 +199,7 @@
        (let loop ([elems '()])
          (skip-until-token!)
          (define c (peek-char p))
+         (assert-not-eof! c)
          (cond
            [(eq? c cparen)
             (read-char p)
@@ -374,7 +382,7 @@
             [(eq? c #\')
              ; quoted syntax
              (read-char p)
-             (datum->syntax (list 'syntax (read-loop)))]
+             (datum->syntax (list 'syntax (read-datum)))]
             [(eq? c oparen)
              ; vector
              (read-char p)
@@ -382,7 +390,7 @@
             [(eq? c #\&)
              ; box
              (read-char p)
-             (datum->syntax (box (read-loop)))]
+             (datum->syntax (box (read-datum)))]
             [(eq? c #\x)
              ; hex number
              (read-char p)
@@ -433,7 +441,7 @@
          [(eq? c #\')
           ; quoted form
           (read-char p)
-          (datum->syntax (list 'quote (read-loop)))]
+          (datum->syntax (list 'quote (read-datum)))]
          [(symbol-char? c)
           ; symbol
           (datum->syntax (read-symbol '()))]
-- 
2.43.0


From e167a9fdd69a1e30fdac60c4ea9794c0acb6cf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:27 +0000
Subject: [PATCH 54/92] fix: tabs and other whitespace in the library's reader

---
 src/boot/s/boot.min  | 2 +-
 src/library/read.min | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index de65348..6719b8d 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -136,4 +136,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (car envs) #f) (copy-environment (cdr envs)) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (eq? c #\newline))))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9))) (if (char? c) (<= 0-char (char->integer c) 9-char) #f)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (if (char? c) (char->integer c) -1))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9))) (if (char? c) (<= 0-char (char->integer c) 9-char) #f)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (if (char? c) (char->integer c) -1))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/read.min b/src/library/read.min
index 924a755..f5e6f4b 100644
--- a/src/library/read.min
+++ b/src/library/read.min
@@ -26,8 +26,9 @@
      (define cbrace (integer->char 125))
  
      (define (space? c)
-       (or (eq? c #\space)
-           (eq? c #\newline)))
+       (and (char? c)
+            (or (eq? c #\space)
+                (<= 9 (char->integer c) 13)))) ; tab, newline, vtab, page, return
  
      (define (delimeter? c)
        (or (eof-object? c) (space? c)
-- 
2.43.0


From 4c7e284a86b7ba2e5839b0da763005b59f3fac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:57 +0000
Subject: [PATCH 55/92] fix: named characters in the library's reader

---
 src/boot/s/boot.min  |  2 +-
 src/library/read.min | 40 +++++++++++++++++++++++-----------------
 2 files changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 6719b8d..309d942 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -136,4 +136,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (car envs) #f) (copy-environment (cdr envs)) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9))) (if (char? c) (<= 0-char (char->integer c) 9-char) #f)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (if (char? c) (char->integer c) -1))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values)))) (if (eq? c #\s) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\p) (let-values () (check-expected-string! "pace") #\space) (let-values () (assert-delimeter! (peek-char p)) c)))) (if (eq? c #\n) (let-values () (letrec-values (((cn) (peek-char p))) (if (eq? cn #\e) (let-values () (check-expected-string! "ewline") #\newline) (let-values () (assert-delimeter! (peek-char p)) c)))) (let-values () (assert-delimeter! (peek-char p)) c)))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9))) (if (char? c) (<= 0-char (char->integer c) 9-char) #f)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (if (char? c) (char->integer c) -1))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((read-named) (lambda (first rest char) (if (eq? (peek-char p) first) (let-values () (check-expected-string! rest) (assert-delimeter! (peek-char p)) char) (let-values () (assert-delimeter! (peek-char p)) c))))) (if (eq? c #\a) (read-named #\l "larm" (integer->char 7)) (if (eq? c #\b) (read-named #\a "ackspace" (integer->char 8)) (if (eq? c #\d) (read-named #\e "elete" (integer->char 127)) (if (eq? c #\e) (read-named #\s "sc" (integer->char 27)) (if (eq? c #\l) (read-named #\i "inefeed" #\newline) (if (eq? c #\n) (if (eq? (peek-char p) #\u) (read-named #\u "ul" (integer->char 0)) (read-named #\e "ewline" #\newline)) (if (eq? c #\p) (read-named #\a "age" (integer->char 12)) (if (eq? c #\r) (read-named #\e "eturn" (integer->char 13)) (if (eq? c #\s) (read-named #\p "pace" #\space) (if (eq? c #\t) (read-named #\a "ab" (integer->char 9)) (if (eq? c #\v) (read-named #\t "tab" (integer->char 11)) (let-values () (assert-delimeter! (peek-char p)) c))))))))))))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/read.min b/src/library/read.min
index f5e6f4b..54db4a5 100644
--- a/src/library/read.min
+++ b/src/library/read.min
@@ -216,25 +216,31 @@
            (void))
    
        ; check for special values
+       (define (read-named first rest char)
+         (cond
+           [(eq? (peek-char p) first)
+            (check-expected-string! rest)
+            (assert-delimeter! (peek-char p))
+            char]
+           [else
+            (assert-delimeter! (peek-char p))
+            c]))
+ 
        (cond
-         [(eq? c #\s)
-          (define cn (peek-char p))
-          (cond
-            [(eq? cn #\p)
-             (check-expected-string! "pace")
-             #\space]
-            [else
-             (assert-delimeter! (peek-char p))
-             c])]
+         [(eq? c #\a) (read-named #\l "larm" (integer->char 7))]
+         [(eq? c #\b) (read-named #\a "ackspace" (integer->char 8))]
+         [(eq? c #\d) (read-named #\e "elete" (integer->char 127))]
+         [(eq? c #\e) (read-named #\s "sc" (integer->char 27))]
+         [(eq? c #\l) (read-named #\i "inefeed" #\newline)]
          [(eq? c #\n)
-          (define cn (peek-char p))
-          (cond
-            [(eq? cn #\e)
-             (check-expected-string! "ewline")
-             #\newline]
-            [else
-             (assert-delimeter! (peek-char p))
-             c])]
+          (if (eq? (peek-char p) #\u)
+              (read-named #\u "ul" (integer->char 0))
+              (read-named #\e "ewline" #\newline))]
+         [(eq? c #\p) (read-named #\a "age" (integer->char 12))]
+         [(eq? c #\r) (read-named #\e "eturn" (integer->char 13))]
+         [(eq? c #\s) (read-named #\p "pace" #\space)]
+         [(eq? c #\t) (read-named #\a "ab" (integer->char 9))]
+         [(eq? c #\v) (read-named #\t "tab" (integer->char 11))]
          [else
           (assert-delimeter! (peek-char p))
           c]))
-- 
2.43.0


From 7284fd14d80ab4beb8bd37df972f8e65d330ed30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:23 +0000
Subject: [PATCH 56/92] fix: escapes in strings, for the library's reader

---
 src/boot/s/boot.min  |  2 +-
 src/library/read.min | 21 +++++++++++++++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 309d942..344e8c3 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -136,4 +136,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (car envs) #f) (copy-environment (cdr envs)) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9))) (if (char? c) (<= 0-char (char->integer c) 9-char) #f)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (if (char? c) (char->integer c) -1))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((read-named) (lambda (first rest char) (if (eq? (peek-char p) first) (let-values () (check-expected-string! rest) (assert-delimeter! (peek-char p)) char) (let-values () (assert-delimeter! (peek-char p)) c))))) (if (eq? c #\a) (read-named #\l "larm" (integer->char 7)) (if (eq? c #\b) (read-named #\a "ackspace" (integer->char 8)) (if (eq? c #\d) (read-named #\e "elete" (integer->char 127)) (if (eq? c #\e) (read-named #\s "sc" (integer->char 27)) (if (eq? c #\l) (read-named #\i "inefeed" #\newline) (if (eq? c #\n) (if (eq? (peek-char p) #\u) (read-named #\u "ul" (integer->char 0)) (read-named #\e "ewline" #\newline)) (if (eq? c #\p) (read-named #\a "age" (integer->char 12)) (if (eq? c #\r) (read-named #\e "eturn" (integer->char 13)) (if (eq? c #\s) (read-named #\p "pace" #\space) (if (eq? c #\t) (read-named #\a "ab" (integer->char 9)) (if (eq? c #\v) (read-named #\t "tab" (integer->char 11)) (let-values () (assert-delimeter! (peek-char p)) c))))))))))))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c)))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9))) (if (char? c) (<= 0-char (char->integer c) 9-char) #f)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (if (char? c) (char->integer c) -1))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((read-named) (lambda (first rest char) (if (eq? (peek-char p) first) (let-values () (check-expected-string! rest) (assert-delimeter! (peek-char p)) char) (let-values () (assert-delimeter! (peek-char p)) c))))) (if (eq? c #\a) (read-named #\l "larm" (integer->char 7)) (if (eq? c #\b) (read-named #\a "ackspace" (integer->char 8)) (if (eq? c #\d) (read-named #\e "elete" (integer->char 127)) (if (eq? c #\e) (read-named #\s "sc" (integer->char 27)) (if (eq? c #\l) (read-named #\i "inefeed" #\newline) (if (eq? c #\n) (if (eq? (peek-char p) #\u) (read-named #\u "ul" (integer->char 0)) (read-named #\e "ewline" #\newline)) (if (eq? c #\p) (read-named #\a "age" (integer->char 12)) (if (eq? c #\r) (read-named #\e "eturn" (integer->char 13)) (if (eq? c #\s) (read-named #\p "pace" #\space) (if (eq? c #\t) (read-named #\a "ab" (integer->char 9)) (if (eq? c #\v) (read-named #\t "tab" (integer->char 11)) (let-values () (assert-delimeter! (peek-char p)) c))))))))))))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\a) (let-values () (read-char p) (loop (cons (integer->char 7) acc))) (if (eq? c #\b) (let-values () (read-char p) (loop (cons (integer->char 8) acc))) (if (eq? c #\t) (let-values () (read-char p) (loop (cons (integer->char 9) acc))) (if (eq? c #\v) (let-values () (read-char p) (loop (cons (integer->char 11) acc))) (if (eq? c #\f) (let-values () (read-char p) (loop (cons (integer->char 12) acc))) (if (eq? c #\r) (let-values () (read-char p) (loop (cons (integer->char 13) acc))) (if (eq? c #\') (let-values () (read-char p) (loop (cons #\' acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c))))))))))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/read.min b/src/library/read.min
index 54db4a5..5c543ec 100644
--- a/src/library/read.min
+++ b/src/library/read.min
@@ -333,6 +333,27 @@
               [(eq? c #\n)
                (read-char p)
                (loop (cons #\newline acc))]
+              [(eq? c #\a)
+               (read-char p)
+               (loop (cons (integer->char 7) acc))]
+              [(eq? c #\b)
+               (read-char p)
+               (loop (cons (integer->char 8) acc))]
+              [(eq? c #\t)
+               (read-char p)
+               (loop (cons (integer->char 9) acc))]
+              [(eq? c #\v)
+               (read-char p)
+               (loop (cons (integer->char 11) acc))]
+              [(eq? c #\f)
+               (read-char p)
+               (loop (cons (integer->char 12) acc))]
+              [(eq? c #\r)
+               (read-char p)
+               (loop (cons (integer->char 13) acc))]
+              [(eq? c #\')
+               (read-char p)
+               (loop (cons #\' acc))]
               [(eq? c #\\)
                (read-char p)
                (loop (cons #\\ acc))]
-- 
2.43.0


From bdf2393ebb7e30a538e2db0dbf8af28594dd7332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:51 +0000
Subject: [PATCH 57/92] fix: signed symbols and large numbers in the library's
 reader

---
 src/boot/s/boot.min  |  2 +-
 src/library/read.min | 30 +++++++++++++++---------------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 344e8c3..d257370 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -136,4 +136,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (car envs) #f) (copy-environment (cdr envs)) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9))) (if (char? c) (<= 0-char (char->integer c) 9-char) #f)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (if (char? c) (char->integer c) -1))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((read-named) (lambda (first rest char) (if (eq? (peek-char p) first) (let-values () (check-expected-string! rest) (assert-delimeter! (peek-char p)) char) (let-values () (assert-delimeter! (peek-char p)) c))))) (if (eq? c #\a) (read-named #\l "larm" (integer->char 7)) (if (eq? c #\b) (read-named #\a "ackspace" (integer->char 8)) (if (eq? c #\d) (read-named #\e "elete" (integer->char 127)) (if (eq? c #\e) (read-named #\s "sc" (integer->char 27)) (if (eq? c #\l) (read-named #\i "inefeed" #\newline) (if (eq? c #\n) (if (eq? (peek-char p) #\u) (read-named #\u "ul" (integer->char 0)) (read-named #\e "ewline" #\newline)) (if (eq? c #\p) (read-named #\a "age" (integer->char 12)) (if (eq? c #\r) (read-named #\e "eturn" (integer->char 13)) (if (eq? c #\s) (read-named #\p "pace" #\space) (if (eq? c #\t) (read-named #\a "ab" (integer->char 9)) (if (eq? c #\v) (read-named #\t "tab" (integer->char 11)) (let-values () (assert-delimeter! (peek-char p)) c))))))))))))))) ((read-number) (lambda () (letrec-values (((0-char) (char->integer #\0)) ((chars) (quote ())) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (digit? c) (let-values () (read-char p) (set! num (+ (* 10 num) (- (char->integer c) 0-char))) (read-digit!)) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) num))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\a) (let-values () (read-char p) (loop (cons (integer->char 7) acc))) (if (eq? c #\b) (let-values () (read-char p) (loop (cons (integer->char 8) acc))) (if (eq? c #\t) (let-values () (read-char p) (loop (cons (integer->char 9) acc))) (if (eq? c #\v) (let-values () (read-char p) (loop (cons (integer->char 11) acc))) (if (eq? c #\f) (let-values () (read-char p) (loop (cons (integer->char 12) acc))) (if (eq? c #\r) (let-values () (read-char p) (loop (cons (integer->char 13) acc))) (if (eq? c #\') (let-values () (read-char p) (loop (cons #\' acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c))))))))))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (let-values () (letrec-values (((pos-num) (read-number))) (if (eq? c #\-) (datum->syntax (- pos-num)) (datum->syntax pos-num)))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number)) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9))) (if (char? c) (<= 0-char (char->integer c) 9-char) #f)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (if (char? c) (char->integer c) -1))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((read-named) (lambda (first rest char) (if (eq? (peek-char p) first) (let-values () (check-expected-string! rest) (assert-delimeter! (peek-char p)) char) (let-values () (assert-delimeter! (peek-char p)) c))))) (if (eq? c #\a) (read-named #\l "larm" (integer->char 7)) (if (eq? c #\b) (read-named #\a "ackspace" (integer->char 8)) (if (eq? c #\d) (read-named #\e "elete" (integer->char 127)) (if (eq? c #\e) (read-named #\s "sc" (integer->char 27)) (if (eq? c #\l) (read-named #\i "inefeed" #\newline) (if (eq? c #\n) (if (eq? (peek-char p) #\u) (read-named #\u "ul" (integer->char 0)) (read-named #\e "ewline" #\newline)) (if (eq? c #\p) (read-named #\a "age" (integer->char 12)) (if (eq? c #\r) (read-named #\e "eturn" (integer->char 13)) (if (eq? c #\s) (read-named #\p "pace" #\space) (if (eq? c #\t) (read-named #\a "ab" (integer->char 9)) (if (eq? c #\v) (read-named #\t "tab" (integer->char 11)) (let-values () (assert-delimeter! (peek-char p)) c))))))))))))))) ((digits->number) (lambda (digits) (letrec-values (((str) (apply string (reverse digits))) ((num) (string->number str)) (() (let-values () (if num (void) (let-values () (errorf (quote read) "number out of range: ~a" str))) (values)))) num))) ((read-number) (lambda (prefix) (letrec-values (((chars) prefix)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p))) (if (digit? c) (let-values () (set! chars (cons (read-char p) chars)) (read-digit!)) (if (symbol-char? c) (read-symbol chars) (let-values () (assert-delimeter! c) (digits->number chars)))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\a) (let-values () (read-char p) (loop (cons (integer->char 7) acc))) (if (eq? c #\b) (let-values () (read-char p) (loop (cons (integer->char 8) acc))) (if (eq? c #\t) (let-values () (read-char p) (loop (cons (integer->char 9) acc))) (if (eq? c #\v) (let-values () (read-char p) (loop (cons (integer->char 11) acc))) (if (eq? c #\f) (let-values () (read-char p) (loop (cons (integer->char 12) acc))) (if (eq? c #\r) (let-values () (read-char p) (loop (cons (integer->char 13) acc))) (if (eq? c #\') (let-values () (read-char p) (loop (cons #\' acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c))))))))))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (datum->syntax (read-number (list c))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/read.min b/src/library/read.min
index 5c543ec..a8f5447 100644
--- a/src/library/read.min
+++ b/src/library/read.min
@@ -245,29 +245,32 @@
           (assert-delimeter! (peek-char p))
           c]))
  
+     ; converts digits of a number, in reverse order
+     (define (digits->number digits)
+       (define str (apply string (reverse digits)))
+       (define num (string->number str))
+       (unless num
+         (errorf 'read "number out of range: ~a" str))
+       num)
+ 
      ; decimal number reader
-     (define (read-number)
+     (define (read-number prefix)
        ; if we encounter a non-digit, the token is a symbol
        ; so we need to track characters that we read
-       (define 0-char (char->integer #\0))
-       (define chars '())
-       (define num 0)
+       (define chars prefix)
  
        ; magnitude
        (let read-digit! ()
          (define c (peek-char p))
-         (set! chars (cons c chars))
          (cond
            [(digit? c)
-            (read-char p)
-            (set! num (+ (* 10 num) (- (char->integer c) 0-char)))
+            (set! chars (cons (read-char p) chars))
             (read-digit!)]
            [(symbol-char? c)
-            (read-char p)
             (read-symbol chars)]
            [else
-            (assert-delimeter! (peek-char p))
-            num])))
+            (assert-delimeter! c)
+            (digits->number chars)])))
  
      ; hexidecimal number reader
      (define (read-hex-number c)
@@ -447,15 +450,12 @@
           (cond
             [(digit? n)
              ; optional sign
-             (define pos-num (read-number))
-             (if (eq? c #\-)
-                 (datum->syntax (- pos-num))
-                 (datum->syntax pos-num))]
+             (datum->syntax (read-number (list c)))]
             [else
              (datum->syntax (read-symbol (list c)))])]
          [(digit? c)
           ; number
-          (datum->syntax (read-number))]
+          (datum->syntax (read-number '()))]
          [(eq? c #\")
           ; string
           (read-char p)
-- 
2.43.0


From 8212d20e0d3f502acabf036a2117f88c8acb4c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:15 +0000
Subject: [PATCH 58/92] fix: comments before the end of a list or the input,
 for the library's reader

---
 src/boot/s/boot.min  |  2 +-
 src/library/read.min | 53 ++++++++++++++++++++++++++++----------------
 2 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index d257370..1329110 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -136,4 +136,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (car envs) #f) (copy-environment (cdr envs)) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9))) (if (char? c) (<= 0-char (char->integer c) 9-char) #f)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (if (char? c) (char->integer c) -1))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-loop))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-loop)) (() (let-values () (skip-until-token!) (values))) ((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (error (quote read) "missing closing parenthesis")))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (loop (cons (read-loop) elems))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((read-named) (lambda (first rest char) (if (eq? (peek-char p) first) (let-values () (check-expected-string! rest) (assert-delimeter! (peek-char p)) char) (let-values () (assert-delimeter! (peek-char p)) c))))) (if (eq? c #\a) (read-named #\l "larm" (integer->char 7)) (if (eq? c #\b) (read-named #\a "ackspace" (integer->char 8)) (if (eq? c #\d) (read-named #\e "elete" (integer->char 127)) (if (eq? c #\e) (read-named #\s "sc" (integer->char 27)) (if (eq? c #\l) (read-named #\i "inefeed" #\newline) (if (eq? c #\n) (if (eq? (peek-char p) #\u) (read-named #\u "ul" (integer->char 0)) (read-named #\e "ewline" #\newline)) (if (eq? c #\p) (read-named #\a "age" (integer->char 12)) (if (eq? c #\r) (read-named #\e "eturn" (integer->char 13)) (if (eq? c #\s) (read-named #\p "pace" #\space) (if (eq? c #\t) (read-named #\a "ab" (integer->char 9)) (if (eq? c #\v) (read-named #\t "tab" (integer->char 11)) (let-values () (assert-delimeter! (peek-char p)) c))))))))))))))) ((digits->number) (lambda (digits) (letrec-values (((str) (apply string (reverse digits))) ((num) (string->number str)) (() (let-values () (if num (void) (let-values () (errorf (quote read) "number out of range: ~a" str))) (values)))) num))) ((read-number) (lambda (prefix) (letrec-values (((chars) prefix)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p))) (if (digit? c) (let-values () (set! chars (cons (read-char p) chars)) (read-digit!)) (if (symbol-char? c) (read-symbol chars) (let-values () (assert-delimeter! c) (digits->number chars)))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\a) (let-values () (read-char p) (loop (cons (integer->char 7) acc))) (if (eq? c #\b) (let-values () (read-char p) (loop (cons (integer->char 8) acc))) (if (eq? c #\t) (let-values () (read-char p) (loop (cons (integer->char 9) acc))) (if (eq? c #\v) (let-values () (read-char p) (loop (cons (integer->char 11) acc))) (if (eq? c #\f) (let-values () (read-char p) (loop (cons (integer->char 12) acc))) (if (eq? c #\r) (let-values () (read-char p) (loop (cons (integer->char 13) acc))) (if (eq? c #\') (let-values () (read-char p) (loop (cons #\' acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c))))))))))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((read-loop) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-loop) (values)))) (read-loop))) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) (datum->syntax (read-loop))) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (datum->syntax (read-number (list c))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9))) (if (char? c) (<= 0-char (char->integer c) 9-char) #f)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (if (char? c) (char->integer c) -1))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-one))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? car comment) (read-pair open) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-datum))) (letrec-values (((close) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (if (if (eq? c #\#) (eq? (read-one) comment) #f) (close) (error (quote read) "missing closing parenthesis"))))))) (close)))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr))))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-one))) (loop (if (eq? elem comment) elems (cons elem elems)))))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((read-named) (lambda (first rest char) (if (eq? (peek-char p) first) (let-values () (check-expected-string! rest) (assert-delimeter! (peek-char p)) char) (let-values () (assert-delimeter! (peek-char p)) c))))) (if (eq? c #\a) (read-named #\l "larm" (integer->char 7)) (if (eq? c #\b) (read-named #\a "ackspace" (integer->char 8)) (if (eq? c #\d) (read-named #\e "elete" (integer->char 127)) (if (eq? c #\e) (read-named #\s "sc" (integer->char 27)) (if (eq? c #\l) (read-named #\i "inefeed" #\newline) (if (eq? c #\n) (if (eq? (peek-char p) #\u) (read-named #\u "ul" (integer->char 0)) (read-named #\e "ewline" #\newline)) (if (eq? c #\p) (read-named #\a "age" (integer->char 12)) (if (eq? c #\r) (read-named #\e "eturn" (integer->char 13)) (if (eq? c #\s) (read-named #\p "pace" #\space) (if (eq? c #\t) (read-named #\a "ab" (integer->char 9)) (if (eq? c #\v) (read-named #\t "tab" (integer->char 11)) (let-values () (assert-delimeter! (peek-char p)) c))))))))))))))) ((digits->number) (lambda (digits) (letrec-values (((str) (apply string (reverse digits))) ((num) (string->number str)) (() (let-values () (if num (void) (let-values () (errorf (quote read) "number out of range: ~a" str))) (values)))) num))) ((read-number) (lambda (prefix) (letrec-values (((chars) prefix)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p))) (if (digit? c) (let-values () (set! chars (cons (read-char p) chars)) (read-digit!)) (if (symbol-char? c) (read-symbol chars) (let-values () (assert-delimeter! c) (digits->number chars)))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\a) (let-values () (read-char p) (loop (cons (integer->char 7) acc))) (if (eq? c #\b) (let-values () (read-char p) (loop (cons (integer->char 8) acc))) (if (eq? c #\t) (let-values () (read-char p) (loop (cons (integer->char 9) acc))) (if (eq? c #\v) (let-values () (read-char p) (loop (cons (integer->char 11) acc))) (if (eq? c #\f) (let-values () (read-char p) (loop (cons (integer->char 12) acc))) (if (eq? c #\r) (let-values () (read-char p) (loop (cons (integer->char 13) acc))) (if (eq? c #\') (let-values () (read-char p) (loop (cons #\' acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c))))))))))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((comment) (box #f)) ((read-loop) (lambda () (letrec-values (((datum) (read-one))) (if (eq? datum comment) (read-loop) datum)))) ((read-one) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-datum) (values)))) comment)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (datum->syntax (read-number (list c))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/read.min b/src/library/read.min
index a8f5447..f6eb0df 100644
--- a/src/library/read.min
+++ b/src/library/read.min
@@ -162,32 +162,36 @@
           (read-char p)
           '()]
          [else
-          (define car (read-loop))
+          (define car (read-one))
           ;; possibly a dot
           (let loop ([car car])
             (skip-until-token!)
             (define c (peek-char p))
             (assert-not-eof! c)
             (cond
+              [(eq? car comment)
+               (read-pair open)]
               [(eq? c #\.)
                ; maybe a pair
                (define maybe-dot (read-loop))
                (cond
                  [(eq? (syntax-e maybe-dot) '.)
                   ; pair
-                  (define cdr (read-loop))
- 
-                  (skip-until-token!)
-                  (define c (peek-char p))
-                  (assert-not-eof! c)
- 
-                  (cond
-                    [(or (eq? c cparen) (eq? c cbrack) (eq? c cbrace))
-                     (assert-matching-parens! open c)
-                     (read-char p)
-                     (cons car cdr)]
-                    [else
-                     (error 'read "missing closing parenthesis")])]
+                  (define cdr (read-datum))
+ 
+                  (let close ()
+                    (skip-until-token!)
+                    (define c (peek-char p))
+                    (assert-not-eof! c)
+                    (cond
+                      [(or (eq? c cparen) (eq? c cbrack) (eq? c cbrace))
+                       (assert-matching-parens! open c)
+                       (read-char p)
+                       (cons car cdr)]
+                      [(and (eq? c #\#) (eq? (read-one) comment))
+                       (close)]
+                      [else
+                       (error 'read "missing closing parenthesis")]))]
                  [else
                   ; oops, just kidding
                   (cons car (loop maybe-dot))])]
@@ -206,7 +210,8 @@
             (read-char p)
             (list->vector (reverse elems))]
            [else
-            (loop (cons (read-loop) elems))])))
+            (define elem (read-one))
+            (loop (if (eq? elem comment) elems (cons elem elems)))])))
  
      ; character reader
      (define (read-character)
@@ -385,7 +390,17 @@
  
      ;; Main loop
  
+     (define comment (box #f))
+ 
+     ; reads a datum or the eof object
      (define (read-loop)
+       (define datum (read-one))
+       (if (eq? datum comment)
+           (read-loop)
+           datum))
+ 
+     ; reads a datum, the eof object, or `comment`
+     (define (read-one)
        ; read and branch
        (skip-until-token!)
        (define c (peek-char p))
@@ -432,14 +447,14 @@
              (skip-until-token!)
              (define c (peek-char p))
              (assert-not-eof! c)
-             ; read and ignore, then actually read
-             (read-loop)
-             (read-loop)]
+             ; read and ignore
+             (read-datum)
+             comment]
             [(eq? c #\|)
              ; block comment
              (read-char p)         
              (skip-block-comment!)
-             (datum->syntax (read-loop))]
+             comment]
             [else
              ; unknown
              (errorf 'read "unknown special character ~a" c)])]
-- 
2.43.0


From ac71941918f2aa42d1d3b473696bf879184da2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:28 +0000
Subject: [PATCH 59/92] fix: load restores the current directory and closes the
 file after an error

---
 src/core/c/system.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core/c/system.c b/src/core/c/system.c
index 8395c7a..b13a71c 100644
--- a/src/core/c/system.c
+++ b/src/core/c/system.c
@@ -93,6 +93,7 @@ char *get_file_dir(const char *realpath) {
 
 mobj load_file(mobj tc, const char *fname){
     mobj result, expr;
+    jmp_buf reentry, *prev_reentry;
     char *old_cwd, *cwd;
     FILE *f;
 
@@ -103,6 +104,17 @@ mobj load_file(mobj tc, const char *fname){
 
     old_cwd = _get_current_dir();
     cwd = get_file_dir(_get_file_path(fname));
+
+    // clean up if the file cannot be read
+    prev_reentry = tc_reentry(tc);
+    tc_reentry(tc) = &reentry;
+    if (setjmp(reentry) != 0) {
+        tc_reentry(tc) = prev_reentry;
+        set_current_dir(old_cwd);
+        fclose(f);
+        longjmp(*prev_reentry, 1);
+    }
+
     set_current_dir(cwd);
 
     result = minim_void;
@@ -111,6 +123,7 @@ mobj load_file(mobj tc, const char *fname){
         result = eval_expr(tc, expr);
     }
 
+    tc_reentry(tc) = prev_reentry;
     set_current_dir(old_cwd);
     fclose(f);
     return result;
-- 
2.43.0


From 16bd10776ee42d31d9e2c28c1af2a365095a71a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:44 +0000
Subject: [PATCH 60/92] fix: minim-gc: removing a record leaks its flags to the
 previous record

---
 src/gc/minim-gc/gc-impl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 2e57cb1..e7aa8cf 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -302,7 +302,7 @@ gc_remove(gc_t *gc,
             --gc->size;
 
             // repair bucket entries as needed
-            if (pr)     gc_record_next_set(pr, r->next);
+            if (pr)     gc_record_next_set(pr, gc_record_next(r));
             else        gc->buckets[i] = gc_record_next(r);
 
             // free if needed
-- 
2.43.0


From 903f4ad170888de6ad60610890710da840efc742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:44 +0000
Subject: [PATCH 61/92] fix: minim-gc: GC_free runs the destructor

---
 src/gc/minim-gc/gc-impl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index e7aa8cf..904b1e6 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -306,7 +306,11 @@ gc_remove(gc_t *gc,
             else        gc->buckets[i] = gc_record_next(r);
 
             // free if needed
-            if (destroy)    free(r);
+            if (destroy) {
+                if (r->dtor)    r->dtor(ptr, NULL);
+                free(r);
+            }
+
             return;
         }
 
-- 
2.43.0


From 209c7dc24a072c421d026d853cc85549c568a9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:44 +0000
Subject: [PATCH 62/92] fix: minim-gc: GC_get_collectable counts bytes, not
 buckets

---
 src/gc/minim-gc/gc-impl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 904b1e6..9211262 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -469,7 +469,7 @@ gc_get_reachable(gc_t *gc) {
 
 size_t
 gc_get_collectable(gc_t *gc) {
-    return (gc->alloc - gc_get_reachable(gc));
+    return (gc->allocs - gc_get_reachable(gc));
 }
 
 // Signals to mark phase not to descend
-- 
2.43.0


From cb22578f99c57ce313d86e6a0fc043f52dfbf914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:44 +0000
Subject: [PATCH 63/92] fix: minim-gc: allocations that cannot be satisfied
 return NULL

---
 src/gc/minim-gc/gc-impl.c | 16 ++++++++++++++--
 src/gc/minim-gc/gc.c      |  6 ++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 9211262..8e450d5 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -324,7 +324,13 @@ gc_alloc_record(gc_t *gc,
                 size_t size,
                 gc_dtor_t dtor,
                 gc_mark_t mrk) {
-    gc_record_t *r = malloc(size + sizeof(gc_record_t));
+    gc_record_t *r;
+
+    // block would be larger than the address space
+    if (size > SIZE_MAX - sizeof(gc_record_t))
+        return NULL;
+
+    r = malloc(size + sizeof(gc_record_t));
     if (r == NULL)
     {
         gc_collect(gc);
@@ -346,7 +352,13 @@ gc_calloc_record(gc_t *gc,
                 size_t size,
                 gc_dtor_t dtor,
                 gc_mark_t mrk) {
-    gc_record_t *r = calloc(1, (nmem * size) + sizeof(gc_record_t));
+    gc_record_t *r;
+
+    // block would be larger than the address space
+    if (size != 0 && nmem > (SIZE_MAX - sizeof(gc_record_t)) / size)
+        return NULL;
+
+    r = calloc(1, (nmem * size) + sizeof(gc_record_t));
     if (r == NULL)
     {
         gc_collect(gc);
diff --git a/src/gc/minim-gc/gc.c b/src/gc/minim-gc/gc.c
index d98ac6a..756ffe7 100644
--- a/src/gc/minim-gc/gc.c
+++ b/src/gc/minim-gc/gc.c
@@ -32,6 +32,9 @@ void *GC_alloc_opt(size_t size,
     
     // allocate
     r = gc_alloc_record(main_gc, size, (gc_dtor_t) dtor, (gc_mark_t) mrk);
+    if (!r)
+        return NULL;
+
     gc_add_record(main_gc, r);
     return gc_record_ptr(r);
 }
@@ -47,6 +50,9 @@ void *GC_calloc_opt(size_t nmem,
     
     // allocate
     r = gc_calloc_record(main_gc, nmem, size, (gc_dtor_t) dtor, (gc_mark_t) mrk);
+    if (!r)
+        return NULL;
+
     gc_add_record(main_gc, r);
     return gc_record_ptr(r);
 }
-- 
2.43.0


From b3fd4a40dfc747d4759b2f2dd224a0a09b09e3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:44 +0000
Subject: [PATCH 64/92] fix: minim-gc: a failed GC_realloc keeps the block

---
 src/gc/minim-gc/gc-impl.c |  4 ++++
 src/gc/minim-gc/gc.c      | 13 ++++++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 8e450d5..9532ebc 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -383,6 +383,10 @@ gc_realloc_record(gc_t *gc,
     gc_record_t *r2;
     uint8_t flags;
 
+    // block would be larger than the address space
+    if (size > SIZE_MAX - sizeof(gc_record_t))
+        return NULL;
+
     flags = gc_record_flags(r);
     r2 = realloc(r, size + sizeof(gc_record_t));
     if (r2 == NULL)
diff --git a/src/gc/minim-gc/gc.c b/src/gc/minim-gc/gc.c
index 756ffe7..4bf83ba 100644
--- a/src/gc/minim-gc/gc.c
+++ b/src/gc/minim-gc/gc.c
@@ -61,7 +61,7 @@ void *GC_realloc_opt(void *ptr,
                      size_t size,
                      void (*dtor)(void*),
                      void (*mrk)(void (void*, void*), void*, void*)) {
-    gc_record_t *r;
+    gc_record_t *r, *r2;
 
     // zero size
     if (size == 0) {
@@ -76,12 +76,15 @@ void *GC_realloc_opt(void *ptr,
     r = gc_get_record(main_gc, ptr);
     if (r) {
         gc_remove(main_gc, ptr, 0);
-        r = gc_realloc_record(main_gc, r, size, (gc_dtor_t) dtor, (gc_mark_t) mrk);
-        if (!r)
+        r2 = gc_realloc_record(main_gc, r, size, (gc_dtor_t) dtor, (gc_mark_t) mrk);
+        if (!r2) {
+            // original block is still valid
+            gc_add_record(main_gc, r);
             return NULL;
+        }
         
-        gc_add_record(main_gc, r);
-        return gc_record_ptr(r);
+        gc_add_record(main_gc, r2);
+        return gc_record_ptr(r2);
     } else {
         return GC_alloc_opt(size, dtor, mrk);
     }
-- 
2.43.0


From 20857b84c4bcd59d0c5af98368cbd080af36bb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:49 +0000
Subject: [PATCH 65/92] fix: comparing a single number is true

---
 src/core/s/prelude.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 8e8700f..ea34d33 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -530,7 +530,7 @@
                      (case-lambda
                        [(x)
                         (if (number? x)
-                            x
+                            #t
                             (non-number-error who x))]
                        [(x y)
                         (if (number? x)
-- 
2.43.0


From 46f18000fb6899b11421126577791cf85da4e74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:49 +0000
Subject: [PATCH 66/92] fix: the consumer of call-with-values is evaluated
 before the producer is called

---
 src/core/c/jitopt.c | 45 ++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 148eca5..00d01c2 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -331,7 +331,7 @@ static mobj jit_opt_L1_values(mobj expr) {
     }
 }
 
-// L1 optimization for `values`
+// L1 optimization for `mv-call`
 static mobj jit_opt_L1_mvcall(mobj expr) {
     mobj e, consumer, producer, body, hd, tl;
 
@@ -402,6 +402,42 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
     }
 }
 
+// Returns 1 if evaluating an expression only constructs a procedure
+static int procedure_exprp(mobj e) {
+    return minim_consp(e) &&
+        (minim_car(e) == lambda_symbol || minim_car(e) == case_lambda_symbol);
+}
+
+// L1 optimization for `call-with-values`
+static mobj jit_opt_L1_call_with_values(mobj expr) {
+    mobj producer, consumer, tmps;
+
+    producer = minim_cadr(expr);
+    consumer = minim_car(minim_cddr(expr));
+    if (!procedure_exprp(consumer)) {
+        // the consumer must be evaluated before the producer is called
+        // => `((lambda (p c) (mv-call (p) c)) producer consumer)`
+        tmps = make_tmp_ids(minim_cdr(expr));
+        if (procedure_exprp(producer)) {
+            // producer may be inlined
+            expr = Mlist3(mvcall_symbol, Mlist1(producer), minim_cadr(tmps));
+            expr = Mlist2(Mlist3(lambda_symbol, minim_cdr(tmps), expr), consumer);
+        } else {
+            expr = Mlist3(mvcall_symbol, Mlist1(minim_car(tmps)), minim_cadr(tmps));
+            expr = Mlist3(Mlist3(lambda_symbol, tmps, expr), producer, consumer);
+        }
+
+        return jit_opt_L1(expr);
+    }
+
+    return jit_opt_L1_mvcall(
+        Mlist3(
+            mvcall_symbol,
+            Mlist1(jit_opt_L1(producer)),
+            jit_opt_L1(consumer)
+    ));
+}
+
 // Perform L1 optimization
 mobj jit_opt_L1(mobj expr) {
     if (minim_consp(expr)) {
@@ -443,12 +479,7 @@ mobj jit_opt_L1(mobj expr) {
                 return jit_opt_L1_values(expr);
             } else if (head == call_with_values_symbol && list_length(expr) == 3) {
                 // call-with-values form
-                return jit_opt_L1_mvcall(
-                    Mlist3(
-                        mvcall_symbol,
-                        Mlist1(jit_opt_L1(minim_cadr(expr))),
-                        jit_opt_L1(minim_car(minim_cddr(expr)))
-                ));
+                return jit_opt_L1_call_with_values(expr);
             } else if (head == mvcall_symbol) {
                 // mv-call form
                 return jit_opt_L1_mvcall(expr);
-- 
2.43.0


From 7ea74b9cf5d37b78532da0c54384b4975842c920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 67/92] fix: an error in compiling the expression of eval
 leaves the other environment in place

---
 src/core/c/jitprims.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/jitprims.c b/src/core/c/jitprims.c
index eae170b..e497610 100644
--- a/src/core/c/jitprims.c
+++ b/src/core/c/jitprims.c
@@ -135,8 +135,8 @@ mobj compile_eval(mobj name) {
                 
             ),
             list_append2(Mlist5(
+                Mlist1(do_eval_symbol), // may fail, so must run in the old environment
                 Mlist2(set_tenv_symbol, Mfixnum(t0_reg_idx)),   // %tenv <- %t0 [new env]
-                Mlist1(do_eval_symbol),
                 Mlist2(save_cc_symbol, Lpop_tenv),
                 Mlist1(set_proc_symbol),
                 Mlist1(apply_symbol)
-- 
2.43.0


From 5936294426472c08d3e5efff5159ed1120f9e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 68/92] fix: eval in something that is not an environment is an
 error

---
 src/core/c/eval.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 0e2f95c..8b55b73 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -595,7 +595,11 @@ application:
         store_reg(tc, tregs, ins, minim_cadr(ins), tc_tenv(tc));
     } else if (ty == set_tenv_symbol) {
         // (set-tenv <src reg>)
-        tc_tenv(tc) = load_reg(tc, tregs, ins, minim_cadr(ins));
+        mobj tenv = load_reg(tc, tregs, ins, minim_cadr(ins));
+        if (!minim_top_envp(tenv)) {
+            bad_type_exn("eval", "environment?", tenv);
+        }
+        tc_tenv(tc) = tenv;
     } else if (ty == do_apply_symbol) {
         // do-apply
         do_apply(tc);
-- 
2.43.0


From 1c18c55f5bc664b317610ee9c52d4827ff0e646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:32 +0000
Subject: [PATCH 69/92] fix: apply reports a non-procedure as such

---
 src/core/c/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 8b55b73..96b7362 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -214,7 +214,7 @@ static void do_apply(mobj tc) {
     // the first argument becomes the current procedure
     tc_cp(tc) = tc_frame_ref(tc, 0);
     if (!minim_procp(tc_cp(tc))) {
-        bad_type_exn("apply", "list?", tc_cp(tc));
+        bad_type_exn("apply", "procedure?", tc_cp(tc));
     }
 
     // save rest argument (needs to be a list)
-- 
2.43.0


From dee151118862182c97b478e735f2839ca7351bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:01 +0000
Subject: [PATCH 70/92] fix: argument errors name the procedure that was called

---
 src/core/s/prelude.min | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index ea34d33..b0f7c9d 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -808,8 +808,11 @@
         (check-arg! 'string args)
         ($list->string args))
       (lambda (xs) ; list->string
-        (check-arg! 'list->string xs)
-        ($list->string xs)))))
+        (if (list? xs)
+            (begin
+              (check-arg! 'list->string xs)
+              ($list->string xs))
+            (raise-argument-error 'list->string "list?" xs))))))
 
 (define-values (make-string)
   (let-values ([(check-args!)
@@ -1346,7 +1349,7 @@
             (let-values ([(fields) ($record-type-field-names rtd)])
               (if (< idx ($vector-length fields))
                   ($record-type-field-mutable? rtd idx)
-                  (raise-range-error 'record-type-field-mutable rtd "" 0 ($vector-length fields) idx)))
+                  (raise-range-error 'record-type-field-mutable? rtd "" 0 ($vector-length fields) idx)))
             (raise-argument-error 'record-type-field-mutable? "non-negative integer?" idx))
         (raise-argument-error 'record-type-field-mutable? "record-type-name?" rtd))))
 
@@ -1485,7 +1488,7 @@
   (lambda (ht)
     (if (hashtable? ht)
         ($hashtable-size ($hashtable-store ht))
-        (raise-argument-error 'hashtable-set! "hashtable?" ht))))
+        (raise-argument-error 'hashtable-size "hashtable?" ht))))
 
 (define-values (hashtable-entries hashtable-keys hashtable-vals)
   (let-values ([(check-arg!)
@@ -1511,7 +1514,7 @@
           (loop ($hashtable-cells store) 0)))
       ; hashtable-keys
       (lambda (ht)
-        (check-arg! 'hashtable-entries ht)
+        (check-arg! 'hashtable-keys ht)
         (letrec-values ([(store) ($hashtable-store ht)]
                         [(size) ($hashtable-size store)]
                         [(keys) ($make-vector size #f)]
@@ -1524,7 +1527,7 @@
           (loop ($hashtable-cells store) 0)))
       ; hashtable-vals
       (lambda (ht)
-        (check-arg! 'hashtable-entries ht)
+        (check-arg! 'hashtable-vals ht)
         (letrec-values ([(store) ($hashtable-store ht)]
                         [(size) ($hashtable-size store)]
                         [(vals) ($make-vector size #f)]
@@ -1669,7 +1672,7 @@
       (lambda (ht k)
         (if (hashtable? ht)
             (1/hashtable-contains? ht k)
-            (non-hashtable-error 'hashtable-set! ht)))
+            (non-hashtable-error 'hashtable-contains? ht)))
       ; hashtable-ref
       (case-lambda
         [(ht k)
@@ -1691,7 +1694,7 @@
          (if (hashtable? ht)
              (if (procedure? updater)
                  (1/hashtable-update! ht k updater
-                                      (lambda () (no-key! 'hashtable-update ht k)))
+                                      (lambda () (no-key! 'hashtable-update! ht k)))
                  (raise-argument-error 'hashtable-update! "procedure?" updater))
              (non-hashtable-error 'hashtable-update! ht))]
         [(ht k updater default)
@@ -1704,7 +1707,7 @@
       (lambda (ht k)
         (if (hashtable? ht)
             (1/hashtable-cell-delete! ht k)
-            (non-hashtable-error 'hashtable-set! ht))))))
+            (non-hashtable-error 'hashtable-delete! ht))))))
 
 (define-values (hashtable-clear!)
   (lambda (ht)
@@ -1806,7 +1809,7 @@
     (if ($record-value? a)
         (let-values ([(rtd) ($record-rtd a)])
           (record-type-hash-procedure rtd))
-        (raise-argument-error 'record-equal-procedure "record?" a))))
+        (raise-argument-error 'record-hash-procedure "record?" a))))
 
 (define-values (record-writer)
   (letrec-values ([($writer-table) (make-eq-hashtable)]
@@ -2201,6 +2204,9 @@
       
                   [(check-format!)
                    (lambda (who fmt args)
+                     (if (string? fmt)
+                         (void)
+                         (raise-argument-error who "string?" fmt))
                      (let-values ([(fmt-preds) (fmt-args who fmt)])
                        (if (= (length fmt-preds) (length args))
                            (for-each
@@ -2627,8 +2633,8 @@
     (if (if who (symbol? who) #t)
         (if (string? descr)
             (raise (make-missing-exn who (format "~a not found" descr) descr x k))
-            (raise-argument-error 'raise-argument-error "string?" descr))
-        (raise-argument-error 'raise-argument-error "symbol? or #f" who))))
+            (raise-argument-error 'raise-missing-error "string?" descr))
+        (raise-argument-error 'raise-missing-error "symbol? or #f" who))))
 
 (define-values (raise-syntax-error)
   (let-values ([($raise-syntax-error)
-- 
2.43.0


From 312732f17bed154fdab98e425cd96f47e7c270ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:06 +0000
Subject: [PATCH 71/92] fix: the empty vector is written as #()

---
 src/core/s/prelude.min | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index b0f7c9d..2d63a15 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2108,16 +2108,19 @@
                   [(wrvector)
                    (lambda (x d? p)
                      (put-char p #\#)
+                     (put-char p lparen)
                      (letrec-values ([(n) (vector-length x)]
                                      [(loop)
-                                      (lambda (i sep)
+                                      (lambda (i)
                                         (if (>= i n)
                                             (void)
                                             (begin
-                                              (put-char p sep)
+                                              (if (> i 0)
+                                                  (put-char p #\space)
+                                                  (void))
                                               (wr (vector-ref x i) d? p)
-                                              (loop (+ i 1) #\space))))])
-                       (loop 0 lparen))
+                                              (loop (+ i 1)))))])
+                       (loop 0))
                      (put-char p rparen))]
                   ; box writer
                   [(wrbox)
-- 
2.43.0


From 0f7188d55c210182da0861bd561d1bd51543fdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:05 +0000
Subject: [PATCH 72/92] fix: substring reports a start beyond the end with all
 the arguments of the range error, and a non-string before its length is taken

---
 src/boot/s/boot.min            | 2 +-
 src/library/private/string.min | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 1329110..6ea0e1e 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -59,7 +59,7 @@
 (define-values (set-intersect) (lambda ss (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-intersect) s)))) ss) (if (null? ss) (make-set) (if (null? (cdr ss)) (let-values () (letrec-values (((s) (car ss)) ((c) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! c x)) (set->list s)) (values)))) c)) (let-values () (letrec-values (((s) (car ss)) ((i) (make-set)) (() (let-values () (for-each (lambda (x) (set-add! i x)) (set->list s)) (values)))) (letrec-values (((loop) (lambda (ss i) (if (null? ss) i (if (= (set-count i) 0) i (let-values () (letrec-values (((s) (car ss)) ((i*) (make-set)) (() (let-values () (for-each (lambda (x) (if (set-member? s x) (let-values () (set-add! i* x)) (void))) (set->list i)) (values)))) (loop (cdr ss) i*)))))))) (loop (cdr ss) i))))))))
 (define-values (set-subtract) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-subtract) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) (letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? st x) (let-values () (set-remove! diff x)) (void))) diff) (values)))) (loop (cdr sts)))))))) (loop sts)))))
 (define-values (set-symmetric-difference) (lambda (st0 . sts) (for-each (lambda (s) (if (set? s) (void) (let-values () (not-set-error (quote set-symmetric-difference) s)))) (cons st0 sts)) (letrec-values (((diff) (set-copy st0))) (letrec-values (((loop) (lambda (sts) (if (null? sts) diff (let-values () (letrec-values (((st) (car sts)) (() (let-values () (set-for-each (lambda (x) (if (set-member? diff x) (set-remove! diff x) (set-add! diff x))) st) (values)))) (loop (cdr sts)))))))) (loop sts)))))
-(define-values (substring) (lambda (str start end) (letrec-values (((len) (string-length str)) (() (let-values () (if (string? str) (void) (let-values () (raise-argument-error (quote substring) "string?" str))) (values))) (() (let-values () (if (non-negative-integer? start) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" start))) (values))) (() (let-values () (if (non-negative-integer? end) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" end))) (values))) (() (let-values () (if (<= end len) (void) (let-values () (raise-range-error (quote substring) str "end" 0 (+ len 1) end))) (values))) (() (let-values () (if (<= start end) (void) (let-values () (raise-range-error (quote substring) str "start" 0 end))) (values))) ((sstr) (make-string (- end start)))) (letrec-values (((loop) (lambda (i n) (if (= n end) sstr (let-values () (string-set! sstr i (string-ref str n)) (loop (+ i 1) (+ n 1))))))) (loop 0 start)))))
+(define-values (substring) (lambda (str start end) (if (string? str) (void) (let-values () (raise-argument-error (quote substring) "string?" str))) (letrec-values (((len) (string-length str)) (() (let-values () (if (non-negative-integer? start) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" start))) (values))) (() (let-values () (if (non-negative-integer? end) (void) (let-values () (raise-argument-error (quote substring) "non-negative-integer?" end))) (values))) (() (let-values () (if (<= end len) (void) (let-values () (raise-range-error (quote substring) str "end" 0 (+ len 1) end))) (values))) (() (let-values () (if (<= start end) (void) (let-values () (raise-range-error (quote substring) str "start" 0 (+ end 1) start))) (values))) ((sstr) (make-string (- end start)))) (letrec-values (((loop) (lambda (i n) (if (= n end) sstr (let-values () (string-set! sstr i (string-ref str n)) (loop (+ i 1) (+ n 1))))))) (loop 0 start)))))
 (define-values (identifier?) (lambda (t) (if (syntax? t) (symbol? (syntax-e t)) #f)))
 (define-values (free-identifier=?) (lambda (a b) (if (not (identifier? a)) (raise-argument-error (quote free-identifier=?) "identifier?" a) (if (not (identifier? b)) (raise-argument-error (quote free-identifier=?) "identifier?" b) (eq? (syntax-e a) (syntax-e b))))))
 (define-values (stx-null?) (lambda (t) (if (null? t) #t (if (syntax? t) (null? (syntax-e t)) #f))))
diff --git a/src/library/private/string.min b/src/library/private/string.min
index 183f2fc..2d5973c 100644
--- a/src/library/private/string.min
+++ b/src/library/private/string.min
@@ -6,9 +6,9 @@
 (export substring)
 
 (define (substring str start end)
-  (define len (string-length str))
   (unless (string? str)
     (raise-argument-error 'substring "string?" str))
+  (define len (string-length str))
   (unless (non-negative-integer? start)
     (raise-argument-error 'substring "non-negative-integer?" start))
   (unless (non-negative-integer? end)
@@ -16,7 +16,7 @@
   (unless (<= end len)
     (raise-range-error 'substring str "end" 0 (+ len 1) end))
   (unless (<= start end)
-    (raise-range-error 'substring str "start" 0 end))
+    (raise-range-error 'substring str "start" 0 (+ end 1) start))
   (define sstr (make-string (- end start)))
   (let loop ([i 0] [n start])
     (cond
-- 
2.43.0


From 07cf0d6aa7314ebf9bbb41095b852992b8a30a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:46 +0000
Subject: [PATCH 73/92] fix: hashtable-hash-proc and hashtable-equiv-proc
 report what is not a hashtable under their own names

---
 src/core/s/prelude.min | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 2d63a15..cc6e459 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -1464,15 +1464,23 @@
   (letrec-values ([($ht) (make-record-type-descriptor
                            'hashtable #f #f #t #t
                            #((mutable store) (immutable hash) (immutable equiv)))]
-                  [($make-ht) (record-constructor $ht)])
+                  [($make-ht) (record-constructor $ht)]
+                  [($ht-hash) (record-accessor $ht 1)]
+                  [($ht-equiv) (record-accessor $ht 2)])
     (values
       (lambda (hash equiv?)
         ($make-ht ($make-hashtable 0) hash equiv?))
       (record-predicate $ht)
       (record-accessor $ht 0)
       (record-mutator $ht 0)
-      (record-accessor $ht 1)
-      (record-accessor $ht 2)
+      (lambda (ht)
+        (if (hashtable? ht)
+            ($ht-hash ht)
+            (raise-argument-error 'hashtable-hash-proc "hashtable?" ht)))
+      (lambda (ht)
+        (if (hashtable? ht)
+            ($ht-equiv ht)
+            (raise-argument-error 'hashtable-equiv-proc "hashtable?" ht)))
       (lambda (ht)
         (if (hashtable? ht)
             ($make-ht ($hashtable-copy ($hashtable-store ht))
-- 
2.43.0


From 0808d1cd76d46e559b8968c54e570e8817acf0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:47 +0000
Subject: [PATCH 74/92] fix: the library's reader takes a dot after a comment
 as the dot of a pair

---
 src/boot/s/boot.min  | 2 +-
 src/library/read.min | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 6ea0e1e..ffc8885 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -136,4 +136,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (car envs) #f) (copy-environment (cdr envs)) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9))) (if (char? c) (<= 0-char (char->integer c) 9-char) #f)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (if (char? c) (char->integer c) -1))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-one))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? car comment) (read-pair open) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-datum))) (letrec-values (((close) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (if (if (eq? c #\#) (eq? (read-one) comment) #f) (close) (error (quote read) "missing closing parenthesis"))))))) (close)))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr))))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-one))) (loop (if (eq? elem comment) elems (cons elem elems)))))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((read-named) (lambda (first rest char) (if (eq? (peek-char p) first) (let-values () (check-expected-string! rest) (assert-delimeter! (peek-char p)) char) (let-values () (assert-delimeter! (peek-char p)) c))))) (if (eq? c #\a) (read-named #\l "larm" (integer->char 7)) (if (eq? c #\b) (read-named #\a "ackspace" (integer->char 8)) (if (eq? c #\d) (read-named #\e "elete" (integer->char 127)) (if (eq? c #\e) (read-named #\s "sc" (integer->char 27)) (if (eq? c #\l) (read-named #\i "inefeed" #\newline) (if (eq? c #\n) (if (eq? (peek-char p) #\u) (read-named #\u "ul" (integer->char 0)) (read-named #\e "ewline" #\newline)) (if (eq? c #\p) (read-named #\a "age" (integer->char 12)) (if (eq? c #\r) (read-named #\e "eturn" (integer->char 13)) (if (eq? c #\s) (read-named #\p "pace" #\space) (if (eq? c #\t) (read-named #\a "ab" (integer->char 9)) (if (eq? c #\v) (read-named #\t "tab" (integer->char 11)) (let-values () (assert-delimeter! (peek-char p)) c))))))))))))))) ((digits->number) (lambda (digits) (letrec-values (((str) (apply string (reverse digits))) ((num) (string->number str)) (() (let-values () (if num (void) (let-values () (errorf (quote read) "number out of range: ~a" str))) (values)))) num))) ((read-number) (lambda (prefix) (letrec-values (((chars) prefix)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p))) (if (digit? c) (let-values () (set! chars (cons (read-char p) chars)) (read-digit!)) (if (symbol-char? c) (read-symbol chars) (let-values () (assert-delimeter! c) (digits->number chars)))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\a) (let-values () (read-char p) (loop (cons (integer->char 7) acc))) (if (eq? c #\b) (let-values () (read-char p) (loop (cons (integer->char 8) acc))) (if (eq? c #\t) (let-values () (read-char p) (loop (cons (integer->char 9) acc))) (if (eq? c #\v) (let-values () (read-char p) (loop (cons (integer->char 11) acc))) (if (eq? c #\f) (let-values () (read-char p) (loop (cons (integer->char 12) acc))) (if (eq? c #\r) (let-values () (read-char p) (loop (cons (integer->char 13) acc))) (if (eq? c #\') (let-values () (read-char p) (loop (cons #\' acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c))))))))))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((comment) (box #f)) ((read-loop) (lambda () (letrec-values (((datum) (read-one))) (if (eq? datum comment) (read-loop) datum)))) ((read-one) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-datum) (values)))) comment)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (datum->syntax (read-number (list c))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9))) (if (char? c) (<= 0-char (char->integer c) 9-char) #f)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (if (char? c) (char->integer c) -1))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-one))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? car comment) (read-pair open) (if (eq? c #\#) (let-values () (letrec-values (((next) (read-one))) (if (eq? next comment) (loop car) (cons car (loop next))))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-datum))) (letrec-values (((close) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (if (if (eq? c #\#) (eq? (read-one) comment) #f) (close) (error (quote read) "missing closing parenthesis"))))))) (close)))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-one))) (loop (if (eq? elem comment) elems (cons elem elems)))))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((read-named) (lambda (first rest char) (if (eq? (peek-char p) first) (let-values () (check-expected-string! rest) (assert-delimeter! (peek-char p)) char) (let-values () (assert-delimeter! (peek-char p)) c))))) (if (eq? c #\a) (read-named #\l "larm" (integer->char 7)) (if (eq? c #\b) (read-named #\a "ackspace" (integer->char 8)) (if (eq? c #\d) (read-named #\e "elete" (integer->char 127)) (if (eq? c #\e) (read-named #\s "sc" (integer->char 27)) (if (eq? c #\l) (read-named #\i "inefeed" #\newline) (if (eq? c #\n) (if (eq? (peek-char p) #\u) (read-named #\u "ul" (integer->char 0)) (read-named #\e "ewline" #\newline)) (if (eq? c #\p) (read-named #\a "age" (integer->char 12)) (if (eq? c #\r) (read-named #\e "eturn" (integer->char 13)) (if (eq? c #\s) (read-named #\p "pace" #\space) (if (eq? c #\t) (read-named #\a "ab" (integer->char 9)) (if (eq? c #\v) (read-named #\t "tab" (integer->char 11)) (let-values () (assert-delimeter! (peek-char p)) c))))))))))))))) ((digits->number) (lambda (digits) (letrec-values (((str) (apply string (reverse digits))) ((num) (string->number str)) (() (let-values () (if num (void) (let-values () (errorf (quote read) "number out of range: ~a" str))) (values)))) num))) ((read-number) (lambda (prefix) (letrec-values (((chars) prefix)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p))) (if (digit? c) (let-values () (set! chars (cons (read-char p) chars)) (read-digit!)) (if (symbol-char? c) (read-symbol chars) (let-values () (assert-delimeter! c) (digits->number chars)))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\a) (let-values () (read-char p) (loop (cons (integer->char 7) acc))) (if (eq? c #\b) (let-values () (read-char p) (loop (cons (integer->char 8) acc))) (if (eq? c #\t) (let-values () (read-char p) (loop (cons (integer->char 9) acc))) (if (eq? c #\v) (let-values () (read-char p) (loop (cons (integer->char 11) acc))) (if (eq? c #\f) (let-values () (read-char p) (loop (cons (integer->char 12) acc))) (if (eq? c #\r) (let-values () (read-char p) (loop (cons (integer->char 13) acc))) (if (eq? c #\') (let-values () (read-char p) (loop (cons #\' acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c))))))))))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((comment) (box #f)) ((read-loop) (lambda () (letrec-values (((datum) (read-one))) (if (eq? datum comment) (read-loop) datum)))) ((read-one) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-datum) (values)))) comment)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (datum->syntax (read-number (list c))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/read.min b/src/library/read.min
index f6eb0df..bdfbe58 100644
--- a/src/library/read.min
+++ b/src/library/read.min
@@ -171,6 +171,12 @@
             (cond
               [(eq? car comment)
                (read-pair open)]
+              [(eq? c #\#)
+               ; a comment may come before the dot
+               (define next (read-one))
+               (if (eq? next comment)
+                   (loop car)
+                   (cons car (loop next)))]
               [(eq? c #\.)
                ; maybe a pair
                (define maybe-dot (read-loop))
-- 
2.43.0


From 34879f37277fb6eaaccf8c99072a6d4eb9742268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:51 +0000
Subject: [PATCH 75/92] fix: a lambda without formals applied to arguments as
 the producer of multiple values

---
 src/core/c/jitopt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/c/jitopt.c b/src/core/c/jitopt.c
index 00d01c2..afcf0f1 100644
--- a/src/core/c/jitopt.c
+++ b/src/core/c/jitopt.c
@@ -340,8 +340,8 @@ static mobj jit_opt_L1_mvcall(mobj expr) {
     if (minim_consp(e)) {
         if (minim_consp(minim_car(e)) && minim_caar(e) == lambda_symbol) {
             producer = minim_car(e);
-            if (minim_nullp(minim_cadr(producer))) {
-                // producer is `(lambda () e ...)`
+            if (minim_nullp(minim_cadr(producer)) && minim_nullp(minim_cdr(e))) {
+                // producer is `((lambda () e ...))`
                 body = minim_cddr(producer);
                 if (minim_nullp(minim_cdr(body))) {
                     // (mv-call ((lambda () e)) consumer) => (mv-call e consumer)
-- 
2.43.0


From 4e0b74f7c021017107323b910a5b2e0c2ddc4b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:55 +0000
Subject: [PATCH 76/92] fix: procedure-arity? accepts the arity of a procedure
 that accepts no call

---
 src/core/s/prelude.min | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index cc6e459..7f8ff83 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -734,7 +734,7 @@
 
 (define-values (procedure-arity?)
   (lambda (x)
-    (if (non-negative-integer? x)
+    (if (if (null? x) #t (non-negative-integer? x))
         #t
         (if (pair? x)
             (if (non-negative-integer? (car x))
@@ -2519,7 +2519,7 @@
                       (eprintf "error: ~a\n" (exn-message exn))))]
                [(display-arity)
                 (lambda (x)
-                  (if (number? x)
+                  (if (if (null? x) #t (number? x))
                       (eprintf "~a\n" x)
                       (letrec-values ([(loop)
                                        (lambda (x)
-- 
2.43.0


From 638b3d4ffcc853d7dd5839255d3a1c23d44f2e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:59 +0000
Subject: [PATCH 77/92] fix: a procedure with invalid arguments does not go on
 with them when the error handler returns, nor beyond the end of a list that
 its procedure modified

---
 src/core/s/prelude.min | 390 +++++++++++++++++++----------------------
 1 file changed, 185 insertions(+), 205 deletions(-)

diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index 7f8ff83..eab0325 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -796,39 +796,35 @@
 ;; String
 
 (define-values (string list->string)
-  (let-values ([(check-arg!)
+  (let-values ([(chars->string)
                 (lambda (who xs)
-                  (for-each (lambda (x)
-                              (if (char? x)
-                                  (void)
-                                  (raise-argument-error who "char?" x)))
-                            xs))])
+                  (letrec-values ([(loop)
+                                   (lambda (ys)
+                                     (if (null? ys)
+                                         ($list->string xs)
+                                         (if (char? ($car ys))
+                                             (loop ($cdr ys))
+                                             (raise-argument-error who "char?" ($car ys)))))])
+                    (loop xs)))])
     (values
       (lambda args ; string
-        (check-arg! 'string args)
-        ($list->string args))
+        (chars->string 'string args))
       (lambda (xs) ; list->string
         (if (list? xs)
-            (begin
-              (check-arg! 'list->string xs)
-              ($list->string xs))
+            (chars->string 'list->string xs)
             (raise-argument-error 'list->string "list?" xs))))))
 
 (define-values (make-string)
-  (let-values ([(check-args!)
-                (lambda (n c)
-                  (if (non-negative-integer? n)
-                      (if (char? c)
-                          (void)
-                          (raise-argument-error 'make-string "char?" c))
-                      (raise-argument-error 'make-string "non-negative-integer?" n)))])
+  (letrec-values ([(make)
+                   (lambda (n c)
+                     (if (non-negative-integer? n)
+                         (if (char? c)
+                             ($make-string n c)
+                             (raise-argument-error 'make-string "char?" c))
+                         (raise-argument-error 'make-string "non-negative-integer?" n)))])
     (case-lambda
-      [(n)
-       (check-args! n #\a)
-       ($make-string n #\a)]
-      [(n fill)
-       (check-args! n fill)
-       ($make-string n fill)])))
+      [(n) (make n #\a)]
+      [(n fill) (make n fill)])))
 
 (define-values (string-length)
   (lambda (s)
@@ -859,40 +855,45 @@
         (raise-argument-error 'string-set! "string?" s))))
 
 (define-values (string-append)
-  (let-values ([(check-args!)
-                (lambda (xs)
-                  (for-each (lambda (x)
-                              (if (string? x)
-                                  (void)
-                                  (raise-argument-error 'string-append "string?" x)))
-                            xs))]
-               [(sum-lengths)
+  (let-values ([(sum-lengths)
                 (lambda (xs)
                   (letrec-values ([(loop)
                                    (lambda (xs len)
                                      (if (null? xs)
                                          len
                                          (loop ($cdr xs) (+ len ($string-length ($car xs))))))])
-                    (loop xs 0)))])
-    (case-lambda
-      [() ""]
-      [(x)
-       (check-args! (list x))
-       x]
-      [(x . xs)
-       (let-values ([(xs) (cons x xs)])
-         (check-args! xs)
-         (letrec-values ([(s) ($make-string (sum-lengths xs) #\0)]
-                         [(loop)
-                          (lambda (xs i j)
-                            (if (null? xs)
-                                s
-                                (if (>= j ($string-length ($car xs)))
-                                    (loop ($cdr xs) i 0)
-                                    (begin
-                                      (string-set! s i (string-ref ($car xs) j))
-                                      (loop xs (add1 i) (add1 j))))))])
-           (loop xs 0 0)))])))
+                    (loop xs 0)))]
+               [(non-string-error)
+                (lambda (x)
+                  (raise-argument-error 'string-append "string?" x))])
+    (let-values ([(append-all)
+                  (lambda (xs)
+                    (letrec-values ([(s) ($make-string (sum-lengths xs) #\0)]
+                                    [(loop)
+                                     (lambda (xs i j)
+                                       (if (null? xs)
+                                           s
+                                           (if (>= j ($string-length ($car xs)))
+                                               (loop ($cdr xs) i 0)
+                                               (begin
+                                                 (string-set! s i (string-ref ($car xs) j))
+                                                 (loop xs (add1 i) (add1 j))))))])
+                      (loop xs 0 0)))])
+      (case-lambda
+        [() ""]
+        [(x)
+         (if (string? x)
+             x
+             (non-string-error x))]
+        [xs
+         (letrec-values ([(loop)
+                          (lambda (ys)
+                            (if (null? ys)
+                                (append-all xs)
+                                (if (string? ($car ys))
+                                    (loop ($cdr ys))
+                                    (non-string-error ($car ys)))))])
+           (loop xs))]))))
 
 (define-values (number->string)
   (lambda (n)
@@ -974,42 +975,43 @@
          (loop '() ($reverse xss)))])))
 
 (define-values (for-each map andmap ormap)
+  ; `f` may modify the lists, so their ends are not the ones that were checked
   (letrec-values ([(for-each1) ; optimized `for-each` for one argument
                    (lambda (f xs)
-                     (if (null? xs)
-                         (void)
+                     (if (pair? xs)
                          (begin
                            (f ($car xs))
-                           (for-each1 f ($cdr xs)))))]
+                           (for-each1 f ($cdr xs)))
+                         (void)))]
                   [(map1) ; optimized `map` for one argument
                    (lambda (f xs)
                      (letrec-values ([(loop)
                                       (lambda (xs acc)
-                                        (if (null? xs)
-                                            (reverse acc)
-                                            (loop ($cdr xs) (cons (f ($car xs)) acc))))])
+                                        (if (pair? xs)
+                                            (loop ($cdr xs) (cons (f ($car xs)) acc))
+                                            (reverse acc)))])
                        (loop xs '())))]
                   [(andmap1) ; optimized `andmap` for one argument
                    (lambda (pred? xs)
-                     (if (null? xs)
-                         #t
+                     (if (pair? xs)
                          (if (pred? ($car xs))
                              (andmap1 pred? ($cdr xs))
-                             #f)))]
+                             #f)
+                         #t))]
                   [(ormap1) ; optimized `ormap` for one argument
                    (lambda (pred? xs)
-                     (if (null? xs)
-                         #f
+                     (if (pair? xs)
                          (if (pred? ($car xs))
                              #t
-                             (ormap1 pred? ($cdr xs)))))]
-                  [(check-args!)
-                   (lambda (who f xss)
+                             (ormap1 pred? ($cdr xs)))
+                         #f))]
+                  [(with-args) ; calls `k` if the arguments are valid
+                   (lambda (who f xss k)
                      (if (procedure? f)
                          (letrec-values ([(loop)
                                           (lambda (prev-len xss)
                                             (if (null? xss)
-                                                (void)
+                                                (k)
                                                 (if (list? ($car xss))
                                                     (let-values ([(len) ($length ($car xss))])
                                                       (if (if prev-len
@@ -1024,62 +1026,54 @@
       ;; for-each
       (case-lambda
         [(f xs)
-         (check-args! 'for-each f (list xs))
-         (for-each1 f xs)]
+         (with-args 'for-each f (list xs) (lambda () (for-each1 f xs)))]
         [(f xs . xss)
-         (check-args! 'for-each f (cons xs xss))
          (letrec-values ([(loop)
-                             (lambda (xss)
-                                (if (ormap1 null? xss)
-                                    (void)
-                                    (begin
-                                      (apply f (map1 $car xss))
-                                      (loop (map1 $cdr xss)))))])
-           (loop (cons xs xss)))])
+                          (lambda (xss)
+                            (if (andmap1 pair? xss)
+                                (begin
+                                  (apply f (map1 $car xss))
+                                  (loop (map1 $cdr xss)))
+                                (void)))])
+           (with-args 'for-each f (cons xs xss) (lambda () (loop (cons xs xss)))))])
       ;; map
       (case-lambda
         [(f xs)
-         (check-args! 'map f (list xs))
-         (map1 f xs)]
+         (with-args 'map f (list xs) (lambda () (map1 f xs)))]
         [(f xs . xss)
-         (check-args! 'map f (cons xs xss))
          (letrec-values ([(loop)
                           (lambda (xss acc)
-                             (if (ormap1 null? xss)
-                                 (reverse acc)
-                                 (loop (map1 $cdr xss)
-                                       (cons (apply f (map1 $car xss)) acc))))])
-           (loop (cons xs xss) '()))])
+                            (if (andmap1 pair? xss)
+                                (loop (map1 $cdr xss)
+                                      (cons (apply f (map1 $car xss)) acc))
+                                (reverse acc)))])
+           (with-args 'map f (cons xs xss) (lambda () (loop (cons xs xss) '()))))])
       ;; andmap
       (case-lambda
         [(f xs)
-         (check-args! 'andmap f (list xs))
-         (andmap1 f xs)]
+         (with-args 'andmap f (list xs) (lambda () (andmap1 f xs)))]
         [(f xs . xss)
-         (check-args! 'andmap f (cons xs xss))
          (letrec-values ([(loop)
                           (lambda (xss)
-                             (if (ormap1 null? xss)
-                                 #t
-                                 (if (apply f (map1 $car xss))
-                                     (loop (map1 $cdr xss))
-                                     #f)))])
-           (loop (cons xs xss)))])
+                            (if (andmap1 pair? xss)
+                                (if (apply f (map1 $car xss))
+                                    (loop (map1 $cdr xss))
+                                    #f)
+                                #t))])
+           (with-args 'andmap f (cons xs xss) (lambda () (loop (cons xs xss)))))])
       ;; ormap
       (case-lambda
         [(f xs)
-         (check-args! 'ormap f (list xs))
-         (ormap1 f xs)]
+         (with-args 'ormap f (list xs) (lambda () (ormap1 f xs)))]
         [(f xs . xss)
-         (check-args! 'ormap f (cons xs xss))
          (letrec-values ([(loop)
                           (lambda (xss)
-                             (if (ormap1 null? xss)
-                                 #f
-                                 (if (apply f (map1 $car xss))
-                                     #t
-                                     (loop (map1 $cdr xss)))))])
-           (loop (cons xs xss)))]))))
+                            (if (andmap1 pair? xss)
+                                (if (apply f (map1 $car xss))
+                                    #t
+                                    (loop (map1 $cdr xss)))
+                                #f))])
+           (with-args 'ormap f (cons xs xss) (lambda () (loop (cons xs xss)))))]))))
 
 (define-values (iota)
   (lambda (n)
@@ -1114,18 +1108,14 @@
   (lambda args ($list->vector args)))
 
 (define-values (make-vector)
-  (let-values ([(check-length!)
-                (lambda (n)
-                  (if (non-negative-integer? n)
-                      (void)
-                      (raise-argument-error 'make-vector "non-negative-integer?" n)))])
+  (letrec-values ([(make)
+                   (lambda (n fill)
+                     (if (non-negative-integer? n)
+                         ($make-vector n fill)
+                         (raise-argument-error 'make-vector "non-negative-integer?" n)))])
     (case-lambda
-      [(n)
-       (check-length! n)
-       ($make-vector n 0)]
-      [(n fill)
-       (check-length! n)
-       ($make-vector n fill)])))
+      [(n) (make n 0)]
+      [(n fill) (make n fill)])))
 
 (define-values (vector-length)
   (lambda (v)
@@ -1244,23 +1234,20 @@
                                        #f))
                                 #f))
                          #f))]
-                  [(check-args!)
-                   (lambda (name parent uid sealed? opaque? fields)
+                  [(with-args) ; calls `k` if the arguments are valid
+                   (lambda (name parent uid sealed? opaque? fields k)
                      (if (symbol? name)
-                         (if (if (record-type-descriptor? parent)
-                                 (begin
-                                   (if ($record-type-sealed? parent)
-                                       (raise-argument-error
-                                         'make-record-type-descriptor
-                                         "non-sealed record type"
-                                         parent)
-                                       #t))
-                                 (not parent))
+                         (if (if (record-type-descriptor? parent) #t (not parent))
+                             (if (if parent ($record-type-sealed? parent) #f)
+                             (raise-argument-error
+                               'make-record-type-descriptor
+                               "non-sealed record type"
+                               parent)
                              (if (if (symbol? uid) #t (not uid))
                                  (if (boolean? sealed?)
                                      (if (boolean? opaque?)
                                          (if (vector? fields)
-                                            (check-fields! fields)
+                                            (with-fields fields k)
                                             (raise-argument-error
                                               'make-record-type-descriptor
                                               "vector?"
@@ -1276,7 +1263,7 @@
                                  (raise-argument-error
                                    'make-record-type-descriptor
                                    "symbol? or #f"
-                                   uid))
+                                   uid)))
                              (raise-argument-error
                                'make-record-type-descriptor
                                "record-type-descriptor? or #f"
@@ -1285,43 +1272,47 @@
                            'make-record-type-descriptor
                            "symbol?"
                            name)))]
-                  [(check-fields!)
-                   (lambda (fields)
-                     (letrec-values ([(ids) '()])
-                       (for-each
-                         (lambda (i)
-                           (let-values ([(maybe-id) (field-id ($vector-ref fields i))])
-                             (if maybe-id
-                                 (if (ormap (lambda (id) (eq? maybe-id id)) ids)
-                                     (raise-argument-error
-                                       'make-record-type-descriptor
-                                       "duplicate field"
-                                       maybe-id)
-                                     (set! ids (cons maybe-id ids)))
-                                 (raise-argument-error
-                                   'make-record-type-descriptor
-                                   "invalid field; '(immutable <name>) or '(mutable <name>)"
-                                   ($vector-ref fields i)))))
-                         (iota ($vector-length fields)))))])
+                  [(with-fields) ; calls `k` if the fields are valid
+                   (lambda (fields k)
+                     (letrec-values ([(loop)
+                                      (lambda (i ids)
+                                        (if (= i ($vector-length fields))
+                                            (k)
+                                            (let-values ([(maybe-id) (field-id ($vector-ref fields i))])
+                                              (if maybe-id
+                                                  (if (ormap (lambda (id) (eq? maybe-id id)) ids)
+                                                      (raise-argument-error
+                                                        'make-record-type-descriptor
+                                                        "duplicate field"
+                                                        maybe-id)
+                                                      (loop (add1 i) (cons maybe-id ids)))
+                                                  (raise-argument-error
+                                                    'make-record-type-descriptor
+                                                    "invalid field; '(immutable <name>) or '(mutable <name>)"
+                                                    ($vector-ref fields i))))))])
+                       (loop 0 '())))]
+                  [(make)
+                   (lambda (name parent uid sealed? opaque? fields)
+                   (let-values ([(rtd) ($make-record-type-descriptor name parent uid sealed? opaque? fields)])
+                     (if parent
+                         (let-values ([(rec-equal?) (record-type-equal-procedure parent)]
+                                      [(rec-hash) (record-type-hash-procedure parent)]
+                                      [(rec-writer) (record-writer parent)])
+                           (if rec-equal?
+                               (record-type-equal-procedure rtd rec-equal?)
+                               (void))
+                           (if rec-hash
+                               (record-type-hash-procedure rtd rec-hash)
+                               (void))
+                           (if rec-writer
+                               (record-writer rtd rec-writer)
+                               (void)))
+                         (void))
+                     rtd))])
     (lambda (name parent uid sealed? opaque? fields)
-      (check-args! name parent uid sealed? opaque? fields)
-      (let-values ([(rtd) ($make-record-type-descriptor name parent uid sealed? opaque? fields)])
-        (if parent
-            (let-values ([(rec-equal?) (record-type-equal-procedure parent)]
-                         [(rec-hash) (record-type-hash-procedure parent)]
-                         [(rec-writer) (record-writer parent)])
-              (if rec-equal?
-                  (record-type-equal-procedure rtd rec-equal?)
-                  (void))
-              (if rec-hash
-                  (record-type-hash-procedure rtd rec-hash)
-                  (void))
-              (if rec-writer
-                  (record-writer rtd rec-writer)
-                  (void)))
-            (void))
-        rtd))))
-      
+      (with-args name parent uid sealed? opaque? fields
+        (lambda () (make name parent uid sealed? opaque? fields))))))
+
 (define-values (record-type-name
                 record-type-parent
                 record-type-uid
@@ -1499,17 +1490,16 @@
         (raise-argument-error 'hashtable-size "hashtable?" ht))))
 
 (define-values (hashtable-entries hashtable-keys hashtable-vals)
-  (let-values ([(check-arg!)
-                (lambda (name ht)
+  (let-values ([(with-arg) ; calls `k` if the argument is valid
+                (lambda (name ht k)
                   (if (hashtable? ht)
-                      (void)
+                      (k ($hashtable-store ht))
                       (raise-argument-error name "hashtable?" ht)))])
     (values
       ; hashtable-entries
       (lambda (ht)
-        (check-arg! 'hashtable-entries ht)
-        (letrec-values ([(store) ($hashtable-store ht)]
-                        [(size) ($hashtable-size store)]
+        (with-arg 'hashtable-entries ht (lambda (store)
+        (letrec-values ([(size) ($hashtable-size store)]
                         [(keys) ($make-vector size #f)]
                         [(vals) ($make-vector size #f)]
                         [(loop) (lambda (cells i)
@@ -1519,12 +1509,11 @@
                                         (vector-set! keys i ($caar cells))
                                         (vector-set! vals i ($cdar cells))
                                         (loop ($cdr cells) (add1 i)))))])
-          (loop ($hashtable-cells store) 0)))
+          (loop ($hashtable-cells store) 0)))))
       ; hashtable-keys
       (lambda (ht)
-        (check-arg! 'hashtable-keys ht)
-        (letrec-values ([(store) ($hashtable-store ht)]
-                        [(size) ($hashtable-size store)]
+        (with-arg 'hashtable-keys ht (lambda (store)
+        (letrec-values ([(size) ($hashtable-size store)]
                         [(keys) ($make-vector size #f)]
                         [(loop) (lambda (cells i)
                                   (if (null? cells)
@@ -1532,12 +1521,11 @@
                                       (begin
                                         (vector-set! keys i ($caar cells))
                                         (loop ($cdr cells) (add1 i)))))])
-          (loop ($hashtable-cells store) 0)))
+          (loop ($hashtable-cells store) 0)))))
       ; hashtable-vals
       (lambda (ht)
-        (check-arg! 'hashtable-vals ht)
-        (letrec-values ([(store) ($hashtable-store ht)]
-                        [(size) ($hashtable-size store)]
+        (with-arg 'hashtable-vals ht (lambda (store)
+        (letrec-values ([(size) ($hashtable-size store)]
                         [(vals) ($make-vector size #f)]
                         [(loop) (lambda (cells i)
                                   (if (null? cells)
@@ -1545,7 +1533,7 @@
                                       (begin
                                         (vector-set! vals i ($cdar cells))
                                         (loop ($cdr cells) (add1 i)))))])
-          (loop ($hashtable-cells store) 0))))))
+          (loop ($hashtable-cells store) 0))))))))
 
 
 (define-values (hashtable-contains?
@@ -2190,12 +2178,12 @@
 
 (define-values (fprintf printf eprintf format)
   (letrec-values ([(fmt-args)
-                   (lambda (who fmt)
+                   (lambda (who fmt k)
                      (letrec-values ([(len) (string-length fmt)]
                                      [(loop)
                                       (lambda (n args)
                                         (if (>= n len)
-                                            (reverse args)
+                                            (k (reverse args))
                                             (let-values ([(c) (string-ref fmt n)])
                                               (if (eq? c #\~)
                                                   (if (>= (+ n 1) len)
@@ -2213,21 +2201,16 @@
                                                   (loop (+ n 1) args)))))])
                        (loop 0 '())))]                                                
       
-                  [(check-format!)
-                   (lambda (who fmt args)
+                  [(with-format) ; calls `k` if the format string and its arguments are valid
+                   (lambda (who fmt args k)
                      (if (string? fmt)
-                         (void)
-                         (raise-argument-error who "string?" fmt))
-                     (let-values ([(fmt-preds) (fmt-args who fmt)])
-                       (if (= (length fmt-preds) (length args))
-                           (for-each
-                             (lambda (fmt-pred arg)
-                               (if (if fmt-pred (fmt-pred arg) #t)
-                                   (void)
-                                   (errorf who "format argument ~a, given unexpected value ~a" fmt-pred arg)))
-                             fmt-preds args)
-                           (errorf who "format string requires ~a argument, given ~a" (length fmt-preds) (length args)))))]
-                                        
+                         (fmt-args who fmt
+                           (lambda (fmt-preds)
+                             (if (= (length fmt-preds) (length args))
+                                 (k)
+                                 (errorf who "format string requires ~a argument, given ~a" (length fmt-preds) (length args)))))
+                         (raise-argument-error who "string?" fmt)))]
+
                   [(do-format)
                    (lambda (p fmt args)
                      (letrec-values ([(len) (string-length fmt)]
@@ -2261,24 +2244,21 @@
       ; fprintf
       (lambda (p fmt . args)
         (if (output-port? p)
-            (begin
-              (check-format! 'fprintf fmt args)
-              (do-format p fmt args))
+            (with-format 'fprintf fmt args (lambda () (do-format p fmt args)))
             (raise-argument-error 'fprintf "output port?" p)))
       ; printf
       (lambda (fmt . args)
-        (check-format! 'printf fmt args)
-        (do-format (current-output-port) fmt args))
+        (with-format 'printf fmt args (lambda () (do-format (current-output-port) fmt args))))
       ; eprintf
       (lambda (fmt . args)
-        (check-format! 'eprintf fmt args)
-        (do-format (current-error-port) fmt args))
+        (with-format 'eprintf fmt args (lambda () (do-format (current-error-port) fmt args))))
       ; format
       (lambda (fmt . args)
-        (check-format! 'format fmt args)
-        (let-values ([(p) (open-output-string)])
-          (do-format p fmt args)
-          (get-output-string p))))))
+        (with-format 'format fmt args
+          (lambda ()
+            (let-values ([(p) (open-output-string)])
+              (do-format p fmt args)
+              (get-output-string p))))))))
                                         
 
 ;; --------------------------------------------------------
-- 
2.43.0


From 81cb4bc410ee0317f4875baf024226f6c18e9b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:57 +0000
Subject: [PATCH 78/92] fix: an environment does not report names that its
 procedures only mention, nor a name twice, and a value bound is never taken
 for the failure result

---
 src/core/c/env.c       | 11 ++++++++---
 src/core/s/prelude.min |  5 +++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/core/c/env.c b/src/core/c/env.c
index 41a322a..092ff64 100644
--- a/src/core/c/env.c
+++ b/src/core/c/env.c
@@ -27,6 +27,10 @@ mobj Mtop_env(size_t size_hint) {
     return env;
 }
 
+// Is `cell` the cell of a name with a value?
+// (a procedure makes a cell for each top-level name it mentions)
+#define cell_boundp(cell)   (!minim_falsep(cell) && minim_cdar(cell) != minim_unbound)
+
 mobj top_env_copy(mobj env, int mutablep) {
     mobj env2, nb, b, cell;
     size_t i;
@@ -84,7 +88,7 @@ mobj top_env_copy2(mobj env, mobj syms, int mutablep) {
 
     for (; !minim_nullp(syms); syms = minim_cdr(syms)) {
         cell = top_env_find(env, minim_car(syms));
-        if (!minim_falsep(cell)) {
+        if (cell_boundp(cell) && minim_falsep(top_env_find(env2, minim_car(syms)))) {
             i = minim_fixnum(minim_cadr(cell)) % minim_top_env_alloc(env2);
             b = minim_top_env_bucket(env2, i);
             cell = Mcons(
@@ -161,7 +165,8 @@ static mobj top_env_symbols(mobj env) {
         b = minim_top_env_bucket(env, i);
         for (; !minim_nullp(b); b = minim_cdr(b)) {
             cell = minim_car(b);
-            syms = Mcons(minim_caar(cell), syms);
+            if (cell_boundp(cell))
+                syms = Mcons(minim_caar(cell), syms);
         }
     }
 
@@ -236,7 +241,7 @@ mobj environment_names(mobj env) {
 mobj environment_variable_ref(mobj env, mobj k, mobj fail) {
     // (-> environment symbol any)
     mobj cell = top_env_find(env, k);
-    return minim_falsep(cell) ? fail : minim_cdar(cell);
+    return cell_boundp(cell) ? minim_cdar(cell) : fail;
 }
 
 mobj environment_variable_set(mobj env, mobj k, mobj v) {
diff --git a/src/core/s/prelude.min b/src/core/s/prelude.min
index eab0325..2823007 100644
--- a/src/core/s/prelude.min
+++ b/src/core/s/prelude.min
@@ -2354,12 +2354,13 @@
   (letrec-values ([(default-fail)
                    (lambda (env k)
                      (raise-missing-error 'environment-ref "key" env k))]
+                  [(none) (box #f)]
                   [(1/environment-ref)
                    (lambda (env k fail)
                      (if (environment? env)
                          (if (symbol? k)
-                             (let-values ([(v) ($environment-ref env k fail)])
-                               (if (eq? v fail)
+                             (let-values ([(v) ($environment-ref env k none)])
+                               (if (eq? v none)
                                    (if (procedure? fail)
                                        (fail)
                                        fail)
-- 
2.43.0


From 409729203272555abcba4c82c4e216778b8688a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:57 +0000
Subject: [PATCH 79/92] fix: set! of a top-level variable that a procedure
 mentions but nothing has defined is an error

---
 src/core/c/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index 96b7362..b6c1e61 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -338,7 +338,7 @@ static mobj tl_env_lookup_cell(mobj tc, mobj id) {
 
 static void tl_env_rebind(mobj tc, mobj id, mobj val) {
     mobj cell = top_env_find(tc_tenv(tc), id);
-    if (minim_falsep(cell))
+    if (minim_falsep(cell) || minim_unboundp(minim_cdar(cell)))
         minim_error1(NULL, "cannot set variable before its definition", id);
     minim_cdar(cell) = val;
 }
-- 
2.43.0


From 651d59bd5e260ea2bca5870ac560f4e1a7faf6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:17 +0000
Subject: [PATCH 80/92] fix: current-directory reports the absolute path of the
 directory it was set to

---
 src/core/c/system.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/c/system.c b/src/core/c/system.c
index b13a71c..1e51056 100644
--- a/src/core/c/system.c
+++ b/src/core/c/system.c
@@ -69,7 +69,8 @@ void set_current_dir(const char *str) {
         minim_error1("set_current_dir", "could not set current directory", Mstring(str));
     }
 
-    tc_directory(current_tc()) = Mstring(str);
+    // `str` may be relative to the previous directory
+    tc_directory(current_tc()) = Mstring(_get_current_dir());
 }
 
 char* get_current_dir() {
-- 
2.43.0


From 6fabc988d09b30050d98339496d67a2e20a8a571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:18 +0000
Subject: [PATCH 81/92] fix: the collection of minim-gc's GC_realloc keeps what
 the block references

---
 src/gc/minim-gc/gc-impl.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index 9532ebc..ffc0967 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -391,7 +391,14 @@ gc_realloc_record(gc_t *gc,
     r2 = realloc(r, size + sizeof(gc_record_t));
     if (r2 == NULL)
     {
+        // keep the block and everything it references
+        gc_record_root_set(r);
+        gc_add_record(gc, r);
         gc_collect(gc);
+        gc_remove(gc, gc_record_ptr(r), 0);
+        if (!(flags & GC_RECORD_ROOT))
+            gc_record_root_unset(r);
+
         r2 = realloc(r, size + sizeof(gc_record_t));
         if (r2 == NULL)
             return NULL;
-- 
2.43.0


From a1dd6f341fe0a69e15bc91ce8c43245b1c7acc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:18 +0000
Subject: [PATCH 82/92] fix: minim-gc keeps its table of blocks if there is no
 memory for a larger one

---
 src/gc/minim-gc/gc-impl.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index ffc0967..af8e78c 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -86,13 +86,18 @@ insert_record(gc_t *gc,
 static void
 gc_resize(gc_t *gc,
           size_t *alloc_ptr) {
-    gc_record_t **old_buckets = gc->buckets;
+    gc_record_t **old_buckets = gc->buckets, **new_buckets;
     size_t old_alloc = gc->alloc;
 
+    // keep the current table if there is no memory for another
+    new_buckets = (gc_record_t **) calloc(*alloc_ptr, sizeof(gc_record_t*));
+    if (new_buckets == NULL)
+        return;
+
     // update size and create new buckets
     gc->alloc_ptr = alloc_ptr;
     gc->alloc = *gc->alloc_ptr;
-    gc->buckets = (gc_record_t **) calloc(gc->alloc, sizeof(gc_record_t*));
+    gc->buckets = new_buckets;
 
     // rehash
     for (size_t i = 0; i < old_alloc; ++i) {
-- 
2.43.0


From 770cf9b050162526b659a3c5df11b9471315a87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:18 +0000
Subject: [PATCH 83/92] fix: minim-gc marks long chains of blocks without
 recursion

---
 src/gc/minim-gc/gc-impl.c  | 65 ++++++++++++++++++++++++++++++--------
 src/gc/minim-gc/gc-types.h |  2 ++
 2 files changed, 53 insertions(+), 14 deletions(-)

diff --git a/src/gc/minim-gc/gc-impl.c b/src/gc/minim-gc/gc-impl.c
index af8e78c..252e521 100644
--- a/src/gc/minim-gc/gc-impl.c
+++ b/src/gc/minim-gc/gc-impl.c
@@ -130,6 +130,45 @@ gc_shrink_if_needed(gc_t *gc) {
         gc_resize(gc, ideal_ptr);
 }
 
+static void gc_mark_ptr(gc_t *gc, void *ptr);
+
+// Marks everything the block references.
+static void
+gc_mark_contents(gc_t *gc,
+                 gc_record_t *r) {
+    if (!r->mrk) {                                      // default (conservative)
+        for (size_t k = 0; k < r->size / POINTER_SIZE; ++k)
+            gc_mark_ptr(gc, ptr_arr_ref(gc_record_ptr(r), k));
+    } else if (r->mrk != (gc_mark_t) GC_atomic_mrk) {    // custom marker
+        r->mrk(gc_mark_ptr, gc, gc_record_ptr(r));
+    }
+}
+
+// Schedules a marked block for `gc_mark_pending`.
+// Returns 0 if there is no memory to do so.
+static int
+gc_mark_later(gc_t *gc,
+              gc_record_t *r) {
+    if (gc->pending_size == gc->pending_alloc) {
+        size_t alloc = gc->pending_alloc ? 2 * gc->pending_alloc : 1024;
+        gc_record_t **pending = realloc(gc->pending, alloc * sizeof(gc_record_t*));
+        if (!pending)
+            return 0;
+
+        gc->pending = pending;
+        gc->pending_alloc = alloc;
+    }
+
+    gc->pending[gc->pending_size++] = r;
+    return 1;
+}
+
+static void
+gc_mark_pending(gc_t *gc) {
+    while (gc->pending_size > 0)
+        gc_mark_contents(gc, gc->pending[--gc->pending_size]);
+}
+
 static void
 gc_mark_ptr(gc_t *gc,
             void *ptr) {
@@ -151,13 +190,9 @@ gc_mark_ptr(gc_t *gc,
             // set mark flag
             gc_record_mark_set(r);
 
-            // recurse into pointer block
-            if (!r->mrk) {                                      // default (conservative)
-                for (size_t k = 0; k < r->size / POINTER_SIZE; ++k)
-                    gc_mark_ptr(gc, ptr_arr_ref(gc_record_ptr(r), k));
-            } else if (r->mrk != (gc_mark_t) GC_atomic_mrk) {    // custom marker
-                r->mrk(gc_mark_ptr, gc, gc_record_ptr(r));
-            }
+            // mark pointer block (recurse only if there is no other way)
+            if (!gc_mark_later(gc, r))
+                gc_mark_contents(gc, r);
 
             return;
         }
@@ -171,8 +206,10 @@ gc_mark_stack(gc_t *gc) {
 
     b = gc->stack_bottom;
     t = &b;
-    for (void *p = t; p <= b; p += POINTER_SIZE)
+    for (void *p = t; p <= b; p += POINTER_SIZE) {
         gc_mark_ptr(gc, ptr_ref(p));
+        gc_mark_pending(gc);
+    }
 }
 
 static void
@@ -189,12 +226,8 @@ gc_mark(gc_t *gc) {
         for (gc_record_t *r = gc->buckets[i]; r; r = gc_record_next(r)) {
             if (gc_record_rootp(r)) {
                 gc_record_mark_set(r);
-                if (!r->mrk) {                                      // default (conservative)
-                    for (size_t k = 0; k < r->size / POINTER_SIZE; ++k)
-                        gc_mark_ptr(gc, ptr_arr_ref(gc_record_ptr(r), k));
-                } else if (r->mrk != (gc_mark_t) GC_atomic_mrk) {    // custom marker
-                    r->mrk(gc_mark_ptr, gc, gc_record_ptr(r));
-                }
+                gc_mark_contents(gc, r);
+                gc_mark_pending(gc);
             }
         }
     }
@@ -259,6 +292,9 @@ gc_create(void *stack) {
     gc->size = 0;
     gc->dirty = 0;
     gc->allocs = 0;
+    gc->pending = NULL;
+    gc->pending_size = 0;
+    gc->pending_alloc = 0;
     gc->flags = GC_COLLECT;
 
     return gc;
@@ -276,6 +312,7 @@ gc_destroy(gc_t* gc) {
     
     // free up gc structure
     gc_sweep(gc);
+    free(gc->pending);
     free(gc->buckets);
     free(gc);
 }
diff --git a/src/gc/minim-gc/gc-types.h b/src/gc/minim-gc/gc-types.h
index 4dce149..4058e7a 100644
--- a/src/gc/minim-gc/gc-types.h
+++ b/src/gc/minim-gc/gc-types.h
@@ -31,6 +31,8 @@ typedef struct gc_t {
     size_t *alloc_ptr;
     size_t alloc, size;
     size_t allocs, dirty;
+    gc_record_t **pending;
+    size_t pending_size, pending_alloc;
     uint8_t flags;
 } gc_t;
 
-- 
2.43.0


From 3765e37ef200597731418d02104acde20aff622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:09 +0000
Subject: [PATCH 84/92] fix: minim-gc keeps code while it is evaluated and
 while a continuation returns to it

---
 src/core/c/eval.c  | 21 +++++++++++++--------
 src/core/c/frame.c |  3 ++-
 src/core/minim.h   |  6 ++++--
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/core/c/eval.c b/src/core/c/eval.c
index b6c1e61..40acf4c 100644
--- a/src/core/c/eval.c
+++ b/src/core/c/eval.c
@@ -137,7 +137,8 @@ static mobj pop_arg(mobj tc) {
     return x;
 }
 
-static void push_frame(mobj tc, mobj pc) {
+// Saves the current procedure call; `pc` is an instruction of `code`.
+static void push_frame(mobj tc, mobj code, mobj pc) {
     mobj cc;
     size_t size;
 
@@ -146,7 +147,7 @@ static void push_frame(mobj tc, mobj pc) {
     size = 1 + tc_ac(tc);
 
     // update current continuation, frame pointer, and argument count
-    tc_ccont(tc) = Mcontinuation(cc, pc, tc_env(tc), tc);
+    tc_ccont(tc) = Mcontinuation(cc, code, pc, tc_env(tc), tc);
     tc_sfp(tc) = ptr_add(tc_sfp(tc), size * ptr_size);
     tc_ra(tc) = pc;
     tc_cp(tc) = minim_void;
@@ -446,7 +447,8 @@ static void store_reg(mobj tc, mobj *tregs, mobj ins, mobj idx, mobj val) {
 //  Evaluator
 //
 
-static mobj eval_istream(mobj tc, mobj *istream) {
+static mobj eval_code(mobj tc, mobj code) {
+    mobj *istream;  // next instruction of `code`
     mobj ins, ty;   // instruction stream, instruction type
     mobj cc;        // current continuation
     mobj penv;      // run-time environment upon entry
@@ -473,12 +475,14 @@ static mobj eval_istream(mobj tc, mobj *istream) {
     // called during the evaluation of another expression:
     // needs a frame of its own, with no instructions to return to
     if (!minim_nullp(tc_ccont(tc)))
-        push_frame(tc, NULL);
+        push_frame(tc, NULL, NULL);
 
     tc_ra(tc) = NULL;
     tc_cp(tc) = minim_void;
     tc_ac(tc) = 0;
 
+    istream = minim_code_it(code);
+
     // need to stash for when we exit this function
     penv = tc_env(tc);
 
@@ -581,7 +585,7 @@ application:
         tc_env(tc) = Menv(minim_fixnum(minim_cadr(ins)));
     } else if (ty == save_cc_symbol) {
         // save-cc
-        push_frame(tc, (mobj) minim_fixnum(minim_cadr(ins)));
+        push_frame(tc, code, (mobj) minim_fixnum(minim_cadr(ins)));
     } else if (ty == get_arg_symbol) {
         // (get-arg <reg> <stack index>)
         v0 = tc_frame_ref(tc, minim_fixnum(minim_car(minim_cddr(ins))));
@@ -676,7 +680,8 @@ application:
 // call closure
 call_closure:
     // set instruction stream and env
-    istream = minim_code_it(minim_closure_code(tc_cp(tc)));
+    code = minim_closure_code(tc_cp(tc));
+    istream = minim_code_it(code);
     tc_env(tc) = minim_closure_env(tc_cp(tc));
     // don't clear either the current procedure or argument count
     // since this is required for binding and arity check
@@ -716,6 +721,7 @@ restore_frame:
         shrink_stack(tc);
 
     // restore instruction stream and environment
+    code = continuation_code(cc);
     istream = continuation_pc(cc);
     tc_env(tc) = continuation_env(cc);
 
@@ -737,6 +743,5 @@ not_procedure:
 }
 
 mobj eval_expr(mobj tc, mobj expr) {
-    mobj code = compile_expr(expr);
-    return eval_istream(tc, minim_code_it(code));
+    return eval_code(tc, compile_expr(expr));
 }
diff --git a/src/core/c/frame.c b/src/core/c/frame.c
index 635a7b8..4bde92e 100644
--- a/src/core/c/frame.c
+++ b/src/core/c/frame.c
@@ -2,7 +2,7 @@
 
 #include "../minim.h"
 
-mobj Mcontinuation(mobj prev, mobj pc, mobj env, mobj tc) {
+mobj Mcontinuation(mobj prev, mobj code, mobj pc, mobj env, mobj tc) {
     mobj o = GC_alloc(continuation_size);
     minim_type(o) = MINIM_OBJ_CONTINUATION;
     continuation_prev(o) = prev;
@@ -11,6 +11,7 @@ mobj Mcontinuation(mobj prev, mobj pc, mobj env, mobj tc) {
     continuation_sfp(o) = tc_sfp(tc);
     continuation_cp(o) = tc_cp(tc);
     continuation_ac(o) = tc_ac(tc);
+    continuation_code(o) = code;
     return o;
 }
 
diff --git a/src/core/minim.h b/src/core/minim.h
index b915782..5c4722a 100644
--- a/src/core/minim.h
+++ b/src/core/minim.h
@@ -451,8 +451,9 @@ extern mobj minim_unbound;
 // |    sfp     | [32, 40)
 // |    cp      | [40, 48)
 // |    ac      | [48, 56)
+// |   code     | [56, 64)
 // +------------+
-#define continuation_size           (7 * ptr_size)
+#define continuation_size           (8 * ptr_size)
 #define minim_continuationp(o)      (minim_type(o) == MINIM_OBJ_CONTINUATION)
 #define continuation_prev(c)        (*((mobj*) ptr_add(c, ptr_size)))
 #define continuation_pc(c)          (*((mobj*) ptr_add(c, 2 * ptr_size)))
@@ -460,6 +461,7 @@ extern mobj minim_unbound;
 #define continuation_sfp(c)         (*((mobj**) ptr_add(c, 4 * ptr_size)))
 #define continuation_cp(c)          (*((mobj*) ptr_add(c, 5 * ptr_size)))
 #define continuation_ac(c)          (*((size_t*) ptr_add(c, 6 * ptr_size)))
+#define continuation_code(c)        (*((mobj*) ptr_add(c, 7 * ptr_size)))
 
 // Procedures
 
@@ -485,7 +487,7 @@ mobj Mrecord(mobj rtd, int fieldc);
 mobj Mhashtable(size_t size_hint);
 mobj Menv(size_t size);
 mobj Mtop_env(size_t size_hint);
-mobj Mcontinuation(mobj prev, mobj pc, mobj env, mobj tc);
+mobj Mcontinuation(mobj prev, mobj code, mobj pc, mobj env, mobj tc);
 
 // Object
 
-- 
2.43.0


From a219a460f6ba7ff002430a3a6e65b96fb9a13898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:20 +0000
Subject: [PATCH 85/92] fix: module.min gives every spelling of a module's path
 one module instance

---
 src/boot/s/boot.min    |  9 +++++----
 src/library/module.min | 44 +++++++++++++++++++++++++++---------------
 2 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index ffc8885..39366ee 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -126,14 +126,15 @@
 (define-values ($module-table) (make-hashtable))
 (define-values ($module-envs) (make-hashtable))
 (define-values ($module-internals) (make-hashtable))
-(define-values ($load-module) (lambda (path print-handler result-handler) (letrec-values (((new-cwd) (car (split-path path))) ((scope) (scope-extend $base-scope)) ((exported) (quote ())) ((imported) (quote ())) ((imported-xforms) (quote ())) ((imported-modules) (quote ())) ((stx-env) #f) ((module-xforms) (quote ())) (($read) (lambda () (letrec-values (((p) (open-input-file path))) (letrec-values (((loop) (lambda (exprs) (letrec-values (((datum) (read p))) (if (eof-object? datum) (let-values () (close-input-port p) (reverse exprs)) (loop (cons datum exprs))))))) (loop (quote ())))))) (($import) (lambda (exprs) (letrec-values (((loop) (lambda (exprs evalable) (if (null? exprs) (reverse evalable) (let-values () (letrec-values (((expr) (syntax-e (car exprs)))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote import)) #f) (letrec-values (((loop2) (lambda (imports) (if (null? imports) (loop (cdr exprs) evalable) (if (pair? imports) (let-values () (letrec-values (((maybe-import) (syntax-e (car imports))) ((path) (build-path new-cwd maybe-import))) (if (string? maybe-import) (let-values () ($load-or-import path print-handler result-handler) (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! imported-modules (cons path imported-modules)) (values))) (() (let-values () (set! imported-xforms (merge-xforms imported-xforms (car from-module))) (values))) (() (let-values () (set! imported (append (cdr from-module) imported)) (values))) (() (let-values () (for-each (lambda (name) (scope-add! scope name)) (map car (cdr from-module))) (values)))) (loop2 (cdr imports)))) (raise-syntax-error (quote import) "bad import syntax" (car exprs) (car imports))))) (raise-syntax-error (quote import) "bad import syntax" (car exprs))))))) (loop2 (cdr expr))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote export)) #f) (letrec-values (((loop2) (lambda (exports) (if (null? exports) (loop (cdr exprs) evalable) (if (pair? exports) (let-values () (letrec-values (((maybe-export) (syntax-e (car exports)))) (if (symbol? maybe-export) (let-values () (set! exported (cons maybe-export exported)) (loop2 (cdr exports))) (if (pair? maybe-export) (if (eq? (syntax-e (car maybe-export)) (quote all)) (let-values () (letrec-values (((module-name) (syntax-e (cadr maybe-export))) ((path) (build-path new-cwd module-name))) (if (if (string? module-name) (if (null? (cddr maybe-export)) (member path imported-modules) #f) #f) (let-values () (letrec-values (((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! exported (append (map car (car from-module)) (map car (cdr from-module)) exported)) (values)))) (loop2 (cdr exports)))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))) (raise-syntax-error (quote export) "bad export syntax" (car exports)))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))))) (loop2 (cdr expr))) (loop (cdr exprs) (cons (car exprs) evalable)))))))))) (loop exprs (quote ()))))) (($expand) (lambda (exprs) (set! stx-env ($base-stx-env ($eval-environment $base-env imported))) (letrec-values (((exprs* xforms*) (expand/module path exprs imported-xforms stx-env scope)) (() (let-values () (set! module-xforms xforms*) (values)))) exprs*))) ((raw-exprs) ($read)) ((non-import-exprs) ($import raw-exprs)) ((expanded-exprs) ($expand non-import-exprs))) (values expanded-exprs module-xforms imported exported stx-env scope))))
+(define-values ($module-path) (lambda (base name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path base name)))) (letrec-values (((loop) (lambda (elems accum) (if (null? elems) (apply build-path (reverse accum)) (if (equal? (car elems) ".") (loop (cdr elems) accum) (if (if (equal? (car elems) "/") (pair? accum) #f) (loop (cdr elems) accum) (if (if (equal? (car elems) "..") (pair? accum) #f) (loop (cdr elems) (if (equal? (car accum) "/") accum (cdr accum))) (loop (cdr elems) (cons (car elems) accum))))))))) (loop (path->list path) (quote ()))))))
+(define-values ($load-module) (lambda (path print-handler result-handler) (letrec-values (((new-cwd) (car (split-path path))) ((scope) (scope-extend $base-scope)) ((exported) (quote ())) ((imported) (quote ())) ((imported-xforms) (quote ())) ((imported-modules) (quote ())) ((stx-env) #f) ((module-xforms) (quote ())) (($read) (lambda () (letrec-values (((p) (open-input-file path))) (letrec-values (((loop) (lambda (exprs) (letrec-values (((datum) (read p))) (if (eof-object? datum) (let-values () (close-input-port p) (reverse exprs)) (loop (cons datum exprs))))))) (loop (quote ())))))) (($import) (lambda (exprs) (letrec-values (((loop) (lambda (exprs evalable) (if (null? exprs) (reverse evalable) (let-values () (letrec-values (((expr) (syntax-e (car exprs)))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote import)) #f) (letrec-values (((loop2) (lambda (imports) (if (null? imports) (loop (cdr exprs) evalable) (if (pair? imports) (let-values () (letrec-values (((maybe-import) (syntax-e (car imports)))) (if (string? maybe-import) (let-values () (letrec-values (((path) ($module-path new-cwd maybe-import)) (() (let-values () ($load-or-import path print-handler result-handler) (values))) ((from-module) (hashtable-ref $module-table path)) (() (let-values () (set! imported-modules (cons path imported-modules)) (values))) (() (let-values () (set! imported-xforms (merge-xforms imported-xforms (car from-module))) (values))) (() (let-values () (set! imported (append (cdr from-module) imported)) (values))) (() (let-values () (for-each (lambda (name) (scope-add! scope name)) (map car (cdr from-module))) (values)))) (loop2 (cdr imports)))) (raise-syntax-error (quote import) "bad import syntax" (car exprs) (car imports))))) (raise-syntax-error (quote import) "bad import syntax" (car exprs))))))) (loop2 (cdr expr))) (if (if (pair? expr) (eq? (syntax-e (car expr)) (quote export)) #f) (letrec-values (((loop2) (lambda (exports) (if (null? exports) (loop (cdr exprs) evalable) (if (pair? exports) (let-values () (letrec-values (((maybe-export) (syntax-e (car exports)))) (if (symbol? maybe-export) (let-values () (set! exported (cons maybe-export exported)) (loop2 (cdr exports))) (if (pair? maybe-export) (if (eq? (syntax-e (car maybe-export)) (quote all)) (let-values () (letrec-values (((module-name) (syntax-e (cadr maybe-export)))) (if (if (string? module-name) (if (null? (cddr maybe-export)) (member ($module-path new-cwd module-name) imported-modules) #f) #f) (let-values () (letrec-values (((from-module) (hashtable-ref $module-table ($module-path new-cwd module-name))) (() (let-values () (set! exported (append (map car (car from-module)) (map car (cdr from-module)) exported)) (values)))) (loop2 (cdr exports)))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))) (raise-syntax-error (quote export) "bad export syntax" (car exports)))))) (raise-syntax-error (quote export) "bad export syntax" (car exports))))))) (loop2 (cdr expr))) (loop (cdr exprs) (cons (car exprs) evalable)))))))))) (loop exprs (quote ()))))) (($expand) (lambda (exprs) (set! stx-env ($base-stx-env ($eval-environment $base-env imported))) (letrec-values (((exprs* xforms*) (expand/module path exprs imported-xforms stx-env scope)) (() (let-values () (set! module-xforms xforms*) (values)))) exprs*))) ((raw-exprs) ($read)) ((non-import-exprs) ($import raw-exprs)) ((expanded-exprs) ($expand non-import-exprs))) (values expanded-exprs module-xforms imported exported stx-env scope))))
 (define-values ($eval-environment) (lambda (env imports) (letrec-values (((env*) (copy-environment env #f))) (letrec-values (((loop) (lambda (imports) (if (null? imports) env* (let-values () (letrec-values (((name) (caar imports)) ((value) (cdar imports)) (() (let-values () (environment-set! env* name value) (values)))) (loop (cdr imports)))))))) (loop imports)))))
 (define-values ($eval-exprs) (lambda (exprs env print-handler) (letrec-values (((loop) (lambda (exprs result) (if (null? exprs) result (let-values () (letrec-values (((expr) (syntax->datum (car exprs)))) (call-with-values (lambda () (eval expr env)) (lambda results (letrec-values (((loop2) (lambda (results prev) (if (null? results) (loop (cdr exprs) prev) (let-values () (if (void? (car results)) (void) (let-values () (writeln (car results)))) (loop2 (cdr results) (car results))))))) (loop2 results (void))))))))))) (loop exprs (void)))))
 (define-values ($load-or-import-no-check) (lambda (path print-handler result-handler) (letrec-values (((exprs module-xforms imports exports stx-env scope) ($load-module path print-handler result-handler)) ((env) ($eval-environment $base-env imports)) ((last) ($eval-exprs exprs env print-handler)) ((export-values) (quote ())) ((export-xforms) (quote ())) (() (let-values () (letrec-values (((loop) (lambda (exports) (if (null? exports) (void) (let-values () (letrec-values (((export) (car exports)) ((maybe-xform) (assoc export module-xforms)) (() (let-values () (if maybe-xform (let-values () (letrec-values (((xform) (cdr maybe-xform))) (set! export-xforms (cons (cons export xform) export-xforms)))) (let-values () (letrec-values (((value) (environment-ref env export (lambda () (error (quote export) "undefined export" export))))) (set! export-values (cons (cons export value) export-values))))) (values)))) (loop (cdr exports)))))))) (loop exports)) (values))) (() (let-values () (hashtable-set! $module-table path (cons export-xforms export-values)) (values))) (() (let-values () (hashtable-set! $module-envs path (cons stx-env env)) (values))) (() (let-values () (hashtable-set! $module-internals path (list exprs module-xforms imports exports stx-env scope)) (values)))) (if result-handler (let-values () (result-handler last)) (void)))))
 (define-values ($repl) (lambda (env stx-env xforms scope) (letrec-values (((loop) (lambda (xforms) (display "> ") (letrec-values (((expr) (read)) (() (let-values () (if (eof-object? expr) (let-values () (exit)) (void)) (values))) ((expr* xforms*) (expand expr stx-env xforms scope)) (() (let-values () (call-with-values (lambda () (eval (syntax->datum expr*) env)) (lambda results (for-each (lambda (result) (if (void? result) (void) (let-values () (writeln result)))) results))) (values)))) (loop xforms*))))) (loop xforms))))
-(define-values ($load-or-import) (lambda (name print-handler result-handler) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name)))) (if (hashtable-contains? $module-table path) (void) (let-values () ($load-or-import-no-check path print-handler result-handler))))))
-(define-values (read/module) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name)))) ($load-module path #f #f))))
+(define-values ($load-or-import) (lambda (name print-handler result-handler) (letrec-values (((path) ($module-path (current-directory) name))) (if (hashtable-contains? $module-table path) (void) (let-values () ($load-or-import-no-check path print-handler result-handler))))))
+(define-values (read/module) (lambda (name) (letrec-values (((path) ($module-path (current-directory) name))) ($load-module path #f #f))))
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
-(define-values (enter!) (lambda (name) (letrec-values (((path) (if (is-absolute-path? name) name (build-path (current-directory) name))) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (car envs) #f) (copy-environment (cdr envs)) xforms scope))))
+(define-values (enter!) (lambda (name) (letrec-values (((path) ($module-path (current-directory) name)) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (car envs) #f) (copy-environment (cdr envs)) xforms scope))))
 (define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9))) (if (char? c) (<= 0-char (char->integer c) 9-char) #f)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (if (char? c) (char->integer c) -1))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-one))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? car comment) (read-pair open) (if (eq? c #\#) (let-values () (letrec-values (((next) (read-one))) (if (eq? next comment) (loop car) (cons car (loop next))))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-datum))) (letrec-values (((close) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (if (if (eq? c #\#) (eq? (read-one) comment) #f) (close) (error (quote read) "missing closing parenthesis"))))))) (close)))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-one))) (loop (if (eq? elem comment) elems (cons elem elems)))))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((read-named) (lambda (first rest char) (if (eq? (peek-char p) first) (let-values () (check-expected-string! rest) (assert-delimeter! (peek-char p)) char) (let-values () (assert-delimeter! (peek-char p)) c))))) (if (eq? c #\a) (read-named #\l "larm" (integer->char 7)) (if (eq? c #\b) (read-named #\a "ackspace" (integer->char 8)) (if (eq? c #\d) (read-named #\e "elete" (integer->char 127)) (if (eq? c #\e) (read-named #\s "sc" (integer->char 27)) (if (eq? c #\l) (read-named #\i "inefeed" #\newline) (if (eq? c #\n) (if (eq? (peek-char p) #\u) (read-named #\u "ul" (integer->char 0)) (read-named #\e "ewline" #\newline)) (if (eq? c #\p) (read-named #\a "age" (integer->char 12)) (if (eq? c #\r) (read-named #\e "eturn" (integer->char 13)) (if (eq? c #\s) (read-named #\p "pace" #\space) (if (eq? c #\t) (read-named #\a "ab" (integer->char 9)) (if (eq? c #\v) (read-named #\t "tab" (integer->char 11)) (let-values () (assert-delimeter! (peek-char p)) c))))))))))))))) ((digits->number) (lambda (digits) (letrec-values (((str) (apply string (reverse digits))) ((num) (string->number str)) (() (let-values () (if num (void) (let-values () (errorf (quote read) "number out of range: ~a" str))) (values)))) num))) ((read-number) (lambda (prefix) (letrec-values (((chars) prefix)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p))) (if (digit? c) (let-values () (set! chars (cons (read-char p) chars)) (read-digit!)) (if (symbol-char? c) (read-symbol chars) (let-values () (assert-delimeter! c) (digits->number chars)))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\a) (let-values () (read-char p) (loop (cons (integer->char 7) acc))) (if (eq? c #\b) (let-values () (read-char p) (loop (cons (integer->char 8) acc))) (if (eq? c #\t) (let-values () (read-char p) (loop (cons (integer->char 9) acc))) (if (eq? c #\v) (let-values () (read-char p) (loop (cons (integer->char 11) acc))) (if (eq? c #\f) (let-values () (read-char p) (loop (cons (integer->char 12) acc))) (if (eq? c #\r) (let-values () (read-char p) (loop (cons (integer->char 13) acc))) (if (eq? c #\') (let-values () (read-char p) (loop (cons #\' acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c))))))))))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((comment) (box #f)) ((read-loop) (lambda () (letrec-values (((datum) (read-one))) (if (eq? datum comment) (read-loop) datum)))) ((read-one) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-datum) (values)))) comment)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (datum->syntax (read-number (list c))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/module.min b/src/library/module.min
index a99ca91..f156cd6 100644
--- a/src/library/module.min
+++ b/src/library/module.min
@@ -17,6 +17,27 @@
 (define $module-envs (make-hashtable))
 (define $module-internals (make-hashtable))
 
+;; The path of the module `name` as seen from the directory `base`.
+;; Every spelling of a path (`a/../b.min`, `./b.min`) has
+;; the same result, since the module caches are keyed by path.
+(define ($module-path base name)
+  (define path
+    (if (is-absolute-path? name)
+        name
+        (build-path base name)))
+  (let loop ([elems (path->list path)] [accum '()])
+    (cond
+      [(null? elems)
+       (apply build-path (reverse accum))]
+      [(equal? (car elems) ".")
+       (loop (cdr elems) accum)]
+      [(and (equal? (car elems) "/") (pair? accum))
+       (loop (cdr elems) accum)]
+      [(and (equal? (car elems) "..") (pair? accum))
+       (loop (cdr elems) (if (equal? (car accum) "/") accum (cdr accum)))]
+      [else
+       (loop (cdr elems) (cons (car elems) accum))])))
+
 ;; Like `$load-module`, but does not check the cache
 (define ($load-module path print-handler result-handler)
   ;; paths
@@ -59,9 +80,9 @@
                  (loop (cdr exprs) evalable)]
                 [(pair? imports)
                  (define maybe-import (syntax-e (car imports)))
-                 (define path (build-path new-cwd maybe-import))
                  (cond
                    [(string? maybe-import)
+                    (define path ($module-path new-cwd maybe-import))
                     ($load-or-import path print-handler result-handler)
                     (define from-module (hashtable-ref $module-table path))
                     (set! imported-modules (cons path imported-modules))
@@ -88,12 +109,12 @@
                     (cond
                       [(eq? (syntax-e (car maybe-export)) 'all)
                        (define module-name (syntax-e (cadr maybe-export)))
-                       (define path (build-path new-cwd module-name))
                        (cond
                          [(and (string? module-name)
                                (null? (cddr maybe-export))
-                               (member path imported-modules))
-                          (define from-module (hashtable-ref $module-table path))
+                               (member ($module-path new-cwd module-name) imported-modules))
+                          (define from-module
+                            (hashtable-ref $module-table ($module-path new-cwd module-name)))
                           (set! exported (append (map car (car from-module))
                                                  (map car (cdr from-module))
                                                  exported))
@@ -216,20 +237,14 @@
 
 (define ($load-or-import name print-handler result-handler)
   ;; resolve path
-  (define path
-    (if (is-absolute-path? name)
-        name
-        (build-path (current-directory) name)))
+  (define path ($module-path (current-directory) name))
   ;; check cache first
   (unless (hashtable-contains? $module-table path)
     ($load-or-import-no-check path print-handler result-handler)))
 
 (define (read/module name)
   ;; resolve path
-  (define path
-    (if (is-absolute-path? name)
-        name
-        (build-path (current-directory) name)))
+  (define path ($module-path (current-directory) name))
   ($load-module path #f #f))
 
 ;; imports a file
@@ -244,10 +259,7 @@
 
 (define (enter! name)
   ;; resolve path
-  (define path
-    (if (is-absolute-path? name)
-        name
-        (build-path (current-directory) name)))
+  (define path ($module-path (current-directory) name))
   ;; set up environments
   (unless (hashtable-contains? $module-envs path)
     (error 'enter! "unknown module" name))
-- 
2.43.0


From 7a5dc936d5189420c4bfbbf7686928b1006f320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:44 +0000
Subject: [PATCH 86/92] fix: and, or, case and do use generated temporaries
 that cannot capture user variables

---
 src/boot/s/boot.min            | 14 +++++++-------
 src/library/private/and-or.min |  8 ++++----
 src/library/private/case.min   |  9 +++++----
 src/library/private/do.min     | 21 +++++++++++----------
 4 files changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 39366ee..2eda8f8 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -104,13 +104,13 @@
 (define-values (case-lambda-form?) (_-form? (quote case-lambda)))
 (define-values (begin-form?) (_-form? (quote begin)))
 (define-values (if-form?) (_-form? (quote if)))
-(define-values (stx-self-evaluating?) (lambda (stx) (letrec-values (((datum) (syntax-e stx))) (let-values (((or-t) (boolean? datum))) (if or-t or-t (let-values (((or-t) (number? datum))) (if or-t or-t (let-values (((or-t) (string? datum))) (if or-t or-t (let-values (((or-t) (vector? datum))) (if or-t or-t (let-values (((or-t) (box? datum))) (if or-t or-t (char? datum))))))))))))))
+(define-values (stx-self-evaluating?) (lambda (stx) (letrec-values (((datum) (syntax-e stx))) (let-values (((or-t249) (boolean? datum))) (if or-t249 or-t249 (let-values (((or-t250) (number? datum))) (if or-t250 or-t250 (let-values (((or-t251) (string? datum))) (if or-t251 or-t251 (let-values (((or-t252) (vector? datum))) (if or-t252 or-t252 (let-values (((or-t253) (box? datum))) (if or-t253 or-t253 (char? datum))))))))))))))
 (define-values (duplicate-identifier) (lambda (ids new-ids) (letrec-values (((new-unique) (make-set))) (letrec-values (((loop) (lambda (new-ids) (if (null? new-ids) #f (if (set-member? ids (car new-ids)) (car new-ids) (if (set-member? new-unique (car new-ids)) (car new-ids) (let-values () (set-add! new-unique (car new-ids)) (loop (cdr new-ids))))))))) (loop new-ids)))))
 (define-values (check-define-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error name "bad syntax" form)) (void)) (values))) ((ids) (syntax->list (stx-car rib0))) ((rib1) (stx-cdr rib0)) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values))) (() (let-values () (if (stx-null? rib1) (let-values () (raise-syntax-error name "expected an expression after identifiers" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (stx-null? rib2) (void) (let-values () (raise-syntax-error name "too many expressions" form))))))
-(define-values (check-let-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-null? rib) (let-values () (raise-syntax-error name "bad syntax" form)) (void)) (values))) ((bindings) (syntax->list (stx-car rib))) ((bind-rib) (stx-cdr rib)) (() (let-values () (if (null? bind-rib) (let-values () (raise-syntax-error name "missing body" form)) (void)) (values))) (() (let-values () (if (let-values (((or-t) (list? bind-rib))) (if or-t or-t (if (syntax? bind-rib) (list? (syntax->list bind-rib)) #f))) (void) (let-values () (raise-syntax-error name "not a sequence of bindings" form bindings))) (values))) (() (let-values () (if (list? bindings) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values)))) (letrec-values (((loop) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((bind) (syntax->list (car bindings))) (() (let-values () (if (if (list? bind) (= (length bind) 2) #f) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values))) ((ids) (syntax->list (car bind))) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values)))) (loop (cdr bindings)))))))) (loop bindings)))))
+(define-values (check-let-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-null? rib) (let-values () (raise-syntax-error name "bad syntax" form)) (void)) (values))) ((bindings) (syntax->list (stx-car rib))) ((bind-rib) (stx-cdr rib)) (() (let-values () (if (null? bind-rib) (let-values () (raise-syntax-error name "missing body" form)) (void)) (values))) (() (let-values () (if (let-values (((or-t254) (list? bind-rib))) (if or-t254 or-t254 (if (syntax? bind-rib) (list? (syntax->list bind-rib)) #f))) (void) (let-values () (raise-syntax-error name "not a sequence of bindings" form bindings))) (values))) (() (let-values () (if (list? bindings) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values)))) (letrec-values (((loop) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((bind) (syntax->list (car bindings))) (() (let-values () (if (if (list? bind) (= (length bind) 2) #f) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values))) ((ids) (syntax->list (car bind))) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values)))) (loop (cdr bindings)))))))) (loop bindings)))))
 (define-values (check-set!-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error (quote set!) "bad syntax" form)) (void)) (values))) ((id) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (identifier? id) (void) (let-values () (raise-syntax-error (quote set!) "not identifier" form id))) (values))) (() (let-values () (if (stx-null? rib1) (let-values () (raise-syntax-error (quote set!) "expected an expression after identifier" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (stx-null? rib2) (void) (let-values () (raise-syntax-error (quote set!) "too many expressions" form))))))
-(define-values (check-lambda-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (let-values (((or-t) (list? rib2))) (if or-t or-t (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))))))
-(define-values (check-case-lambda-form!) (lambda (form) (letrec-values (((clauses) (stx-cdr form))) (letrec-values (((loop) (lambda (clauses) (if (pair? clauses) (let-values () (letrec-values (((clause) (car clauses)) (() (let-values () (if (stx-null? clause) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car clause)) ((rib1) (stx-cdr clause)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1)) (() (let-values () (if (let-values (((or-t) (list? rib2))) (if or-t or-t (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))) (values)))) (loop (cdr clauses)))) (if (null? clauses) (void) (raise-syntax-error #f "bad syntax" form)))))) (loop clauses)))))
+(define-values (check-lambda-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (let-values (((or-t255) (list? rib2))) (if or-t255 or-t255 (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))))))
+(define-values (check-case-lambda-form!) (lambda (form) (letrec-values (((clauses) (stx-cdr form))) (letrec-values (((loop) (lambda (clauses) (if (pair? clauses) (let-values () (letrec-values (((clause) (car clauses)) (() (let-values () (if (stx-null? clause) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car clause)) ((rib1) (stx-cdr clause)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1)) (() (let-values () (if (let-values (((or-t256) (list? rib2))) (if or-t256 or-t256 (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))) (values)))) (loop (cdr clauses)))) (if (null? clauses) (void) (raise-syntax-error #f "bad syntax" form)))))) (loop clauses)))))
 (define-values (check-begin-form!) (lambda (form) (if (syntax->list form) (void) (let-values () (raise-syntax-error (quote begin) "bad syntax" form)))))
 (define-values (check-1ary-form!) (lambda (name form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error name "expected an expression" form)) (void)) (values))) ((rib1) (stx-cdr rib0))) (if (stx-null? rib1) (void) (let-values () (raise-syntax-error name "too many expressions" form))))))
 (define-values (check-if-form!) (lambda (form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-null? rib) (let-values () (raise-syntax-error (quote if) "bad syntax" form)) (void)) (values))) ((cond-rib) (stx-cdr rib)) (() (let-values () (if (stx-null? cond-rib) (let-values () (raise-syntax-error (quote if) "bad syntax" form)) (void)) (values))) ((ift-rib) (stx-cdr cond-rib)) (() (let-values () (if (stx-null? ift-rib) (let-values () (raise-syntax-error (quote if) "missing an \"else\" statement" form)) (void)) (values))) ((iff-rib) (stx-cdr ift-rib))) (if (stx-null? iff-rib) (void) (let-values () (raise-syntax-error (quote if) "too many expressions" form))))))
@@ -119,8 +119,8 @@
 (define-values ($base-stx-env) (lambda (env) (let-values (((env) (copy-environment env #f))) (environment-set! env (quote get-pattern-variable) (lambda (k) (if (symbol? k) (letrec-values (((loop) (lambda (assoc) (if (null? assoc) #f (if (eq? (caar assoc) k) (cadar assoc) (loop (cdr assoc))))))) (loop $expander-pattern-vars)) (raise-argument-error (quote get-pattern-variable) "symbol?" k)))) env)))
 (define-values (define-syntaxes/values-identifiers) (lambda (form) (map syntax-e (syntax->list (stx-car (stx-cdr form))))))
 (define-values (define-syntaxes/values-expr) (lambda (form) (stx-car (stx-cdr (stx-cdr form)))))
-(define-values (check/module!) (lambda (path exprs scope) (letrec-values (((bind/define-values) (lambda (form) (for-each (lambda (id) (scope-add! scope id)) (define-syntaxes/values-identifiers form)))) ((check/formals!) (lambda (scope formals expr) (letrec-values (((rec) (lambda (formals) (if (pair? formals) (let-values () (scope-add! scope (car formals)) (rec (cdr formals))) (if (symbol? formals) (scope-add! scope formals) (if (null? formals) (void) (error (quote check/expr!) "malformed formals" expr))))))) (rec (syntax->datum formals))))) ((check/expr!) (lambda (expr0 scope) (letrec-values (((loop) (lambda (expr) (if (lambda-form? expr) (let-values () (letrec-values (((formals) (car (stx-cdr expr))) ((body) (cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (case-lambda-form? expr) (for-each (lambda (clause) (letrec-values (((formals) (stx-car clause)) ((body) (stx-cdr clause)) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (stx-cdr expr)) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((bindings) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) ((rec-scope) (if (let-values-form? expr) scope scope*)) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((ids) (syntax->datum (first binding))) (() (let-values () (for-each (lambda (id) (scope-add! scope* id)) ids) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values))) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((val) (second binding)) (() (let-values () (check/expr! val rec-scope) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (set!-form? expr) (loop (third (syntax->list expr))) (if (if-form? expr) (for-each loop (stx-cdr expr)) (if (begin-form? expr) (for-each loop (stx-cdr expr)) (if (let-values (((or-t) (quote-form? expr))) (if or-t or-t (let-values (((or-t) (quote-syntax-form? expr))) (if or-t or-t (stx-self-evaluating? expr))))) (void) (if (stx-pair? expr) (for-each loop (syntax->list expr)) (if (identifier? expr) (let-values () (letrec-values (((id) (syntax-e expr))) (if (scope-contains? scope id) (void) (let-values () (printf "~a: unknown variable `~a`\n" path id) (printf "  at: ~a\n" (syntax->datum expr0)) (exit 1))))) (error (quote check/expr!) "cannot check" expr))))))))))))) (loop expr0)))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (let-values () (bind/define-values form)) (void))) exprs) (values))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (check/expr! (define-syntaxes/values-expr form) scope) (check/expr! form scope))) exprs) (values)))) (void))))
-(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) (letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) (loop (car exprs) (cdr exprs) (quote ()))))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values)))) (letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (let-values (((or-t) (define-values-form? expr))) (if or-t or-t (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) (letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) (letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t) (procedure? xform))) (if or-t or-t (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) (bind-xforms binding-ids results xforms)))))))) (rec (syntax->list (cadr form)) xforms)))) (if (let-values (((or-t) (let-values-form? expr))) (if or-t or-t (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) (loop expr))))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) (letrec-values (((loop) (lambda (exprs) (if (null? exprs) null (letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) (letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms (letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) new-xforms (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) (loop xforms-in-scope (quote ())))) (values)))) (rec (cdr ids) (cdr results)))))))) (rec ids results)))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) (with-scope exprs xforms)))))) (loop exprs)))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) (letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) (loop exprs null)))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
+(define-values (check/module!) (lambda (path exprs scope) (letrec-values (((bind/define-values) (lambda (form) (for-each (lambda (id) (scope-add! scope id)) (define-syntaxes/values-identifiers form)))) ((check/formals!) (lambda (scope formals expr) (letrec-values (((rec) (lambda (formals) (if (pair? formals) (let-values () (scope-add! scope (car formals)) (rec (cdr formals))) (if (symbol? formals) (scope-add! scope formals) (if (null? formals) (void) (error (quote check/expr!) "malformed formals" expr))))))) (rec (syntax->datum formals))))) ((check/expr!) (lambda (expr0 scope) (letrec-values (((loop) (lambda (expr) (if (lambda-form? expr) (let-values () (letrec-values (((formals) (car (stx-cdr expr))) ((body) (cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (case-lambda-form? expr) (for-each (lambda (clause) (letrec-values (((formals) (stx-car clause)) ((body) (stx-cdr clause)) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (stx-cdr expr)) (if (let-values (((or-t257) (let-values-form? expr))) (if or-t257 or-t257 (letrec-values-form? expr))) (let-values () (letrec-values (((bindings) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) ((rec-scope) (if (let-values-form? expr) scope scope*)) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((ids) (syntax->datum (first binding))) (() (let-values () (for-each (lambda (id) (scope-add! scope* id)) ids) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values))) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((val) (second binding)) (() (let-values () (check/expr! val rec-scope) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (set!-form? expr) (loop (third (syntax->list expr))) (if (if-form? expr) (for-each loop (stx-cdr expr)) (if (begin-form? expr) (for-each loop (stx-cdr expr)) (if (let-values (((or-t258) (quote-form? expr))) (if or-t258 or-t258 (let-values (((or-t259) (quote-syntax-form? expr))) (if or-t259 or-t259 (stx-self-evaluating? expr))))) (void) (if (stx-pair? expr) (for-each loop (syntax->list expr)) (if (identifier? expr) (let-values () (letrec-values (((id) (syntax-e expr))) (if (scope-contains? scope id) (void) (let-values () (printf "~a: unknown variable `~a`\n" path id) (printf "  at: ~a\n" (syntax->datum expr0)) (exit 1))))) (error (quote check/expr!) "cannot check" expr))))))))))))) (loop expr0)))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (let-values () (bind/define-values form)) (void))) exprs) (values))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (check/expr! (define-syntaxes/values-expr form) scope) (check/expr! form scope))) exprs) (values)))) (void))))
+(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) (letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) (loop (car exprs) (cdr exprs) (quote ()))))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values)))) (letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (let-values (((or-t260) (define-values-form? expr))) (if or-t260 or-t260 (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) (letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) (letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t261) (procedure? xform))) (if or-t261 or-t261 (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) (bind-xforms binding-ids results xforms)))))))) (rec (syntax->list (cadr form)) xforms)))) (if (let-values (((or-t262) (let-values-form? expr))) (if or-t262 or-t262 (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) (loop expr))))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) (letrec-values (((loop) (lambda (exprs) (if (null? exprs) null (letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) (letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms (letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) new-xforms (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) (loop xforms-in-scope (quote ())))) (values)))) (rec (cdr ids) (cdr results)))))))) (rec ids results)))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) (with-scope exprs xforms)))))) (loop exprs)))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) (letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) (loop exprs null)))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
 (define-values (expand) (lambda (expr env xforms scope) (letrec-values (((exprs* xforms*) (expand/module #f (list expr) xforms env scope))) (if (null? exprs*) (values (quote-syntax (void)) xforms*) (values (car exprs*) xforms*)))))
 (define-values (writeln) (lambda (o) (write o) (newline)))
 (define-values ($module-table) (make-hashtable))
@@ -137,4 +137,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) ($module-path (current-directory) name)) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (car envs) #f) (copy-environment (cdr envs)) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t) (eq? c #\space))) (if or-t or-t (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t) (eof-object? c))) (if or-t or-t (let-values (((or-t) (space? c))) (if or-t or-t (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (let-values (((or-t) (eq? c obrace))) (if or-t or-t (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (let-values (((or-t) (eq? c cbrace))) (if or-t or-t (let-values (((or-t) (eq? c #\"))) (if or-t or-t (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9))) (if (char? c) (<= 0-char (char->integer c) 9-char) #f)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (if (char? c) (char->integer c) -1))) (let-values (((or-t) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t or-t (let-values (((or-t) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t or-t (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t) (digit? c))) (if or-t or-t (if (let-values (((or-t) (eq? c #\-))) (if or-t or-t (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t or-t (let-values (((or-t) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t or-t (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-one))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? car comment) (read-pair open) (if (eq? c #\#) (let-values () (letrec-values (((next) (read-one))) (if (eq? next comment) (loop car) (cons car (loop next))))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-datum))) (letrec-values (((close) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t) (eq? c cparen))) (if or-t or-t (let-values (((or-t) (eq? c cbrack))) (if or-t or-t (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (if (if (eq? c #\#) (eq? (read-one) comment) #f) (close) (error (quote read) "missing closing parenthesis"))))))) (close)))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-one))) (loop (if (eq? elem comment) elems (cons elem elems)))))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((read-named) (lambda (first rest char) (if (eq? (peek-char p) first) (let-values () (check-expected-string! rest) (assert-delimeter! (peek-char p)) char) (let-values () (assert-delimeter! (peek-char p)) c))))) (if (eq? c #\a) (read-named #\l "larm" (integer->char 7)) (if (eq? c #\b) (read-named #\a "ackspace" (integer->char 8)) (if (eq? c #\d) (read-named #\e "elete" (integer->char 127)) (if (eq? c #\e) (read-named #\s "sc" (integer->char 27)) (if (eq? c #\l) (read-named #\i "inefeed" #\newline) (if (eq? c #\n) (if (eq? (peek-char p) #\u) (read-named #\u "ul" (integer->char 0)) (read-named #\e "ewline" #\newline)) (if (eq? c #\p) (read-named #\a "age" (integer->char 12)) (if (eq? c #\r) (read-named #\e "eturn" (integer->char 13)) (if (eq? c #\s) (read-named #\p "pace" #\space) (if (eq? c #\t) (read-named #\a "ab" (integer->char 9)) (if (eq? c #\v) (read-named #\t "tab" (integer->char 11)) (let-values () (assert-delimeter! (peek-char p)) c))))))))))))))) ((digits->number) (lambda (digits) (letrec-values (((str) (apply string (reverse digits))) ((num) (string->number str)) (() (let-values () (if num (void) (let-values () (errorf (quote read) "number out of range: ~a" str))) (values)))) num))) ((read-number) (lambda (prefix) (letrec-values (((chars) prefix)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p))) (if (digit? c) (let-values () (set! chars (cons (read-char p) chars)) (read-digit!)) (if (symbol-char? c) (read-symbol chars) (let-values () (assert-delimeter! c) (digits->number chars)))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\a) (let-values () (read-char p) (loop (cons (integer->char 7) acc))) (if (eq? c #\b) (let-values () (read-char p) (loop (cons (integer->char 8) acc))) (if (eq? c #\t) (let-values () (read-char p) (loop (cons (integer->char 9) acc))) (if (eq? c #\v) (let-values () (read-char p) (loop (cons (integer->char 11) acc))) (if (eq? c #\f) (let-values () (read-char p) (loop (cons (integer->char 12) acc))) (if (eq? c #\r) (let-values () (read-char p) (loop (cons (integer->char 13) acc))) (if (eq? c #\') (let-values () (read-char p) (loop (cons #\' acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c))))))))))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((comment) (box #f)) ((read-loop) (lambda () (letrec-values (((datum) (read-one))) (if (eq? datum comment) (read-loop) datum)))) ((read-one) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-datum) (values)))) comment)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t) (eq? c #\+))) (if or-t or-t (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (datum->syntax (read-number (list c))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t) (eq? c oparen))) (if or-t or-t (let-values (((or-t) (eq? c obrack))) (if or-t or-t (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t300) (eq? c #\space))) (if or-t300 or-t300 (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t301) (eof-object? c))) (if or-t301 or-t301 (let-values (((or-t302) (space? c))) (if or-t302 or-t302 (let-values (((or-t303) (eq? c oparen))) (if or-t303 or-t303 (let-values (((or-t304) (eq? c obrack))) (if or-t304 or-t304 (let-values (((or-t305) (eq? c obrace))) (if or-t305 or-t305 (let-values (((or-t306) (eq? c cparen))) (if or-t306 or-t306 (let-values (((or-t307) (eq? c cbrack))) (if or-t307 or-t307 (let-values (((or-t308) (eq? c cbrace))) (if or-t308 or-t308 (let-values (((or-t309) (eq? c #\"))) (if or-t309 or-t309 (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9))) (if (char? c) (<= 0-char (char->integer c) 9-char) #f)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (if (char? c) (char->integer c) -1))) (let-values (((or-t310) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t310 or-t310 (let-values (((or-t311) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t311 or-t311 (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t312) (digit? c))) (if or-t312 or-t312 (if (let-values (((or-t313) (eq? c #\-))) (if or-t313 or-t313 (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t314) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t314 or-t314 (let-values (((or-t315) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t315 or-t315 (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t316) (eq? c cparen))) (if or-t316 or-t316 (let-values (((or-t317) (eq? c cbrack))) (if or-t317 or-t317 (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-one))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? car comment) (read-pair open) (if (eq? c #\#) (let-values () (letrec-values (((next) (read-one))) (if (eq? next comment) (loop car) (cons car (loop next))))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-datum))) (letrec-values (((close) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t318) (eq? c cparen))) (if or-t318 or-t318 (let-values (((or-t319) (eq? c cbrack))) (if or-t319 or-t319 (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (if (if (eq? c #\#) (eq? (read-one) comment) #f) (close) (error (quote read) "missing closing parenthesis"))))))) (close)))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-one))) (loop (if (eq? elem comment) elems (cons elem elems)))))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((read-named) (lambda (first rest char) (if (eq? (peek-char p) first) (let-values () (check-expected-string! rest) (assert-delimeter! (peek-char p)) char) (let-values () (assert-delimeter! (peek-char p)) c))))) (if (eq? c #\a) (read-named #\l "larm" (integer->char 7)) (if (eq? c #\b) (read-named #\a "ackspace" (integer->char 8)) (if (eq? c #\d) (read-named #\e "elete" (integer->char 127)) (if (eq? c #\e) (read-named #\s "sc" (integer->char 27)) (if (eq? c #\l) (read-named #\i "inefeed" #\newline) (if (eq? c #\n) (if (eq? (peek-char p) #\u) (read-named #\u "ul" (integer->char 0)) (read-named #\e "ewline" #\newline)) (if (eq? c #\p) (read-named #\a "age" (integer->char 12)) (if (eq? c #\r) (read-named #\e "eturn" (integer->char 13)) (if (eq? c #\s) (read-named #\p "pace" #\space) (if (eq? c #\t) (read-named #\a "ab" (integer->char 9)) (if (eq? c #\v) (read-named #\t "tab" (integer->char 11)) (let-values () (assert-delimeter! (peek-char p)) c))))))))))))))) ((digits->number) (lambda (digits) (letrec-values (((str) (apply string (reverse digits))) ((num) (string->number str)) (() (let-values () (if num (void) (let-values () (errorf (quote read) "number out of range: ~a" str))) (values)))) num))) ((read-number) (lambda (prefix) (letrec-values (((chars) prefix)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p))) (if (digit? c) (let-values () (set! chars (cons (read-char p) chars)) (read-digit!)) (if (symbol-char? c) (read-symbol chars) (let-values () (assert-delimeter! c) (digits->number chars)))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\a) (let-values () (read-char p) (loop (cons (integer->char 7) acc))) (if (eq? c #\b) (let-values () (read-char p) (loop (cons (integer->char 8) acc))) (if (eq? c #\t) (let-values () (read-char p) (loop (cons (integer->char 9) acc))) (if (eq? c #\v) (let-values () (read-char p) (loop (cons (integer->char 11) acc))) (if (eq? c #\f) (let-values () (read-char p) (loop (cons (integer->char 12) acc))) (if (eq? c #\r) (let-values () (read-char p) (loop (cons (integer->char 13) acc))) (if (eq? c #\') (let-values () (read-char p) (loop (cons #\' acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c))))))))))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((comment) (box #f)) ((read-loop) (lambda () (letrec-values (((datum) (read-one))) (if (eq? datum comment) (read-loop) datum)))) ((read-one) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-datum) (values)))) comment)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t320) (eq? c #\+))) (if or-t320 or-t320 (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (datum->syntax (read-number (list c))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t321) (eq? c oparen))) (if or-t321 or-t321 (let-values (((or-t322) (eq? c obrack))) (if or-t322 or-t322 (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/private/and-or.min b/src/library/private/and-or.min
index d2dfaee..fc1c633 100644
--- a/src/library/private/and-or.min
+++ b/src/library/private/and-or.min
@@ -2,7 +2,7 @@
 ;;; 'and', 'or'
 ;;;
 
-(import "stx.min")
+(import "gen-temp.min" "stx.min")
 (export and or)
 
 (define-syntaxes (and)
@@ -34,12 +34,12 @@
                       (stx-null? (stx-cdr e))
                       #f)
                   (stx-car e)
-                  (let-values ([(tmp) 'or-t])
+                  (let-values ([(tmp) (gen-temp-id "or-t")])
                     (datum->syntax
                       (list (quote-syntax let-values)
                         (list
                           (list (list tmp) (stx-car e)))
                         (list (quote-syntax if)
-                          (quote-syntax or-t)
-                          (quote-syntax or-t)
+                          tmp
+                          tmp
                           (cons (quote-syntax or) (stx-cdr e))))))))))))
diff --git a/src/library/private/case.min b/src/library/private/case.min
index e2e23df..d03187c 100644
--- a/src/library/private/case.min
+++ b/src/library/private/case.min
@@ -2,8 +2,8 @@
 ;;; 'case'
 ;;;
 
-(import "and-or.min" "define.min" "let.min" "stx.min"
-        "stxcase.min" "stxcase-extra.min" "template.min"
+(import "and-or.min" "define.min" "gen-temp.min" "let.min"
+        "stx.min" "stxcase.min" "stxcase-extra.min" "template.min"
         "when-unless.min")
 
 (export case)
@@ -16,8 +16,9 @@
      #'(begin v (let-values () e es ...))]
     [(_ v [(k ...) e es ...] ...)                       ; missing else
      #'(case v [(k ...) e es ...] ... [else (void)])]
-    [(_ v [(k ...) e es ...] ... [else x xs ...])       ; general case
-     #'(let ([tmp v]) (case/else tmp [(k ...) e es ...] ... [else x xs ...]))]
+    [(_ v [(k ...) b bs ...] ... [else x xs ...])       ; general case
+     (with-syntax ([case-v (gen-temp-id "case")])
+       #'(let ([case-v v]) (case/else case-v [(k ...) b bs ...] ... [else x xs ...])))]
 
     [(_ v cls ...)                                      ; error cases
      (let loop ([clauses (syntax->list #'(cls ...))])
diff --git a/src/library/private/do.min b/src/library/private/do.min
index c3c68da..5237052 100644
--- a/src/library/private/do.min
+++ b/src/library/private/do.min
@@ -2,20 +2,21 @@
 ;;; 'do'
 ;;;
 
-(import "define.min" "let.min" "stx.min" "stxcase.min"
+(import "define.min" "gen-temp.min" "let.min" "stx.min" "stxcase.min"
         "stxcase-extra.min" "template.min")
 (export do)
 
 ;; TODO: omit `step`
-(define-syntax do
-  (syntax-rules ()
+(define-syntax (do stx)
+  (syntax-case stx ()
     [(_ ([var init step] ...)
         (test expr ...)
         command ...)
-     (let loop ([var init] ...)
-       (if test
-           (begin
-             expr ...)
-           (begin
-             command ...
-             (loop step ...))))]))
+     (with-syntax ([do-loop (gen-temp-id "do")])
+       #'(let do-loop ([var init] ...)
+           (if test
+               (begin
+                 expr ...)
+               (begin
+                 command ...
+                 (do-loop step ...)))))]))
-- 
2.43.0


From e967a0c7f75334f9f45833ac8eb16beaf0c76e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:52 +0000
Subject: [PATCH 87/92] fix: let, let*, letrec and cond report malformed
 bindings and clauses

---
 src/boot/s/boot.min          | 14 +++++++-------
 src/library/private/cond.min |  2 +-
 src/library/private/let.min  |  8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/boot/s/boot.min b/src/boot/s/boot.min
index 2eda8f8..55323db 100644
--- a/src/boot/s/boot.min
+++ b/src/boot/s/boot.min
@@ -104,13 +104,13 @@
 (define-values (case-lambda-form?) (_-form? (quote case-lambda)))
 (define-values (begin-form?) (_-form? (quote begin)))
 (define-values (if-form?) (_-form? (quote if)))
-(define-values (stx-self-evaluating?) (lambda (stx) (letrec-values (((datum) (syntax-e stx))) (let-values (((or-t249) (boolean? datum))) (if or-t249 or-t249 (let-values (((or-t250) (number? datum))) (if or-t250 or-t250 (let-values (((or-t251) (string? datum))) (if or-t251 or-t251 (let-values (((or-t252) (vector? datum))) (if or-t252 or-t252 (let-values (((or-t253) (box? datum))) (if or-t253 or-t253 (char? datum))))))))))))))
+(define-values (stx-self-evaluating?) (lambda (stx) (letrec-values (((datum) (syntax-e stx))) (let-values (((or-t250) (boolean? datum))) (if or-t250 or-t250 (let-values (((or-t251) (number? datum))) (if or-t251 or-t251 (let-values (((or-t252) (string? datum))) (if or-t252 or-t252 (let-values (((or-t253) (vector? datum))) (if or-t253 or-t253 (let-values (((or-t254) (box? datum))) (if or-t254 or-t254 (char? datum))))))))))))))
 (define-values (duplicate-identifier) (lambda (ids new-ids) (letrec-values (((new-unique) (make-set))) (letrec-values (((loop) (lambda (new-ids) (if (null? new-ids) #f (if (set-member? ids (car new-ids)) (car new-ids) (if (set-member? new-unique (car new-ids)) (car new-ids) (let-values () (set-add! new-unique (car new-ids)) (loop (cdr new-ids))))))))) (loop new-ids)))))
 (define-values (check-define-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error name "bad syntax" form)) (void)) (values))) ((ids) (syntax->list (stx-car rib0))) ((rib1) (stx-cdr rib0)) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values))) (() (let-values () (if (stx-null? rib1) (let-values () (raise-syntax-error name "expected an expression after identifiers" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (stx-null? rib2) (void) (let-values () (raise-syntax-error name "too many expressions" form))))))
-(define-values (check-let-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-null? rib) (let-values () (raise-syntax-error name "bad syntax" form)) (void)) (values))) ((bindings) (syntax->list (stx-car rib))) ((bind-rib) (stx-cdr rib)) (() (let-values () (if (null? bind-rib) (let-values () (raise-syntax-error name "missing body" form)) (void)) (values))) (() (let-values () (if (let-values (((or-t254) (list? bind-rib))) (if or-t254 or-t254 (if (syntax? bind-rib) (list? (syntax->list bind-rib)) #f))) (void) (let-values () (raise-syntax-error name "not a sequence of bindings" form bindings))) (values))) (() (let-values () (if (list? bindings) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values)))) (letrec-values (((loop) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((bind) (syntax->list (car bindings))) (() (let-values () (if (if (list? bind) (= (length bind) 2) #f) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values))) ((ids) (syntax->list (car bind))) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values)))) (loop (cdr bindings)))))))) (loop bindings)))))
+(define-values (check-let-syntaxes/values-form!) (lambda (name form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-null? rib) (let-values () (raise-syntax-error name "bad syntax" form)) (void)) (values))) ((bindings) (syntax->list (stx-car rib))) ((bind-rib) (stx-cdr rib)) (() (let-values () (if (null? bind-rib) (let-values () (raise-syntax-error name "missing body" form)) (void)) (values))) (() (let-values () (if (let-values (((or-t255) (list? bind-rib))) (if or-t255 or-t255 (if (syntax? bind-rib) (list? (syntax->list bind-rib)) #f))) (void) (let-values () (raise-syntax-error name "not a sequence of bindings" form bindings))) (values))) (() (let-values () (if (list? bindings) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values)))) (letrec-values (((loop) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((bind) (syntax->list (car bindings))) (() (let-values () (if (if (list? bind) (= (length bind) 2) #f) (void) (let-values () (raise-syntax-error name "expected a sequence of expressions after the bindings" form))) (values))) ((ids) (syntax->list (car bind))) (() (let-values () (if (if (list? ids) (andmap identifier? ids) #f) (void) (let-values () (raise-syntax-error name "not identifiers" form ids))) (values)))) (loop (cdr bindings)))))))) (loop bindings)))))
 (define-values (check-set!-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error (quote set!) "bad syntax" form)) (void)) (values))) ((id) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (identifier? id) (void) (let-values () (raise-syntax-error (quote set!) "not identifier" form id))) (values))) (() (let-values () (if (stx-null? rib1) (let-values () (raise-syntax-error (quote set!) "expected an expression after identifier" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (stx-null? rib2) (void) (let-values () (raise-syntax-error (quote set!) "too many expressions" form))))))
-(define-values (check-lambda-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (let-values (((or-t255) (list? rib2))) (if or-t255 or-t255 (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))))))
-(define-values (check-case-lambda-form!) (lambda (form) (letrec-values (((clauses) (stx-cdr form))) (letrec-values (((loop) (lambda (clauses) (if (pair? clauses) (let-values () (letrec-values (((clause) (car clauses)) (() (let-values () (if (stx-null? clause) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car clause)) ((rib1) (stx-cdr clause)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1)) (() (let-values () (if (let-values (((or-t256) (list? rib2))) (if or-t256 or-t256 (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))) (values)))) (loop (cdr clauses)))) (if (null? clauses) (void) (raise-syntax-error #f "bad syntax" form)))))) (loop clauses)))))
+(define-values (check-lambda-form!) (lambda (form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car rib0)) ((rib1) (stx-cdr rib0)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1))) (if (let-values (((or-t256) (list? rib2))) (if or-t256 or-t256 (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))))))
+(define-values (check-case-lambda-form!) (lambda (form) (letrec-values (((clauses) (stx-cdr form))) (letrec-values (((loop) (lambda (clauses) (if (pair? clauses) (let-values () (letrec-values (((clause) (car clauses)) (() (let-values () (if (stx-null? clause) (let-values () (raise-syntax-error #f "missing formals" form)) (void)) (values))) ((formals) (stx-car clause)) ((rib1) (stx-cdr clause)) (() (let-values () (if (null? rib1) (let-values () (raise-syntax-error #f "missing expression after formals" form)) (void)) (values))) ((rib2) (stx-cdr rib1)) (() (let-values () (if (let-values (((or-t257) (list? rib2))) (if or-t257 or-t257 (if (syntax? rib2) (list? (syntax->list rib2)) #f))) (void) (let-values () (raise-syntax-error #f "expected a sequence of expressions after formals" form))) (values)))) (loop (cdr clauses)))) (if (null? clauses) (void) (raise-syntax-error #f "bad syntax" form)))))) (loop clauses)))))
 (define-values (check-begin-form!) (lambda (form) (if (syntax->list form) (void) (let-values () (raise-syntax-error (quote begin) "bad syntax" form)))))
 (define-values (check-1ary-form!) (lambda (name form) (letrec-values (((rib0) (stx-cdr form)) (() (let-values () (if (stx-null? rib0) (let-values () (raise-syntax-error name "expected an expression" form)) (void)) (values))) ((rib1) (stx-cdr rib0))) (if (stx-null? rib1) (void) (let-values () (raise-syntax-error name "too many expressions" form))))))
 (define-values (check-if-form!) (lambda (form) (letrec-values (((rib) (stx-cdr form)) (() (let-values () (if (stx-null? rib) (let-values () (raise-syntax-error (quote if) "bad syntax" form)) (void)) (values))) ((cond-rib) (stx-cdr rib)) (() (let-values () (if (stx-null? cond-rib) (let-values () (raise-syntax-error (quote if) "bad syntax" form)) (void)) (values))) ((ift-rib) (stx-cdr cond-rib)) (() (let-values () (if (stx-null? ift-rib) (let-values () (raise-syntax-error (quote if) "missing an \"else\" statement" form)) (void)) (values))) ((iff-rib) (stx-cdr ift-rib))) (if (stx-null? iff-rib) (void) (let-values () (raise-syntax-error (quote if) "too many expressions" form))))))
@@ -119,8 +119,8 @@
 (define-values ($base-stx-env) (lambda (env) (let-values (((env) (copy-environment env #f))) (environment-set! env (quote get-pattern-variable) (lambda (k) (if (symbol? k) (letrec-values (((loop) (lambda (assoc) (if (null? assoc) #f (if (eq? (caar assoc) k) (cadar assoc) (loop (cdr assoc))))))) (loop $expander-pattern-vars)) (raise-argument-error (quote get-pattern-variable) "symbol?" k)))) env)))
 (define-values (define-syntaxes/values-identifiers) (lambda (form) (map syntax-e (syntax->list (stx-car (stx-cdr form))))))
 (define-values (define-syntaxes/values-expr) (lambda (form) (stx-car (stx-cdr (stx-cdr form)))))
-(define-values (check/module!) (lambda (path exprs scope) (letrec-values (((bind/define-values) (lambda (form) (for-each (lambda (id) (scope-add! scope id)) (define-syntaxes/values-identifiers form)))) ((check/formals!) (lambda (scope formals expr) (letrec-values (((rec) (lambda (formals) (if (pair? formals) (let-values () (scope-add! scope (car formals)) (rec (cdr formals))) (if (symbol? formals) (scope-add! scope formals) (if (null? formals) (void) (error (quote check/expr!) "malformed formals" expr))))))) (rec (syntax->datum formals))))) ((check/expr!) (lambda (expr0 scope) (letrec-values (((loop) (lambda (expr) (if (lambda-form? expr) (let-values () (letrec-values (((formals) (car (stx-cdr expr))) ((body) (cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (case-lambda-form? expr) (for-each (lambda (clause) (letrec-values (((formals) (stx-car clause)) ((body) (stx-cdr clause)) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (stx-cdr expr)) (if (let-values (((or-t257) (let-values-form? expr))) (if or-t257 or-t257 (letrec-values-form? expr))) (let-values () (letrec-values (((bindings) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) ((rec-scope) (if (let-values-form? expr) scope scope*)) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((ids) (syntax->datum (first binding))) (() (let-values () (for-each (lambda (id) (scope-add! scope* id)) ids) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values))) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((val) (second binding)) (() (let-values () (check/expr! val rec-scope) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (set!-form? expr) (loop (third (syntax->list expr))) (if (if-form? expr) (for-each loop (stx-cdr expr)) (if (begin-form? expr) (for-each loop (stx-cdr expr)) (if (let-values (((or-t258) (quote-form? expr))) (if or-t258 or-t258 (let-values (((or-t259) (quote-syntax-form? expr))) (if or-t259 or-t259 (stx-self-evaluating? expr))))) (void) (if (stx-pair? expr) (for-each loop (syntax->list expr)) (if (identifier? expr) (let-values () (letrec-values (((id) (syntax-e expr))) (if (scope-contains? scope id) (void) (let-values () (printf "~a: unknown variable `~a`\n" path id) (printf "  at: ~a\n" (syntax->datum expr0)) (exit 1))))) (error (quote check/expr!) "cannot check" expr))))))))))))) (loop expr0)))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (let-values () (bind/define-values form)) (void))) exprs) (values))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (check/expr! (define-syntaxes/values-expr form) scope) (check/expr! form scope))) exprs) (values)))) (void))))
-(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) (letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) (loop (car exprs) (cdr exprs) (quote ()))))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values)))) (letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (let-values (((or-t260) (define-values-form? expr))) (if or-t260 or-t260 (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) (letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) (letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t261) (procedure? xform))) (if or-t261 or-t261 (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) (bind-xforms binding-ids results xforms)))))))) (rec (syntax->list (cadr form)) xforms)))) (if (let-values (((or-t262) (let-values-form? expr))) (if or-t262 or-t262 (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) (loop expr))))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) (letrec-values (((loop) (lambda (exprs) (if (null? exprs) null (letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) (letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms (letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) new-xforms (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) (loop xforms-in-scope (quote ())))) (values)))) (rec (cdr ids) (cdr results)))))))) (rec ids results)))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) (with-scope exprs xforms)))))) (loop exprs)))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) (letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) (loop exprs null)))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
+(define-values (check/module!) (lambda (path exprs scope) (letrec-values (((bind/define-values) (lambda (form) (for-each (lambda (id) (scope-add! scope id)) (define-syntaxes/values-identifiers form)))) ((check/formals!) (lambda (scope formals expr) (letrec-values (((rec) (lambda (formals) (if (pair? formals) (let-values () (scope-add! scope (car formals)) (rec (cdr formals))) (if (symbol? formals) (scope-add! scope formals) (if (null? formals) (void) (error (quote check/expr!) "malformed formals" expr))))))) (rec (syntax->datum formals))))) ((check/expr!) (lambda (expr0 scope) (letrec-values (((loop) (lambda (expr) (if (lambda-form? expr) (let-values () (letrec-values (((formals) (car (stx-cdr expr))) ((body) (cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (case-lambda-form? expr) (for-each (lambda (clause) (letrec-values (((formals) (stx-car clause)) ((body) (stx-cdr clause)) ((scope*) (scope-extend scope)) (() (let-values () (check/formals! scope* formals expr) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (stx-cdr expr)) (if (let-values (((or-t258) (let-values-form? expr))) (if or-t258 or-t258 (letrec-values-form? expr))) (let-values () (letrec-values (((bindings) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr))) ((scope*) (scope-extend scope)) ((rec-scope) (if (let-values-form? expr) scope scope*)) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((ids) (syntax->datum (first binding))) (() (let-values () (for-each (lambda (id) (scope-add! scope* id)) ids) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values))) (() (let-values () (letrec-values (((rec) (lambda (bindings) (if (null? bindings) (void) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((val) (second binding)) (() (let-values () (check/expr! val rec-scope) (values)))) (rec (cdr bindings)))))))) (rec (syntax->list bindings))) (values)))) (for-each (lambda (e) (check/expr! e scope*)) body))) (if (set!-form? expr) (loop (third (syntax->list expr))) (if (if-form? expr) (for-each loop (stx-cdr expr)) (if (begin-form? expr) (for-each loop (stx-cdr expr)) (if (let-values (((or-t259) (quote-form? expr))) (if or-t259 or-t259 (let-values (((or-t260) (quote-syntax-form? expr))) (if or-t260 or-t260 (stx-self-evaluating? expr))))) (void) (if (stx-pair? expr) (for-each loop (syntax->list expr)) (if (identifier? expr) (let-values () (letrec-values (((id) (syntax-e expr))) (if (scope-contains? scope id) (void) (let-values () (printf "~a: unknown variable `~a`\n" path id) (printf "  at: ~a\n" (syntax->datum expr0)) (exit 1))))) (error (quote check/expr!) "cannot check" expr))))))))))))) (loop expr0)))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (let-values () (bind/define-values form)) (void))) exprs) (values))) (() (let-values () (for-each (lambda (form) (if (define-values-form? form) (check/expr! (define-syntaxes/values-expr form) scope) (check/expr! form scope))) exprs) (values)))) (void))))
+(define-values (expand/module) (lambda (path exprs xforms env scope) (letrec-values (((eval/values) (lambda (expr env) (call-with-values (lambda () (eval expr env)) (lambda results results)))) ((eval/xform) (lambda (xform expr name) (letrec-values (((fn) (car xform))) (call-with-values (lambda () (fn expr)) (lambda results (if (not (= (length results) 1)) (error #f "result arity mismatch" "expected 1" "received" 2) (if (syntax? (car results)) (car results) (error name "transformer produced something other than syntax" (car results))))))))) ((expand/body) (lambda (exprs xforms) (letrec-values (((loop) (lambda (expr0 rest defines) (letrec-values (((expr*) (expand/expr expr0 xforms #f))) (if (begin-form? expr*) (let-values () (letrec-values (((form) (syntax->list expr*))) (loop (cadr form) (append (cddr form) rest) defines))) (if (define-syntaxes-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-syntaxes) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (third form))) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) (expand/expr (datum->syntax (cons* (quote-syntax let-syntaxes) (list (list ids value)) rest)) xforms #t)))))) (if (define-values-form? expr*) (let-values () (if (null? rest) (let-values () (error (quote define-values) "last form is not an expression" expr0)) (void)) (letrec-values (((form) (syntax->list expr*)) ((ids) (second form)) ((value) (expand/expr (third form) xforms #t))) (loop (car rest) (cdr rest) (cons (cons ids value) defines)))) (if (not (null? rest)) (if (null? defines) (cons* expr* (loop (car rest) (cdr rest) defines)) (let-values () (letrec-values (((bind-expr) (list (quote-syntax let-values) (quote ()) expr* (list (quote-syntax values))))) (loop (car rest) (cdr rest) (cons (cons (quote ()) bind-expr) defines))))) (if (null? defines) (list expr*) (list (datum->syntax (list (quote-syntax letrec-values) (map (lambda (bind) (list (car bind) (cdr bind))) (reverse defines)) expr*)))))))))))) (loop (car exprs) (cdr exprs) (quote ()))))) ((expand/expr) (lambda (expr xforms recur-begin?) (letrec-values (((patterns) (filter (lambda (e) (pattern-variable? (cadr e))) xforms)) (() (let-values () (set! $expander-pattern-vars patterns) (values)))) (letrec-values (((loop) (lambda (expr) (if (stx-self-evaluating? expr) expr (if (identifier? expr) (let-values () (letrec-values (((id) (syntax->datum expr)) ((maybe-xform) (lookup-xform expr xforms))) (if maybe-xform (loop (eval/xform maybe-xform expr id)) expr))) (if (let-values (((or-t261) (define-values-form? expr))) (if or-t261 or-t261 (define-syntaxes-form? expr))) expr (if (let-syntaxes-form? expr) (let-values () (check-let-syntaxes/values-form! (quote let-syntaxes) expr) (letrec-values (((form) (syntax->list expr)) ((body) (cddr form)) ((let-ids) (make-set))) (letrec-values (((rec) (lambda (bindings xforms) (if (null? bindings) (datum->syntax (cons* (quote-syntax let-values) (quote ()) (expand/body body xforms))) (let-values () (letrec-values (((binding) (syntax->list (car bindings))) ((binding-ids) (syntax->datum (car binding))) (() (let-values () (check-duplicate-identifier! expr (quote let-syntaxes) let-ids binding-ids) (values))) ((rhs) (expand/expr (cadr binding) xforms #t)) ((results) (eval/values (syntax->datum rhs) env)) (() (let-values () (if (= (length binding-ids) (length results)) (void) (let-values () (error (quote let-syntaxes) "result arity mismatch" "expected" (length binding-ids) "received" (length results)))) (values)))) (letrec-values (((bind-xforms) (lambda (ids results xforms) (if (null? ids) (let-values () (for-each (lambda (id) (set-add! let-ids id)) binding-ids) (rec (cdr bindings) xforms)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (let-values (((or-t262) (procedure? xform))) (if or-t262 or-t262 (pattern-variable? xform))) (void) (let-values () (raise-argument-error (quote let-syntaxes) "rocedure?" xform))) (values))) ((xform-entry) (cons id (list xform xforms)))) (bind-xforms (cdr ids) (cdr results) (cons xform-entry xforms)))))))) (bind-xforms binding-ids results xforms)))))))) (rec (syntax->list (cadr form)) xforms)))) (if (let-values (((or-t263) (let-values-form? expr))) (if or-t263 or-t263 (letrec-values-form? expr))) (let-values () (letrec-values (((name) (if (let-values-form? expr) (quote let-values) (quote letrec-values))) (() (let-values () (check-let-syntaxes/values-form! name expr) (values))) ((form) (syntax->list expr)) ((body) (cddr form)) ((ids) (make-set))) (datum->syntax (cons* (car form) (map (lambda (bind) (letrec-values (((bind*) (syntax->list bind)) ((bind-ids) (syntax->datum (first bind*))) (() (let-values () (check-duplicate-identifier! expr name ids bind-ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! ids id)) bind-ids) (values)))) (list (first bind*) (loop (second bind*))))) (syntax->list (cadr form))) (expand/body body xforms))))) (if (lambda-form? expr) (let-values () (check-lambda-form! expr) (letrec-values (((head) (stx-car expr)) ((formals) (stx-car (stx-cdr expr))) ((body) (stx-cdr (stx-cdr expr)))) (datum->syntax (cons* head formals (expand/body body xforms))))) (if (case-lambda-form? expr) (let-values () (check-case-lambda-form! expr) (letrec-values (((head) (stx-car expr))) (datum->syntax (cons head (map (lambda (clause) (letrec-values (((formals) (stx-car clause))) (cons formals (expand/body (stx-cdr clause) xforms)))) (stx-cdr expr)))))) (if (if-form? expr) (let-values () (check-if-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (cons (first form) (map loop (cdr form)))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((body) (stx-cdr expr))) (if (null? body) (datum->syntax (quote (void))) (if recur-begin? (let-values () (letrec-values (((body*) (expand/body body xforms))) (if (null? (cdr body*)) (car body*) (datum->syntax (cons* (quote begin) body*))))) (datum->syntax (cons* (quote begin) (map loop body))))))) (if (set!-form? expr) (let-values () (check-set!-form! expr) (letrec-values (((form) (syntax->list expr))) (datum->syntax (list (first form) (second form) (loop (third form)))))) (if (quote-form? expr) (let-values () (check-1ary-form! (quote quote) expr) expr) (if (quote-syntax-form? expr) (let-values () (check-1ary-form! (quote quote-syntax) expr) expr) (if (stx-pair? expr) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/expr (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform)) recur-begin?) (let-values (((stx-lst) (syntax->list expr))) (if (list? stx-lst) (datum->syntax (map loop stx-lst)) (error (quote expand/expr) "invalid application" expr)))))) (raise-syntax-error (quote expand/expr) "bad syntax" expr))))))))))))))))) (loop expr))))) ((expand/module*) (lambda (exprs xforms) (letrec-values (((expand/top-level) (lambda (expr xforms) (if (define-syntaxes-form? expr) (values expr xforms) (if (define-values-form? expr) (values expr xforms) (if (begin-form? expr) (values expr xforms) (if (if (stx-pair? expr) (identifier? (stx-car expr)) #f) (let-values () (letrec-values (((head) (stx-car expr)) ((maybe-xform) (lookup-xform head xforms))) (if maybe-xform (expand/top-level (eval/xform maybe-xform expr (syntax-e head)) (merge-xforms xforms (cadr maybe-xform))) (values expr xforms)))) (values expr xforms))))))) ((expand/non-define-values) (lambda (exprs xforms) (letrec-values (((define-ids) (make-set)) ((xform-ids) (make-set)) ((exprs*) (letrec-values (((loop) (lambda (exprs) (if (null? exprs) null (letrec-values (((with-scope) (lambda (exprs in-scope0) (letrec-values (((expr in-scope) (expand/top-level (car exprs) in-scope0))) (if (define-syntaxes-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-syntaxes) expr) (letrec-values (((ids rhs) (let-values (((ids) (define-syntaxes/values-identifiers expr))) (check-duplicate-identifier! expr (quote define-syntaxes) xform-ids ids) (values ids (define-syntaxes/values-expr expr)))) ((rhs*) (expand/expr rhs in-scope #t)) ((results) (eval/values (syntax->datum rhs*) env)) (() (let-values () (if (= (length ids) (length results)) (void) (let-values () (error (quote define-syntaxes) "result arity mismatch" "expected" (length ids) "received" (length results)))) (values)))) (letrec-values (((rec) (lambda (ids results) (if (null? ids) (loop (cdr exprs)) (let-values () (letrec-values (((id) (car ids)) ((xform) (car results)) (() (let-values () (if (procedure? xform) (void) (let-values () (raise-argument-error (quote define-syntaxes) "procedure?" xform))) (values))) ((binding) (cons id (list xform null))) ((xforms-in-scope) (cons binding xforms)) (() (let-values () (set-add! xform-ids id) (values))) (() (let-values () (set! xforms (letrec-values (((loop) (lambda (xforms new-xforms) (if (null? xforms) new-xforms (let-values () (letrec-values (((xform) (first xforms)) ((id) (first xform)) ((value) (second xform)) ((xform*) (if (set-member? xform-ids id) (cons id (list value xforms-in-scope)) xform))) (loop (cdr xforms) (cons xform* new-xforms)))))))) (loop xforms-in-scope (quote ())))) (values)))) (rec (cdr ids) (cdr results)))))))) (rec ids results)))) (if (define-values-form? expr) (let-values () (check-define-syntaxes/values-form! (quote define-values) expr) (letrec-values (((ids) (define-syntaxes/values-identifiers expr)) (() (let-values () (check-duplicate-identifier! expr (quote define-values) define-ids ids) (values))) (() (let-values () (for-each (lambda (id) (set-add! define-ids id)) ids) (values)))) (cons expr (loop (cdr exprs))))) (if (begin-form? expr) (let-values () (check-begin-form! expr) (letrec-values (((forms) (cdr (syntax->list expr)))) (if (null? forms) (loop (cdr exprs)) (append (with-scope forms in-scope) (loop (cdr exprs)))))) (cons (expand/expr expr in-scope #t) (loop (cdr exprs)))))))))) (with-scope exprs xforms)))))) (loop exprs)))) (values exprs* xforms)))) ((expand/define-values) (lambda (exprs xforms) (letrec-values (((loop) (lambda (exprs exprs*) (if (null? exprs) (reverse exprs*) (if (define-values-form? (car exprs)) (let-values () (letrec-values (((form) (syntax->list (car exprs))) ((form*) (datum->syntax (list (first form) (second form) (expand/expr (third form) xforms #t))))) (loop (cdr exprs) (cons form* exprs*)))) (loop (cdr exprs) (cons (car exprs) exprs*))))))) (loop exprs null)))) ((exprs* xforms*) (expand/non-define-values exprs xforms)) ((exprs**) (expand/define-values exprs* xforms*)) (() (let-values () (check/module! path exprs** scope) (values)))) (values exprs** xforms*))))) (expand/module* exprs xforms))))
 (define-values (expand) (lambda (expr env xforms scope) (letrec-values (((exprs* xforms*) (expand/module #f (list expr) xforms env scope))) (if (null? exprs*) (values (quote-syntax (void)) xforms*) (values (car exprs*) xforms*)))))
 (define-values (writeln) (lambda (o) (write o) (newline)))
 (define-values ($module-table) (make-hashtable))
@@ -137,4 +137,4 @@
 (define-values (import) (lambda (name) ($load-or-import name (lambda (o) (writeln o)) #f)))
 (define-values (load) (lambda (name) (letrec-values (((result) ($load-or-import name #f (lambda (o) o))) (() (let-values () (if (void? result) (void) (let-values () (writeln result))) (values)))) (enter! name))))
 (define-values (enter!) (lambda (name) (letrec-values (((path) ($module-path (current-directory) name)) (() (let-values () (if (hashtable-contains? $module-envs path) (void) (let-values () (error (quote enter!) "unknown module" name))) (values))) ((envs) (hashtable-ref $module-envs path)) ((internals) (hashtable-ref $module-internals path)) ((xforms) (second internals)) ((scope) (sixth internals))) ($repl (copy-environment (car envs) #f) (copy-environment (cdr envs)) xforms scope))))
-(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t300) (eq? c #\space))) (if or-t300 or-t300 (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t301) (eof-object? c))) (if or-t301 or-t301 (let-values (((or-t302) (space? c))) (if or-t302 or-t302 (let-values (((or-t303) (eq? c oparen))) (if or-t303 or-t303 (let-values (((or-t304) (eq? c obrack))) (if or-t304 or-t304 (let-values (((or-t305) (eq? c obrace))) (if or-t305 or-t305 (let-values (((or-t306) (eq? c cparen))) (if or-t306 or-t306 (let-values (((or-t307) (eq? c cbrack))) (if or-t307 or-t307 (let-values (((or-t308) (eq? c cbrace))) (if or-t308 or-t308 (let-values (((or-t309) (eq? c #\"))) (if or-t309 or-t309 (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9))) (if (char? c) (<= 0-char (char->integer c) 9-char) #f)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (if (char? c) (char->integer c) -1))) (let-values (((or-t310) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t310 or-t310 (let-values (((or-t311) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t311 or-t311 (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t312) (digit? c))) (if or-t312 or-t312 (if (let-values (((or-t313) (eq? c #\-))) (if or-t313 or-t313 (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t314) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t314 or-t314 (let-values (((or-t315) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t315 or-t315 (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t316) (eq? c cparen))) (if or-t316 or-t316 (let-values (((or-t317) (eq? c cbrack))) (if or-t317 or-t317 (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-one))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? car comment) (read-pair open) (if (eq? c #\#) (let-values () (letrec-values (((next) (read-one))) (if (eq? next comment) (loop car) (cons car (loop next))))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-datum))) (letrec-values (((close) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t318) (eq? c cparen))) (if or-t318 or-t318 (let-values (((or-t319) (eq? c cbrack))) (if or-t319 or-t319 (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (if (if (eq? c #\#) (eq? (read-one) comment) #f) (close) (error (quote read) "missing closing parenthesis"))))))) (close)))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-one))) (loop (if (eq? elem comment) elems (cons elem elems)))))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((read-named) (lambda (first rest char) (if (eq? (peek-char p) first) (let-values () (check-expected-string! rest) (assert-delimeter! (peek-char p)) char) (let-values () (assert-delimeter! (peek-char p)) c))))) (if (eq? c #\a) (read-named #\l "larm" (integer->char 7)) (if (eq? c #\b) (read-named #\a "ackspace" (integer->char 8)) (if (eq? c #\d) (read-named #\e "elete" (integer->char 127)) (if (eq? c #\e) (read-named #\s "sc" (integer->char 27)) (if (eq? c #\l) (read-named #\i "inefeed" #\newline) (if (eq? c #\n) (if (eq? (peek-char p) #\u) (read-named #\u "ul" (integer->char 0)) (read-named #\e "ewline" #\newline)) (if (eq? c #\p) (read-named #\a "age" (integer->char 12)) (if (eq? c #\r) (read-named #\e "eturn" (integer->char 13)) (if (eq? c #\s) (read-named #\p "pace" #\space) (if (eq? c #\t) (read-named #\a "ab" (integer->char 9)) (if (eq? c #\v) (read-named #\t "tab" (integer->char 11)) (let-values () (assert-delimeter! (peek-char p)) c))))))))))))))) ((digits->number) (lambda (digits) (letrec-values (((str) (apply string (reverse digits))) ((num) (string->number str)) (() (let-values () (if num (void) (let-values () (errorf (quote read) "number out of range: ~a" str))) (values)))) num))) ((read-number) (lambda (prefix) (letrec-values (((chars) prefix)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p))) (if (digit? c) (let-values () (set! chars (cons (read-char p) chars)) (read-digit!)) (if (symbol-char? c) (read-symbol chars) (let-values () (assert-delimeter! c) (digits->number chars)))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\a) (let-values () (read-char p) (loop (cons (integer->char 7) acc))) (if (eq? c #\b) (let-values () (read-char p) (loop (cons (integer->char 8) acc))) (if (eq? c #\t) (let-values () (read-char p) (loop (cons (integer->char 9) acc))) (if (eq? c #\v) (let-values () (read-char p) (loop (cons (integer->char 11) acc))) (if (eq? c #\f) (let-values () (read-char p) (loop (cons (integer->char 12) acc))) (if (eq? c #\r) (let-values () (read-char p) (loop (cons (integer->char 13) acc))) (if (eq? c #\') (let-values () (read-char p) (loop (cons #\' acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c))))))))))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((comment) (box #f)) ((read-loop) (lambda () (letrec-values (((datum) (read-one))) (if (eq? datum comment) (read-loop) datum)))) ((read-one) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-datum) (values)))) comment)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t320) (eq? c #\+))) (if or-t320 or-t320 (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (datum->syntax (read-number (list c))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t321) (eq? c oparen))) (if or-t321 or-t321 (let-values (((or-t322) (eq? c obrack))) (if or-t322 or-t322 (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
+(define-values (read) (case-lambda (() (read (current-input-port))) ((p) (if (input-port? p) (void) (let-values () (raise-argument-error (quote read) "input-port?" p))) (letrec-values (((oparen) (integer->char 40)) ((cparen) (integer->char 41)) ((obrack) (integer->char 91)) ((cbrack) (integer->char 93)) ((obrace) (integer->char 123)) ((cbrace) (integer->char 125)) ((space?) (lambda (c) (if (char? c) (let-values (((or-t301) (eq? c #\space))) (if or-t301 or-t301 (<= 9 (char->integer c) 13))) #f))) ((delimeter?) (lambda (c) (let-values (((or-t302) (eof-object? c))) (if or-t302 or-t302 (let-values (((or-t303) (space? c))) (if or-t303 or-t303 (let-values (((or-t304) (eq? c oparen))) (if or-t304 or-t304 (let-values (((or-t305) (eq? c obrack))) (if or-t305 or-t305 (let-values (((or-t306) (eq? c obrace))) (if or-t306 or-t306 (let-values (((or-t307) (eq? c cparen))) (if or-t307 or-t307 (let-values (((or-t308) (eq? c cbrack))) (if or-t308 or-t308 (let-values (((or-t309) (eq? c cbrace))) (if or-t309 or-t309 (let-values (((or-t310) (eq? c #\"))) (if or-t310 or-t310 (eq? c #\;))))))))))))))))))))) ((symbol-char?) (lambda (c) (not (delimeter? c)))) ((digit?) (lambda (c) (letrec-values (((0-char) (char->integer #\0)) ((9-char) (char->integer #\9))) (if (char? c) (<= 0-char (char->integer c) 9-char) #f)))) ((hex-digit?) (lambda (c) (letrec-values (((i) (if (char? c) (char->integer c) -1))) (let-values (((or-t311) (<= (char->integer #\0) i (char->integer #\9)))) (if or-t311 or-t311 (let-values (((or-t312) (<= (char->integer #\a) i (char->integer #\f)))) (if or-t312 or-t312 (<= (char->integer #\A) i (char->integer #\F))))))))) ((digit-prefix?) (lambda (c) (let-values (((or-t313) (digit? c))) (if or-t313 or-t313 (if (let-values (((or-t314) (eq? c #\-))) (if or-t314 or-t314 (eq? c #\+))) (digit? (peek-char p)) #f))))) ((assert-not-eof!) (lambda (c) (if (eof-object? c) (error (quote read) "unexpected end of input") (void)))) ((assert-matching-parens!) (lambda (open close) (if (let-values (((or-t315) (if (eq? open oparen) (eq? close cparen) #f))) (if or-t315 or-t315 (let-values (((or-t316) (if (eq? open obrack) (eq? close cbrack) #f))) (if or-t316 or-t316 (if (eq? open obrace) (eq? close cbrace) #f))))) (void) (errorf (quote read) "parenthesis mismatch, expected ~a" close)))) ((assert-delimeter!) (lambda (c) (if (not (delimeter? c)) (error (quote read) "expected a delimeter") (void)))) ((skip-comment!) (lambda () (letrec-values (((c) (peek-char p))) (if (eof-object? c) (void) (if (eq? c #\newline) (void) (let-values () (read-char p) (skip-comment!))))))) ((skip-block-comment!) (lambda () (letrec-values (((loop) (lambda (block-level) (if (= block-level 0) (void) (let-values () (letrec-values (((c) (read-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\|) (let-values () (read-char p) (loop (+ block-level 1))) (loop block-level)))) (if (eq? c #\|) (let-values () (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c #\#) (let-values () (read-char p) (loop (- block-level 1))) (loop block-level)))) (loop block-level))))))))) (loop 1)))) ((skip-until-token!) (lambda () (letrec-values (((c) (peek-char p))) (if (space? c) (let-values () (read-char p) (skip-until-token!)) (if (eq? c #\;) (let-values () (read-char p) (skip-comment!) (skip-until-token!)) (void)))))) ((check-expected-string!) (lambda (s) (letrec-values (((len) (string-length s))) (letrec-values (((loop) (lambda (i) (if (< i len) (let-values () (letrec-values (((c) (read-char p))) (if (eof-object? c) (error (quote read) "unexpected end of input") (if (eq? c (string-ref s i)) (loop (+ i 1)) (errorf (quote read) "unexpected character ~a" c))))) (void))))) (loop 0))))) ((read-datum) (lambda () (letrec-values (((datum) (read-loop)) (() (let-values () (assert-not-eof! datum) (values)))) datum))) ((read-pair) (lambda (open) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t317) (eq? c cparen))) (if or-t317 or-t317 (let-values (((or-t318) (eq? c cbrack))) (if or-t318 or-t318 (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (quote ())) (let-values () (letrec-values (((car) (read-one))) (letrec-values (((loop) (lambda (car) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? car comment) (read-pair open) (if (eq? c #\#) (let-values () (letrec-values (((next) (read-one))) (if (eq? next comment) (loop car) (cons car (loop next))))) (if (eq? c #\.) (let-values () (letrec-values (((maybe-dot) (read-loop))) (if (eq? (syntax-e maybe-dot) (quote .)) (let-values () (letrec-values (((cdr) (read-datum))) (letrec-values (((close) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (let-values (((or-t319) (eq? c cparen))) (if or-t319 or-t319 (let-values (((or-t320) (eq? c cbrack))) (if or-t320 or-t320 (eq? c cbrace))))) (let-values () (assert-matching-parens! open c) (read-char p) (cons car cdr)) (if (if (eq? c #\#) (eq? (read-one) comment) #f) (close) (error (quote read) "missing closing parenthesis"))))))) (close)))) (cons car (loop maybe-dot))))) (let-values () (letrec-values (((cdr) (read-pair open))) (cons car cdr)))))))))) (loop car)))))))) ((read-vector) (lambda () (letrec-values (((loop) (lambda (elems) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values)))) (if (eq? c cparen) (let-values () (read-char p) (list->vector (reverse elems))) (let-values () (letrec-values (((elem) (read-one))) (loop (if (eq? elem comment) elems (cons elem elems)))))))))) (loop (quote ()))))) ((read-character) (lambda () (letrec-values (((c) (read-char p)) (() (let-values () (if (eof-object? c) (error (quote read) "incomplete character literal") (void)) (values))) ((read-named) (lambda (first rest char) (if (eq? (peek-char p) first) (let-values () (check-expected-string! rest) (assert-delimeter! (peek-char p)) char) (let-values () (assert-delimeter! (peek-char p)) c))))) (if (eq? c #\a) (read-named #\l "larm" (integer->char 7)) (if (eq? c #\b) (read-named #\a "ackspace" (integer->char 8)) (if (eq? c #\d) (read-named #\e "elete" (integer->char 127)) (if (eq? c #\e) (read-named #\s "sc" (integer->char 27)) (if (eq? c #\l) (read-named #\i "inefeed" #\newline) (if (eq? c #\n) (if (eq? (peek-char p) #\u) (read-named #\u "ul" (integer->char 0)) (read-named #\e "ewline" #\newline)) (if (eq? c #\p) (read-named #\a "age" (integer->char 12)) (if (eq? c #\r) (read-named #\e "eturn" (integer->char 13)) (if (eq? c #\s) (read-named #\p "pace" #\space) (if (eq? c #\t) (read-named #\a "ab" (integer->char 9)) (if (eq? c #\v) (read-named #\t "tab" (integer->char 11)) (let-values () (assert-delimeter! (peek-char p)) c))))))))))))))) ((digits->number) (lambda (digits) (letrec-values (((str) (apply string (reverse digits))) ((num) (string->number str)) (() (let-values () (if num (void) (let-values () (errorf (quote read) "number out of range: ~a" str))) (values)))) num))) ((read-number) (lambda (prefix) (letrec-values (((chars) prefix)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p))) (if (digit? c) (let-values () (set! chars (cons (read-char p) chars)) (read-digit!)) (if (symbol-char? c) (read-symbol chars) (let-values () (assert-delimeter! c) (digits->number chars)))))))) (read-digit!))))) ((read-hex-number) (lambda (c) (letrec-values (((chars) (quote ())) ((sign) (if (eq? c #\-) (let-values () (read-char p) (set! chars (cons c chars)) -1) (if (eq? c #\+) (let-values () (read-char p) (set! chars (cons c chars)) 1) 1))) ((0-char) (char->integer #\0)) ((a-char) (char->integer #\a)) ((A-char) (char->integer #\A)) ((num) 0)) (letrec-values (((read-digit!) (lambda () (letrec-values (((c) (peek-char p)) (() (let-values () (set! chars (cons c chars)) (values)))) (if (hex-digit? c) (let-values () (read-char p) (letrec-values (((i) (char->integer c)) (() (let-values () (if (digit? c) (set! num (+ (* 16 num) (- i 0-char))) (if (>= i a-char) (set! num (+ (* 16 num) (+ 10 (- i a-char)))) (set! num (+ (* 16 num) (+ 10 (- i A-char)))))) (values)))) (read-digit!))) (if (symbol-char? c) (let-values () (read-char p) (read-symbol chars)) (let-values () (assert-delimeter! (peek-char p)) (* num sign)))))))) (read-digit!))))) ((read-string) (lambda () (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (error (quote read) "non-terminated string literal") (void)) (if (eq? c #\\) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\n) (let-values () (read-char p) (loop (cons #\newline acc))) (if (eq? c #\a) (let-values () (read-char p) (loop (cons (integer->char 7) acc))) (if (eq? c #\b) (let-values () (read-char p) (loop (cons (integer->char 8) acc))) (if (eq? c #\t) (let-values () (read-char p) (loop (cons (integer->char 9) acc))) (if (eq? c #\v) (let-values () (read-char p) (loop (cons (integer->char 11) acc))) (if (eq? c #\f) (let-values () (read-char p) (loop (cons (integer->char 12) acc))) (if (eq? c #\r) (let-values () (read-char p) (loop (cons (integer->char 13) acc))) (if (eq? c #\') (let-values () (read-char p) (loop (cons #\' acc))) (if (eq? c #\\) (let-values () (read-char p) (loop (cons #\\ acc))) (if (eq? c #\") (let-values () (read-char p) (loop (cons #\" acc))) (errorf (quote read) "unknown escape character ~a" c))))))))))))) (if (eq? c #\") (let-values () (read-char p) (reverse acc)) (let-values () (read-char p) (loop (cons c acc)))))))))) (loop (quote ()))))) ((read-symbol) (lambda (acc) (letrec-values (((loop) (lambda (acc) (letrec-values (((c) (peek-char p))) (if (symbol-char? c) (loop (cons (read-char p) acc)) (let-values () (assert-delimeter! (peek-char p)) (string->symbol (apply string (reverse acc))))))))) (loop acc)))) ((comment) (box #f)) ((read-loop) (lambda () (letrec-values (((datum) (read-one))) (if (eq? datum comment) (read-loop) datum)))) ((read-one) (lambda () (skip-until-token!) (letrec-values (((c) (peek-char p))) (if (eof-object? c) (let-values () (read-char p) c) (if (eq? c #\#) (let-values () (read-char p) (letrec-values (((c) (peek-char p))) (if (eq? c #\t) (let-values () (read-char p) (datum->syntax #t)) (if (eq? c #\f) (let-values () (read-char p) (datum->syntax #f)) (if (eq? c #\\) (let-values () (read-char p) (datum->syntax (read-character))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote syntax) (read-datum)))) (if (eq? c oparen) (let-values () (read-char p) (datum->syntax (read-vector))) (if (eq? c #\&) (let-values () (read-char p) (datum->syntax (box (read-datum)))) (if (eq? c #\x) (let-values () (read-char p) (datum->syntax (read-hex-number (peek-char p)))) (if (eq? c #\;) (let-values () (read-char p) (skip-until-token!) (letrec-values (((c) (peek-char p)) (() (let-values () (assert-not-eof! c) (values))) (() (let-values () (read-datum) (values)))) comment)) (if (eq? c #\|) (let-values () (read-char p) (skip-block-comment!) comment) (errorf (quote read) "unknown special character ~a" c)))))))))))) (if (let-values (((or-t321) (eq? c #\+))) (if or-t321 or-t321 (eq? c #\-))) (let-values () (read-char p) (letrec-values (((n) (peek-char p))) (if (digit? n) (datum->syntax (read-number (list c))) (datum->syntax (read-symbol (list c)))))) (if (digit? c) (datum->syntax (read-number (quote ()))) (if (eq? c #\") (let-values () (read-char p) (letrec-values (((str-chars) (read-string)) (() (let-values () (assert-delimeter! (peek-char p)) (values)))) (datum->syntax (apply string str-chars)))) (if (let-values (((or-t322) (eq? c oparen))) (if or-t322 or-t322 (let-values (((or-t323) (eq? c obrack))) (if or-t323 or-t323 (eq? c obrace))))) (let-values () (read-char p) (datum->syntax (read-pair c))) (if (eq? c #\') (let-values () (read-char p) (datum->syntax (list (quote quote) (read-datum)))) (if (symbol-char? c) (datum->syntax (read-symbol (quote ()))) (errorf (quote read) "unexpected input: ~a" c))))))))))))) (read-loop)))))
diff --git a/src/library/private/cond.min b/src/library/private/cond.min
index 431c45e..a6a6fc4 100644
--- a/src/library/private/cond.min
+++ b/src/library/private/cond.min
@@ -14,7 +14,7 @@
           (if (stx-null? e)
               (quote-syntax (void))
               (let-values ([(c) (stx-car e)])
-                (if (and (stx-list? c) (not (null? c)))
+                (if (and (stx-list? c) (not (stx-null? c)))
                     (let-values ([(test) (stx-car c)]
                                  [(then) (stx-cdr c)]
                                  [(then-clause)
diff --git a/src/library/private/let.min b/src/library/private/let.min
index b01bfe8..b981c6a 100644
--- a/src/library/private/let.min
+++ b/src/library/private/let.min
@@ -43,7 +43,7 @@
                        (let-values ([(id) bindings]
                                     [(bindings) (stx-car e)]
                                     [(e) (stx-cdr e)])
-                         (if (not (stx-list? stx))
+                         (if (or (stx-null? e) (not (stx-list? bindings)))
                              (serr "not a sequence of bindings" stx)
                              (let-values ([(vars vals)
                                            (splice-bindings (syntax-e bindings) null null)])
@@ -58,7 +58,7 @@
                                      (cons id vals)))))))]
                       [else
                        ; let form
-                       (if (not (stx-list? stx))
+                       (if (not (stx-list? bindings))
                            (serr "not a sequence of bindings" stx)
                            (let-values ([(vars vals)
                                          (splice-bindings (syntax-e bindings) null null)])
@@ -109,7 +109,7 @@
                                                                [(vals) (cons val vals)])
                                                     (splice-bindings bindings vars vals))
                                                   (serr "not a sequence of bindings" stx)))))))))])
-                      (if (not (stx-list? stx))
+                      (if (not (stx-list? bindings))
                           (serr "not a sequence of bindings" stx)
                           (let-values ([(vars vals)
                                         (splice-bindings (syntax-e bindings) null null)])
@@ -165,7 +165,7 @@
                                                                [(vals) (cons val vals)])
                                                     (splice-bindings bindings vars vals))
                                                   (serr "not a sequence of bindings" stx)))))))))])
-                      (if (not (stx-list? stx))
+                      (if (not (stx-list? bindings))
                           (serr "not a sequence of bindings" stx)
                           (let-values ([(vars vals)
                                         (splice-bindings (syntax-e bindings) null null)])
-- 
2.43.0


From 896d86ab9c0d632008c810ce6ab123fee3122de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:23 +0000
Subject: [PATCH 88/92] fix: wildcard in a list pattern of syntax-case requires
 a pair

---
 src/library/private/stxcase.min | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/library/private/stxcase.min b/src/library/private/stxcase.min
index a64fe74..2eb64b2 100644
--- a/src/library/private/stxcase.min
+++ b/src/library/private/stxcase.min
@@ -244,14 +244,14 @@
                               (list
                                 (quote-syntax if)
                                 (list
-                                  (quote-syntax stx-null/#f)
+                                  (quote-syntax stx-pair?)
                                   (quote-syntax e))
-                                #f
                                 (loop tail-pat (+ idx 1)
                                       (datum->syntax
                                         (list
                                           (quote-syntax stx-cdr)
-                                          (quote-syntax e)))))]
+                                          (quote-syntax e))))
+                                #f)]
                              [(variable? head-pat)
                               ; variable =>
                               ;  bind one variable
-- 
2.43.0


From 6f6570b935e677c152416ef8da0239aceb2391d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:43 +0000
Subject: [PATCH 89/92] fix: syntax-case matches the patterns after an ellipsis
 in a vector

---
 src/library/private/stxcase.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/private/stxcase.min b/src/library/private/stxcase.min
index 2eb64b2..3eda72e 100644
--- a/src/library/private/stxcase.min
+++ b/src/library/private/stxcase.min
@@ -494,7 +494,7 @@
                                       [else
                                        (list
                                          (quote-syntax append/#f)
-                                         (gen-match/expr (vector-ref v i)
+                                         (gen-match/expr (vector-ref v (+ before-ellipsis 1 i))
                                                          (datum->syntax
                                                            (list
                                                              (quote-syntax stx-vector-ref)
-- 
2.43.0


From 5003cb490409a7891117c94aed0dcc2521c1afc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:43 +0000
Subject: [PATCH 90/92] fix: templates reject an ellipsis without a template or
 a variable to repeat

---
 src/library/private/template-utils.min | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/library/private/template-utils.min b/src/library/private/template-utils.min
index dfc9bb7..b87496d 100644
--- a/src/library/private/template-utils.min
+++ b/src/library/private/template-utils.min
@@ -101,7 +101,7 @@
                 stx tstx)]
              [(ormap (lambda (v)
                        (let ([pdepth (cadr v)])
-                         (>= pdepth depth)))
+                         (> pdepth depth)))
                      inner-vars)
               (define-values (mapped-vars const-vars)
                 (let loop ([vars inner-vars] [mapped null] [const null])
@@ -203,6 +203,8 @@
       (let loop ([lst lst] [next (cdr lst)] [i 0] [acc null])
         (cond
           [(null? lst) (values (reverse acc) i)]
+          [(...? (car lst))
+           (raise-syntax-error 'syntax "no template before ellipsis" stx (car lst))]
           [(null? next) (loop (cdr lst) #f (+ i 1) (cons (parse (car lst) depth) acc))]
           [(...? (car next))
            (define recur (list 'append tstx #f #f (parse (car lst) (+ depth 1))))
-- 
2.43.0


From 2749402a1b236028474eca2d6e352f827865cc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:44 +0000
Subject: [PATCH 91/92] fix: the tail a syntax-case pattern binds is syntax and
 may follow an ellipsis in a template

---
 src/library/private/stxcase.min        | 16 ++++++++++++++--
 src/library/private/template-utils.min |  6 +++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/library/private/stxcase.min b/src/library/private/stxcase.min
index 3eda72e..8b6f2c3 100644
--- a/src/library/private/stxcase.min
+++ b/src/library/private/stxcase.min
@@ -177,7 +177,14 @@
                          (= (+ idx 1) before-ellipsis))
                      ; end (tail) of list => 
                      ;  match on empty list (tail)
-                     (gen-match/datum (if prop? (quote-syntax ()) pat) arg)]
+                     ;  (a tail may be a list rather than syntax)
+                     (if prop?
+                         (gen-match/datum (quote-syntax ()) arg)
+                         (gen-match/datum pat
+                                          (datum->syntax
+                                            (list
+                                              (quote-syntax datum->syntax)
+                                              arg))))]
                     [else
                      (define head-pat (stx-car pat))
                      (define tail-pat
@@ -342,7 +349,12 @@
                       (gen-match/expr (datum->syntax pre)
                                       (quote-syntax pre))
                       (gen-match/expr (datum->syntax post)
-                                      (quote-syntax post)))
+                                      (if (stx-pair? post)
+                                          (quote-syntax post)
+                                          (datum->syntax
+                                            (list
+                                              (quote-syntax datum->syntax)
+                                              (quote-syntax post))))))
                     #f))])]
             [(stx-vector? pattern)
              (define v (syntax-e pattern))
diff --git a/src/library/private/template-utils.min b/src/library/private/template-utils.min
index b87496d..d42b74a 100644
--- a/src/library/private/template-utils.min
+++ b/src/library/private/template-utils.min
@@ -328,7 +328,11 @@
       (cond
         [(< idx n) (cons (car guide) (loop (+ idx 1) (cdr guide)))]
         [(not mode) (cons arg (cdr guide))]
-        [(eq? mode 'append) (append arg (cdr guide))]
+        [(eq? mode 'append)                     ; rest of guide may be a tail
+         (let loop ([arg arg])
+           (cond
+             [(null? arg) (cdr guide)]
+             [else (cons (car arg) (loop (cdr arg)))]))]
         [(eq? mode 'tail) arg]
         [else (error #f "unknown substitution operator" mode)])))
     
-- 
2.43.0


From 26a3a786d1ab3e43aaed6cb724465ac3055fed5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:44 +0000
Subject: [PATCH 92/92] fix: syntax-case reports a literal that is not an
 identifier as a syntax error

---
 src/library/private/stxcase.min | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/library/private/stxcase.min b/src/library/private/stxcase.min
index 8b6f2c3..7355401 100644
--- a/src/library/private/stxcase.min
+++ b/src/library/private/stxcase.min
@@ -21,7 +21,7 @@
             'syntax-case
             "literal is not an identifier"
             stx
-            (syntax-e x))))
+            x)))
       (syntax-e lits))
     (for-each
       (lambda (cl)
-- 
2.43.0

