From 67f972aa83a3c7050fbc4af0435cb99c02ac19b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:48 +0000
Subject: [PATCH 01/12] fix: reject accesses ending at the last 32-bit address
 of a small memory

With a page size of 1, the number of pages needed for an access which
ends at address 0xffffffff wrapped around to 0. The bounds check then
accepted the access for a memory of any size.
---
 lib/exec_insn_subr.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 1ce6f5d..0922f92 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -74,8 +74,7 @@ memory_instance_getptr2(struct meminst *meminst, uint32_t ptr, uint32_t offset,
         }
         if (__predict_false(last_byte >= meminst->allocated)) {
                 const uint32_t page_shift = memtype_page_shift(meminst->type);
-                uint32_t need_in_pages = (last_byte >> page_shift) + 1;
-                if (need_in_pages > meminst->size_in_pages) {
+                if ((last_byte >> page_shift) >= meminst->size_in_pages) {
 do_trap:
                         return ETOYWASMTRAP;
                 }
-- 
2.43.0


From 39071c2c6cefcbcc93d2fabcab73de9132380ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:48 +0000
Subject: [PATCH 02/12] fix: compute the size of a shared memory with 64-bit
 arithmetic

A shared memory of 65536 pages got no backing storage because the
32-bit shift overflowed to 0.
---
 lib/instance.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/instance.c b/lib/instance.c
index 4d9ff3c..6fac1ec 100644
--- a/lib/instance.c
+++ b/lib/instance.c
@@ -185,7 +185,7 @@ memory_instance_create(struct mem_context *mctx, struct meminst **mip,
                 uint32_t need_in_pages = mt->lim.min;
 #endif /* defined(TOYWASM_PREALLOC_SHARED_MEMORY) */
                 uint32_t page_shift = memtype_page_shift(mt);
-                uint64_t need_in_bytes = need_in_pages << page_shift;
+                uint64_t need_in_bytes = (uint64_t)need_in_pages << page_shift;
                 if (need_in_bytes > SIZE_MAX) {
                         ret = EOVERFLOW;
                         goto fail1;
-- 
2.43.0


From 79dc84572d02d82823438e7e49d777a339e8fd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:04 +0000
Subject: [PATCH 03/12] fix: convert a past time between clocks instead of
 reporting overflow

convert_timespec subtracts the age of the given time from the current time
of the target clock.  The range check was inverted: it reported EOVERFLOW
when the result was representable and tripped an assertion when it was not.
---
 lib/timeutil.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/timeutil.c b/lib/timeutil.c
index cea79cf..0d22a67 100644
--- a/lib/timeutil.c
+++ b/lib/timeutil.c
@@ -228,7 +228,7 @@ convert_timespec(clockid_t from_id, clockid_t to_id,
         } else {
                 struct timespec t;
                 timespec_sub(&from_now, from_ts, &t);
-                if (timespec_cmp(&to_now, &t) > 0) {
+                if (timespec_cmp(&to_now, &t) < 0) {
                         ret = EOVERFLOW;
                         goto fail;
                 }
-- 
2.43.0


From b607881906a607690941b45f63fcd144a5f0ef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:04 +0000
Subject: [PATCH 04/12] fix: avoid 32-bit wraparound when testing an id near
 the maximum

idalloc_test computed the end of the allocated range as base + size, which
wraps to zero for a range ending at UINT32_MAX.  Allocated ids were then
reported as free.
---
 lib/idalloc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/idalloc.c b/lib/idalloc.c
index 4fbd87c..cf74703 100644
--- a/lib/idalloc.c
+++ b/lib/idalloc.c
@@ -69,7 +69,7 @@ idalloc_test(struct idalloc *ida, uint32_t id)
         if (id < ida->base) {
                 return false;
         }
-        if (id >= ida->base + ida->vec.lsize) {
+        if (id - ida->base >= ida->vec.lsize) {
                 return false;
         }
         return *idalloc_getptr(ida, id) != FREE_SLOT;
-- 
2.43.0


From dfd5c73e4305bb90bdfac481e7e4d8110387e393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:41 +0000
Subject: [PATCH 05/12] fix: compute table cell offsets in size_t

Table element indices were multiplied by the number of cells per
element in 32-bit arithmetic.  For tables with 2^31 or more elements
the product wraps, so an access to a high element touched a low one.
---
 lib/cell.c           |  2 +-
 lib/cell.h           |  3 ++-
 lib/exec_insn_subr.c | 10 +++++-----
 lib/insn_impl_fc.h   |  6 +++---
 4 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/lib/cell.c b/lib/cell.c
index 3560cbb..f78bf53 100644
--- a/lib/cell.c
+++ b/lib/cell.c
@@ -307,7 +307,7 @@ cells_copy(struct cell *restrict dst, const struct cell *restrict src,
 }
 
 void
-cells_move(struct cell *dst, const struct cell *src, uint32_t ncells)
+cells_move(struct cell *dst, const struct cell *src, size_t ncells)
 {
         if (dst <= src) {
                 while (ncells > 0) {
diff --git a/lib/cell.h b/lib/cell.h
index 579334f..fa75928 100644
--- a/lib/cell.h
+++ b/lib/cell.h
@@ -1,6 +1,7 @@
 #if !defined(_TOYWASM_CELL_H)
 #define _TOYWASM_CELL_H
 
+#include <stddef.h>
 #include <stdint.h>
 
 #include "toywasm_config.h"
@@ -61,7 +62,7 @@ void vals_from_cells(struct val *vals, const struct cell *cells,
 
 void cells_zero(struct cell *cells, uint32_t ncells);
 void cells_copy(struct cell *dst, const struct cell *src, uint32_t ncells);
-void cells_move(struct cell *dst, const struct cell *src, uint32_t ncells);
+void cells_move(struct cell *dst, const struct cell *src, size_t ncells);
 
 __END_EXTERN_C
 
diff --git a/lib/exec_insn_subr.c b/lib/exec_insn_subr.c
index 0922f92..8bc3b0c 100644
--- a/lib/exec_insn_subr.c
+++ b/lib/exec_insn_subr.c
@@ -279,7 +279,7 @@ table_init(struct exec_context *ectx, uint32_t tableidx, uint32_t elemidx,
                                 goto fail;
                         }
                 }
-                val_to_cells(&val, &t->cells[(d + i) * csz], csz);
+                val_to_cells(&val, &t->cells[(size_t)(d + i) * csz], csz);
                 xlog_trace("table %" PRIu32 " offset %" PRIu32
                            " initialized to %016" PRIx64,
                            tableidx, d + i, val.u.i64);
@@ -293,14 +293,14 @@ void
 table_set(struct tableinst *tinst, uint32_t elemidx, const struct val *val)
 {
         uint32_t csz = valtype_cellsize(tinst->type->et);
-        val_to_cells(val, &tinst->cells[elemidx * csz], csz);
+        val_to_cells(val, &tinst->cells[(size_t)elemidx * csz], csz);
 }
 
 void
 table_get(struct tableinst *tinst, uint32_t elemidx, struct val *val)
 {
         uint32_t csz = valtype_cellsize(tinst->type->et);
-        val_from_cells(val, &tinst->cells[elemidx * csz], csz);
+        val_from_cells(val, &tinst->cells[(size_t)elemidx * csz], csz);
 }
 
 int
@@ -320,7 +320,7 @@ table_get_func(struct exec_context *ectx, const struct tableinst *t,
         }
         struct val val;
         uint32_t csz = valtype_cellsize(t->type->et);
-        val_from_cells(&val, &t->cells[i * csz], csz);
+        val_from_cells(&val, &t->cells[(size_t)i * csz], csz);
         const struct funcinst *func = val.u.funcref.func;
         if (__predict_false(func == NULL)) {
                 ret = trap_with_id(ectx, TRAP_CALL_INDIRECT_NULL_FUNCREF,
@@ -377,7 +377,7 @@ table_grow(struct tableinst *t, const struct val *val, uint32_t n)
 
         uint32_t i;
         for (i = t->size; i < newsize; i++) {
-                val_to_cells(val, &t->cells[i * csz], csz);
+                val_to_cells(val, &t->cells[(size_t)i * csz], csz);
         }
         uint32_t oldsize = t->size;
         t->size = newsize;
diff --git a/lib/insn_impl_fc.h b/lib/insn_impl_fc.h
index 6eed818..8a2c3cf 100644
--- a/lib/insn_impl_fc.h
+++ b/lib/insn_impl_fc.h
@@ -205,8 +205,8 @@ INSN_IMPL(table_copy)
                         VEC_ELEM(inst->tables, tableidx_src);
                 assert(t_src->type->et == t_dst->type->et);
                 uint32_t csz = valtype_cellsize(t_src->type->et);
-                cells_move(&t_dst->cells[d * csz], &t_src->cells[s * csz],
-                           n * csz);
+                cells_move(&t_dst->cells[(size_t)d * csz],
+                           &t_src->cells[(size_t)s * csz], (size_t)n * csz);
         }
         SAVE_PC;
         INSN_SUCCESS;
@@ -283,7 +283,7 @@ INSN_IMPL(table_fill)
                 uint32_t i;
                 uint32_t csz = valtype_cellsize(t->type->et);
                 for (i = start; i < end; i++) {
-                        val_to_cells(&val_val, &t->cells[i * csz], csz);
+                        val_to_cells(&val_val, &t->cells[(size_t)i * csz], csz);
                 }
         }
         SAVE_PC;
-- 
2.43.0


From eb6a056b410bd5503348e598a28f8acffde97a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:41:36 +0000
Subject: [PATCH 06/12] fix: reject trailing bytes in the datacount section

The datacount section decoder reported that it had used the whole section.
A section with extra bytes after the count was thus accepted.
Report the actual position so that the caller can detect the extra bytes.
---
 lib/module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/module.c b/lib/module.c
index 3dcc019..de16fca 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -1797,7 +1797,7 @@ read_datacount_section(const uint8_t **pp, const uint8_t *ep,
         ctx->has_datacount = true;
         ctx->ndatas_in_datacount = count;
         ret = 0;
-        *pp = ep;
+        *pp = p;
 fail:
         return ret;
 }
-- 
2.43.0


From 1d64a9f721f66848a52666fe01d4187c966a651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:41:36 +0000
Subject: [PATCH 07/12] fix: detect overflow of the total number of locals

The number of parameters plus the number of declared locals can exceed the
range of uint32_t.  In that case the validator wrote the types of the locals
past the end of a too small array.
---
 lib/expr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/expr.c b/lib/expr.c
index d1363bb..c9dca20 100644
--- a/lib/expr.c
+++ b/lib/expr.c
@@ -60,7 +60,11 @@ read_expr_common(const uint8_t **pp, const uint8_t *ep, struct expr *expr,
         vctx->ei = ei = &expr->ei;
         memset(ei, 0, sizeof(*ei));
 
-        uint32_t lsize = parameter_types->ntypes + nlocals;
+        uint32_t lsize;
+        if (ADD_U32_OVERFLOW(parameter_types->ntypes, nlocals, &lsize)) {
+                ret = EOVERFLOW;
+                goto fail;
+        }
         ret = VEC_PREALLOC(vctx->mctx, vctx->locals, lsize);
         if (ret != 0) {
                 goto fail;
-- 
2.43.0


From d1c7ec1c206450b5352de70c3c5abb968fde0a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:43:38 +0000
Subject: [PATCH 08/12] fix: detect overflow of the number of cells for locals

A function can declare so many locals that the number of cells they need
exceeds the range of uint32_t.  Locals were then accessed outside of the
operand stack.  Reject such functions when loading them, and also check the
sums made when a frame is entered.
---
 lib/exec.c   | 10 ++++++++--
 lib/module.c |  7 +++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/exec.c b/lib/exec.c
index 77e0eef..16858c9 100644
--- a/lib/exec.c
+++ b/lib/exec.c
@@ -183,7 +183,13 @@ frame_enter(struct exec_context *ctx, struct instance *inst, uint32_t funcidx,
         }
         const uint32_t nparams = resulttype_cellsize(paramtype);
         const uint32_t func_nlocals = localtype_cellsize(localtype);
-        const uint32_t nlocals = nparams + func_nlocals;
+        uint32_t nlocals;
+        uint32_t ncells;
+        if (ADD_U32_OVERFLOW(nparams, func_nlocals, &nlocals) ||
+            ADD_U32_OVERFLOW(nlocals, ei->maxcells, &ncells)) {
+                return trap_with_id(ctx, TRAP_TOO_MANY_STACKCELLS,
+                                    "too many values on the operand stack");
+        }
         frame = &VEC_NEXTELEM(ctx->frames);
         frame->instance = inst;
         frame->funcidx = funcidx;
@@ -237,7 +243,7 @@ frame_enter(struct exec_context *ctx, struct instance *inst, uint32_t funcidx,
 #else
         const bool params_on_stack = params == &VEC_NEXTELEM(ctx->stack);
 
-        ret = stack_prealloc(ctx, nlocals + ei->maxcells);
+        ret = stack_prealloc(ctx, ncells);
         if (ret != 0) {
                 return ret;
         }
diff --git a/lib/module.c b/lib/module.c
index de16fca..668f477 100644
--- a/lib/module.c
+++ b/lib/module.c
@@ -1028,6 +1028,7 @@ read_locals(const uint8_t **pp, const uint8_t *ep, struct func *func,
         int ret;
         struct localchunk *chunks = NULL;
         uint32_t nlocals = 0;
+        uint32_t ncells = 0;
 
         ret = read_vec_count(&p, ep, &vec_count);
         if (ret != 0) {
@@ -1066,6 +1067,12 @@ read_locals(const uint8_t **pp, const uint8_t *ep, struct func *func,
                         ret = EINVAL;
                         goto fail;
                 }
+                uint32_t csz;
+                if (MUL_U32_OVERFLOW(count, valtype_cellsize(u8), &csz) ||
+                    ADD_U32_OVERFLOW(ncells, csz, &ncells)) {
+                        ret = E2BIG;
+                        goto fail;
+                }
                 if (count == 0) {
                         /*
                          * local count can be 0.
-- 
2.43.0


From 721d14d19b61f6e1eb414d3eb07bd0f992c826a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:08:31 +0000
Subject: [PATCH 09/12] fix: return to table.init after evaluating an element
 expression

An element segment written as expressions was evaluated in the middle of
the execution of table.init by the same interpreter loop, which did not stop
at the end of the expression but went on with the interrupted function.
The operand stack pointer was not saved either.
---
 lib/exec.c         | 12 +++++++++++-
 lib/exec_context.h |  1 +
 lib/insn_impl_fc.h |  3 +++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/exec.c b/lib/exec.c
index 16858c9..bbbbc7c 100644
--- a/lib/exec.c
+++ b/lib/exec.c
@@ -1321,7 +1321,7 @@ exec_expr_continue(struct exec_context *ctx)
                 }
                 ctx->event = EXEC_EVENT_NONE;
                 if (ctx->frames.lsize == ctx->bottom) {
-                        if (ctx->restarts.lsize == 0) {
+                        if (ctx->restarts.lsize == ctx->restarts_bottom) {
                                 break;
                         }
                         return_to_hostfunc(ctx);
@@ -1465,6 +1465,14 @@ exec_const_expr(const struct expr *expr, enum valtype type, struct val *result,
         };
         int ret;
         uint32_t csz = valtype_cellsize(type);
+        /*
+         * we can be called in the middle of an execution. (table.init)
+         * make exec_expr return to us, not to the interrupted function.
+         */
+        uint32_t saved_bottom = ctx->bottom;
+        uint32_t saved_restarts_bottom = ctx->restarts_bottom;
+        ctx->bottom = ctx->frames.lsize;
+        ctx->restarts_bottom = ctx->restarts.lsize;
         ret = exec_expr(FUNCIDX_INVALID, expr, &no_locals, empty_rt, csz, NULL,
                         ctx);
         /*
@@ -1477,6 +1485,8 @@ exec_const_expr(const struct expr *expr, enum valtype type, struct val *result,
                            __func__);
                 ret = exec_expr_continue(ctx);
         }
+        ctx->bottom = saved_bottom;
+        ctx->restarts_bottom = saved_restarts_bottom;
         if (ret != 0) {
                 return ret;
         }
diff --git a/lib/exec_context.h b/lib/exec_context.h
index 08c3494..bcbda2f 100644
--- a/lib/exec_context.h
+++ b/lib/exec_context.h
@@ -312,6 +312,7 @@ struct exec_context {
         /* Restart */
         VEC(, struct restart_info) restarts;
         uint32_t bottom;
+        uint32_t restarts_bottom; /* for nested executions of const exprs */
 
 #if defined(TOYWASM_USE_USER_SCHED)
         int exec_ret;
diff --git a/lib/insn_impl_fc.h b/lib/insn_impl_fc.h
index 8a2c3cf..46af20b 100644
--- a/lib/insn_impl_fc.h
+++ b/lib/insn_impl_fc.h
@@ -143,7 +143,10 @@ INSN_IMPL(table_init)
                 uint32_t d = val_d.u.i32;
                 uint32_t s = val_s.u.i32;
                 uint32_t n = val_n.u.i32;
+                /* Note: table_init might execute const exprs */
+                SAVE_STACK_PTR;
                 ret = table_init(ectx, tableidx, elemidx, d, s, n);
+                LOAD_STACK_PTR;
                 if (ret != 0) {
                         goto fail;
                 }
-- 
2.43.0


From 82a59fad4c2faa7d305a6216c40d2bc0ac1ce46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:01:26 +0000
Subject: [PATCH 10/12] fix: reject libraries whose memory or table
 requirements overflow

The sizes and alignments in the dylink.0 section of a shared library are not
trusted.  An alignment of 2^32 or more, or a size beyond the end of the address
space, wrapped around and tripped an assertion or handed out an overlapping
region.  Fail the load with EOVERFLOW instead.  The same for a main module
whose memory already fills the address space.
---
 libdyld/dyld.c | 53 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/libdyld/dyld.c b/libdyld/dyld.c
index 28546de..0ea3eb5 100644
--- a/libdyld/dyld.c
+++ b/libdyld/dyld.c
@@ -29,6 +29,7 @@
 #include "load_context.h"
 #include "mem.h"
 #include "module.h"
+#include "platform.h"
 #include "slist.h"
 #include "type.h"
 #include "util.h"
@@ -146,24 +147,25 @@ static const struct globaltype globaltype_i32_const = {
         .mut = GLOBAL_CONST,
 };
 
-static uint32_t
-align_up(uint32_t v, uint32_t align)
-{
-        uint32_t mask = align - 1;
-        return (v + mask) & ~mask;
-}
-
-static uint32_t
-align_up_log(uint32_t v, uint32_t palign)
+static int
+align_up_log(uint32_t v, uint32_t palign, uint32_t *resultp)
 {
-        uint32_t align = 1 << palign;
-        return align_up(v, align);
+        if (palign >= 32) {
+                return EOVERFLOW;
+        }
+        uint32_t mask = ((uint32_t)1 << palign) - 1;
+        uint32_t t;
+        if (ADD_U32_OVERFLOW(v, mask, &t)) {
+                return EOVERFLOW;
+        }
+        *resultp = t & ~mask;
+        return 0;
 }
 
 static uint32_t
 howmany(uint32_t a, uint32_t b)
 {
-        return (a + b - 1) / b;
+        return a / b + (a % b != 0);
 }
 
 static uint32_t
@@ -523,8 +525,15 @@ dyld_allocate_memory(struct dyld *d, uint32_t align, uint32_t sz,
                      uint32_t *resultp)
 {
         uint32_t oldbase = d->memory_base;
-        uint32_t aligned = align_up_log(oldbase, align);
-        uint32_t newbase = aligned + sz;
+        uint32_t aligned;
+        uint32_t newbase;
+        int ret0 = align_up_log(oldbase, align, &aligned);
+        if (ret0 != 0) {
+                return ret0;
+        }
+        if (ADD_U32_OVERFLOW(aligned, sz, &newbase)) {
+                return EOVERFLOW;
+        }
         assert(newbase >= oldbase);
         const uint32_t page_size = 1 << memtype_page_shift(d->meminst->type);
         uint32_t oldnpg = howmany(oldbase, page_size);
@@ -547,8 +556,15 @@ dyld_allocate_table(struct dyld *d, uint32_t align, uint32_t sz,
                     uint32_t *resultp)
 {
         uint32_t oldbase = d->table_base;
-        uint32_t aligned = align_up_log(oldbase, align);
-        uint32_t newbase = aligned + sz;
+        uint32_t aligned;
+        uint32_t newbase;
+        int ret0 = align_up_log(oldbase, align, &aligned);
+        if (ret0 != 0) {
+                return ret0;
+        }
+        if (ADD_U32_OVERFLOW(aligned, sz, &newbase)) {
+                return EOVERFLOW;
+        }
         assert(newbase >= oldbase);
         if (newbase > oldbase) {
                 uint32_t ret =
@@ -1149,6 +1165,11 @@ dyld_adopt_shared_resources(struct dyld *d, const struct dyld_object *obj)
         }
         d->meminst = VEC_ELEM(inst->mems, memidx);
         uint32_t page_shift = memtype_page_shift(d->meminst->type);
+        if (d->meminst->type->lim.min > (UINT32_MAX >> page_shift)) {
+                xlog_error("dyld: no room in memory from %.*s",
+                           CSTR(obj->name));
+                return EOVERFLOW;
+        }
         d->memory_base = d->meminst->type->lim.min << page_shift;
 
         uint32_t tableidx;
-- 
2.43.0


From 31246ffd345b1c0088241ea76ceb55918ea0ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:05:55 +0000
Subject: [PATCH 11/12] fix: make fd_renumber safe for any descriptor numbers

fd_renumber expanded the descriptor table up to the target number before
checking that the target is open.  For 2^32-1 the new size wrapped to zero:
all descriptors were dropped and the heap was overwritten.  The expansion is
not needed, as the target has to be open anyway.  Also refuse that number when
expanding the table.

Renumbering a descriptor to itself tripped an assertion, or closed it.  It is
a no-op now.

Two assertions were assignments by mistake.
---
 libwasi/wasi_abi_fd.c | 15 +++++++--------
 libwasi/wasi_table.c  |  3 +++
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/libwasi/wasi_abi_fd.c b/libwasi/wasi_abi_fd.c
index fa59864..9251396 100644
--- a/libwasi/wasi_abi_fd.c
+++ b/libwasi/wasi_abi_fd.c
@@ -890,12 +890,6 @@ wasi_fd_renumber(struct exec_context *ctx, struct host_instance *hi,
 
         toywasm_mutex_lock(&wasi->lock);
 
-        /* ensure the table size is big enough */
-        ret = wasi_table_expand(wasi, tblidx, wasifd_to);
-        if (ret != 0) {
-                goto fail_locked;
-        }
-
         /* Note: we check "to" first because it can involve a restart */
 
         /*
@@ -910,6 +904,11 @@ wasi_fd_renumber(struct exec_context *ctx, struct host_instance *hi,
                 goto fail_locked;
         }
 
+        if (wasifd_from == wasifd_to) {
+                /* nothing to do */
+                goto fail_locked;
+        }
+
         /* check "from" */
         ret = wasi_table_lookup_locked(wasi, tblidx, wasifd_from,
                                        &fdinfo_from);
@@ -922,11 +921,11 @@ wasi_fd_renumber(struct exec_context *ctx, struct host_instance *hi,
         fdinfo_to->refcount--;
         struct wasi_fdinfo **to_slot =
                 wasi_table_slot_ptr(wasi, tblidx, wasifd_to);
-        assert(*to_slot = fdinfo_to);
+        assert(*to_slot == fdinfo_to);
         *to_slot = fdinfo_from;
         struct wasi_fdinfo **from_slot =
                 wasi_table_slot_ptr(wasi, tblidx, wasifd_from);
-        assert(*from_slot = fdinfo_from);
+        assert(*from_slot == fdinfo_from);
         *from_slot = NULL;
 
         toywasm_mutex_unlock(&wasi->lock);
diff --git a/libwasi/wasi_table.c b/libwasi/wasi_table.c
index f0a5cbd..e12562b 100644
--- a/libwasi/wasi_table.c
+++ b/libwasi/wasi_table.c
@@ -138,6 +138,9 @@ wasi_table_expand(struct wasi_instance *wasi, enum wasi_table_idx idx,
         if (maxfd < osize) {
                 return 0;
         }
+        if (maxfd == UINT32_MAX) {
+                return EOVERFLOW;
+        }
         int ret = VEC_RESIZE(wasi->mctx, table->table, maxfd + 1);
         if (ret != 0) {
                 return ret;
-- 
2.43.0


From b6254284664e4ee269d6035f37303bfe9e1c8cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:17:40 +0000
Subject: [PATCH 12/12] fix: allocate enough for paths of the largest length

The size of the host buffer for a guest path or symlink target was computed in
32 bits.  For a length of 2^32-1 it wrapped to zero and the copy from guest
memory overran the heap.
---
 libwasi/wasi_abi_path.c  | 2 +-
 libwasi/wasi_path_subr.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libwasi/wasi_abi_path.c b/libwasi/wasi_abi_path.c
index ef4b558..57df18d 100644
--- a/libwasi/wasi_abi_path.c
+++ b/libwasi/wasi_abi_path.c
@@ -202,7 +202,7 @@ wasi_path_symlink(struct exec_context *ctx, struct host_instance *hi,
         struct path_info pi = PATH_INITIALIZER;
         int host_ret = 0;
         int ret = 0;
-        target_buf = malloc(targetlen + 1);
+        target_buf = malloc((size_t)targetlen + 1);
         if (target_buf == NULL) {
                 ret = ENOMEM;
                 goto fail;
diff --git a/libwasi/wasi_path_subr.c b/libwasi/wasi_path_subr.c
index 9bab4b2..9838970 100644
--- a/libwasi/wasi_path_subr.c
+++ b/libwasi/wasi_path_subr.c
@@ -39,7 +39,7 @@ wasi_copyin_and_convert_path(struct exec_context *ctx,
         struct wasi_fdinfo *dirfdinfo = NULL;
         int host_ret = 0;
         int ret = 0;
-        wasmpath = malloc(pathlen + 1);
+        wasmpath = malloc((size_t)pathlen + 1);
         if (wasmpath == NULL) {
                 ret = ENOMEM;
                 goto fail;
-- 
2.43.0

