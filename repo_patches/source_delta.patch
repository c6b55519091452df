From b4eae18982e84007565d7d6ab7a090fb112ad66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:58 +0000
Subject: [PATCH 01/54] fix: BXL reads the branch target before overwriting the
 link register

---
 rvm/rvmcpu.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index b95b6ed..773a342 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -203,8 +203,10 @@ static void rvm_op_bxneq(rvmcpu_t *cpu, rvm_asmins_t *ins)
 
 static void rvm_op_bxl(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
+	rpointer target = RVM_CPUREG_GETIP(cpu, ins->op1);
+
 	RVM_CPUREG_SETIP(cpu, LR, RVM_CPUREG_GETIP(cpu, PC));
-	RVM_CPUREG_SETIP(cpu, PC, RVM_CPUREG_GETIP(cpu, ins->op1));
+	RVM_CPUREG_SETIP(cpu, PC, target);
 }
 
 
-- 
2.43.0


From 439e8f4b2e0e83902b7ea28ea0d60d4c2b432e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:58 +0000
Subject: [PATCH 02/54] fix: ADC/SBC carry out accounts for the carry in

---
 rvm/rvmcpu.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 773a342..f201f12 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -374,10 +374,11 @@ static void rvm_op_adds(rvmcpu_t *cpu, rvm_asmins_t *ins)
 static void rvm_op_adc(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
+	ruword carry = RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 1 : 0;
 	
-	res = op2 + op3 + (RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 1 : 0);
+	res = op2 + op3 + carry;
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
-	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, res < op2 || res < op3);
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, carry ? res <= op2 : res < op2);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_V, (op2 & RVM_SIGN_BIT) == (op3 & RVM_SIGN_BIT) &&
@@ -636,10 +637,11 @@ static void rvm_op_subs(rvmcpu_t *cpu, rvm_asmins_t *ins)
 static void rvm_op_sbc(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
+	ruword borrow = RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 0 : 1;
 
-	res = op2 - op3 + (RVM_STATUS_GETBIT(cpu, RVM_STATUS_C) ? 0 : -1);
+	res = op2 - op3 - borrow;
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
-	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, !(res > op2));	/* borrow = !carry */
+	RVM_STATUS_UPDATE(cpu, RVM_STATUS_C, borrow ? op2 > op3 : op2 >= op3);	/* borrow = !carry */
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_N, res & RVM_SIGN_BIT);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_V, (op2 & RVM_SIGN_BIT) != (op3 & RVM_SIGN_BIT) &&
-- 
2.43.0


From 1597befadf80bc7ddba33d08f3cf4e0507aefa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 03/54] fix: VM runtime errors stop the program with an error
 instead of terminating the process

---
 rvm/rvmcpu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rvm/rvmcpu.h b/rvm/rvmcpu.h
index 26fe889..224f205 100644
--- a/rvm/rvmcpu.h
+++ b/rvm/rvmcpu.h
@@ -417,7 +417,7 @@ enum {
 };
 
 #define RVM_STACK_CHUNK 256
-#define RVM_ABORT(__cpu__, __e__) do { __cpu__->error = (__e__); (__cpu__)->abort = 1; R_ASSERT(0); return; } while (0)
+#define RVM_ABORT(__cpu__, __e__) do { __cpu__->error = (__e__); (__cpu__)->abort = 1; return; } while (0)
 #define BIT(__shiftby__) (1 << (__shiftby__))
 #define BITR(__f__, __l__, __r__) (((__r__) >= (__f__) && (__r__) <= (__l__)) ? BIT(__r__) : 0)
 #define BITS(__f__, __l__)  (BITR(__f__, __l__, R0)) | (BITR(__f__, __l__, R1)) | (BITR(__f__, __l__, R2)) | (BITR(__f__, __l__, R3)) | \
-- 
2.43.0


From 2fe8400754d9d870900c110c9c0687dfd2cf095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 04/54] fix: a VM runtime error is reported as RPA_E_EXECUTION

---
 rpa/rpastat.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 6e7f10f..096a9c5 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -126,16 +126,11 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 		ret = rvm_cpu_exec(stat->cpu, prog, off);
 	}
 	if (ret < 0) {
-		if (!stat->cpu->error) {
-			if (stat->cpu->error) {
-				RPA_STAT_SETERROR_CODE(stat, stat->cpu->error);
-			} else {
-				/*
-				 * We should never get to here. Error have to be more
-				 * specific and set at the places they are detected.
-				 */
-				RPA_STAT_SETERROR_CODE(stat, RPA_E_EXECUTION);
-			}
+		/*
+		 * The more specific errors are set at the places they are detected.
+		 */
+		if (stat->err.code == RPA_E_NONE) {
+			RPA_STAT_SETERROR_CODE(stat, RPA_E_EXECUTION);
 		}
 		return -1;
 	}
-- 
2.43.0


From a92c0bca9322d4e055bc2e48aa3b25670c5469df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 05/54] fix: rpa_stat_exec rejects an invalid input range
 instead of executing on it

---
 rpa/rpastat.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index 096a9c5..cbba607 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -118,7 +118,10 @@ long rpa_stat_exec(rpastat_t *stat, rvm_asmins_t *prog, ruword off, unsigned int
 		return -1;
 	}
 	rpa_stat_cacheinvalidate(stat);
-	rpa_stat_init(stat, encoding, input, start, end, records);
+	if (rpa_stat_init(stat, encoding, input, start, end, records) < 0) {
+		RPA_STAT_SETERROR_CODE(stat, RPA_E_INVALIDINPUT);
+		return -1;
+	}
 
 	if (stat->debug) {
 		ret = rvm_cpu_exec_debug(stat->cpu, prog, off);
-- 
2.43.0


From 1ccd8361ab440a15c8235d5bbfcb8ad1d2607a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 06/54] fix: rpa_stat_create releases the cache when the VM
 cannot be created

---
 rpa/rpastat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rpa/rpastat.c b/rpa/rpastat.c
index cbba607..f75088d 100644
--- a/rpa/rpastat.c
+++ b/rpa/rpastat.c
@@ -35,6 +35,7 @@ rpastat_t *rpa_stat_create(rpadbex_t *dbex, unsigned long stacksize)
 	stat->cpu = rpavm_cpu_create(stacksize);
 	stat->cache = rpa_cache_create();
 	if (!stat->cpu) {
+		rpa_cache_destroy(stat->cache);
 		r_free(stat);
 		return NULL;
 	}
-- 
2.43.0


From 2c65bc3a0352abed139e3d3eafc35bd5bc0eb581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 07/54] fix: r_array_move rejects a source range beyond the
 array

---
 rlib/rarray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rarray.c b/rlib/rarray.c
index e7c980f..ed51e0d 100644
--- a/rlib/rarray.c
+++ b/rlib/rarray.c
@@ -201,7 +201,7 @@ void *r_array_slot_expand(rarray_t *array, size_t index)
 int r_array_move(rarray_t *array, size_t dst, size_t src, size_t size)
 {
 	size_t i;
-	if ((dst + size) > r_array_length(array))
+	if ((dst + size) > r_array_length(array) || (src + size) > r_array_length(array))
 		return -1;
 	if (dst == src)
 		return 0;
-- 
2.43.0


From a07d6bd1e5e9a2afbe6f5dd62b9e75c0b30a7225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 08/54] fix: r_harray_taillookup_s searches from the tail

---
 rlib/rharray.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rharray.c b/rlib/rharray.c
index 58398c0..d42ffa4 100644
--- a/rlib/rharray.c
+++ b/rlib/rharray.c
@@ -213,7 +213,7 @@ long r_harray_taillookup(rharray_t *harray, const char *name, unsigned int names
 
 long r_harray_taillookup_s(rharray_t *harray, const char *name)
 {
-	return r_harray_lookup(harray, name, r_strlen(name));
+	return r_harray_taillookup(harray, name, r_strlen(name));
 }
 
 
-- 
2.43.0


From 165ee99576aac985ad981ae7a2f86b39505ff13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:56 +0000
Subject: [PATCH 09/54] fix: r_ref_create honors the requested type

---
 rlib/rref.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rlib/rref.c b/rlib/rref.c
index f474976..16297a6 100644
--- a/rlib/rref.c
+++ b/rlib/rref.c
@@ -36,7 +36,7 @@ rref_t *r_ref_create(rref_type_t type)
 {
 	rref_t *ref;
 	ref = (rref_t*)r_object_create(sizeof(*ref));
-	r_ref_init((robject_t*)ref, R_OBJECT_REF, r_ref_cleanup, r_ref_copy, 1, RREF_TYPE_SHARED);
+	r_ref_init((robject_t*)ref, R_OBJECT_REF, r_ref_cleanup, r_ref_copy, 1, type);
 	return ref;
 }
 
-- 
2.43.0


From bc30b1e4732ac9330843faefd473df0f18900335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 10/54] fix: rvm_reg_array_unref_gcdata hides and restores the
 length of chunked arrays, not their capacity

---
 rvm/rvmreg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rvm/rvmreg.c b/rvm/rvmreg.c
index b639fcb..5d59987 100644
--- a/rvm/rvmreg.c
+++ b/rvm/rvmreg.c
@@ -73,7 +73,7 @@ void rvm_reg_array_unref_gcdata(robject_t *obj)
 			/*
 			 * set the size to 0, to prevent circular references to come back here
 			 */
-			array->alloc_size = 0;
+			r_carray_setlength(array, 0);
 			for (i = 0; i < size; i++) {
 				r = (rvmreg_t*) r_carray_slot(array, i);
 				if (rvm_reg_tstflag(r, RVM_INFOBIT_ROBJECT)) {
@@ -93,7 +93,7 @@ void rvm_reg_array_unref_gcdata(robject_t *obj)
 			/*
 			 * Restore the size
 			 */
-			array->alloc_size = size;
+			r_carray_setlength(array, size);
 		}
 	}
 }
-- 
2.43.0


From a39c0e7b0db0eebe9fbdaaa6c532c5eab0e5ba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 11/54] fix: MODS does not print its result to the standard
 output

---
 rvm/rvmcpu.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index f201f12..9da6076 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -721,7 +721,6 @@ static void rvm_op_mods(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	if (!op3)
 		RVM_ABORT(cpu, RVM_E_DIVZERO);
 	res = op2 % op3;
-	r_printf("mod RES: %ld\n", res);
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
-- 
2.43.0


From c30500898d6b294be8edab06296c7c25573c2d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 12/54] fix: DVS and MODS of the smallest value by -1 do not
 trap

---
 rvm/rvmcpu.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 9da6076..b32dd05 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -720,7 +720,7 @@ static void rvm_op_mods(rvmcpu_t *cpu, rvm_asmins_t *ins)
 
 	if (!op3)
 		RVM_ABORT(cpu, RVM_E_DIVZERO);
-	res = op2 % op3;
+	res = (op3 == -1) ? 0 : op2 % op3;	/* the smallest value % -1 traps */
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
@@ -735,7 +735,7 @@ static void rvm_op_dvs(rvmcpu_t *cpu, rvm_asmins_t *ins)
 
 	if (!op3)
 		RVM_ABORT(cpu, RVM_E_DIVZERO);
-	res = (rword)(op2 / op3);
+	res = (op3 == -1) ? (rword)(0 - (ruword)op2) : op2 / op3;	/* the smallest value / -1 traps */
 	RVM_CPUREG_SETU(cpu, ins->op1, res);
 	RVM_STATUS_CLRALL(cpu);
 	RVM_STATUS_UPDATE(cpu, RVM_STATUS_Z, !res);
-- 
2.43.0


From f3a0368222d0cebfb6ed973f8cb91799cad0f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 13/54] fix: LDS, POP and POPM do not read outside the machine
 stack

---
 rvm/rvmcpu.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index b32dd05..f84aa58 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -758,6 +758,8 @@ static void rvm_op_lds(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword sp = ((ins->op2 != XX) ? RVM_CPUREG_GETU(cpu, ins->op2) : 0) + ((ins->op3 != XX) ? RVM_CPUREG_GETU(cpu, ins->op3) : 0);
 
+	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+		RVM_ABORT(cpu, RVM_E_NOMEM);
 	RVM_CPUREG_SET(cpu, ins->op1, RVM_STACK_READ(cpu->stack, sp));
 }
 
@@ -807,6 +809,8 @@ static void rvm_op_popm(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	for (; bits && i >= 0; i--) {
 		n = 1 << i;
 		if (n & bits) {
+			if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+				RVM_ABORT(cpu, RVM_E_NOMEM);
 			RVM_CPUREG_SET(cpu, i, RVM_STACK_READ(cpu->stack, sp));
 			sp -= 1;
 			bits &= ~n;
@@ -821,6 +825,8 @@ static void rvm_op_pop(rvmcpu_t *cpu, rvm_asmins_t *ins)
 {
 	ruword sp = RVM_CPUREG_GETU(cpu, SP);
 
+	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+		RVM_ABORT(cpu, RVM_E_NOMEM);
 	RVM_CPUREG_SET(cpu, ins->op1, RVM_STACK_READ(cpu->stack, sp));
 	if (ins->op1 != SP)
 		RVM_CPUREG_SETU(cpu, SP, sp - 1);
-- 
2.43.0


From 045e591c96c525e939698cf02f117765c7f6aa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 14/54] fix: PUSHM checks each slot, so a wrapped stack pointer
 cannot pass the size check

---
 rvm/rvmcpu.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index f84aa58..9519147 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -780,15 +780,14 @@ static void rvm_op_pushm(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	ruword bits = RVM_CPUREG_GETU(cpu, ins->op1);
 	ruword sp = RVM_CPUREG_GETU(cpu, SP);
 
-	if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp + RVM_REGS_NUM))
-		RVM_ABORT(cpu, RVM_E_NOMEM);
-
 	if (!(bits & ((1<<(RVM_REGS_NUM / 2)) - 1)))
 		i = RVM_REGS_NUM / 2;
 	for (;bits && i < RLST; i++) {
 		n = ((ruword)1) << i;
 		if (n & bits) {
 			sp += 1;
+			if (!RVM_STACK_CHECKSIZE(cpu, cpu->stack, sp))
+				RVM_ABORT(cpu, RVM_E_NOMEM);
 			RVM_STACK_WRITE(cpu->stack, sp, &RVM_CPUREG_GET(cpu, i));
 			bits &= ~n;
 		}
-- 
2.43.0


From d0ca9445b18de90897e9f816c77b7871e19c569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 15/54] fix: rpa_compiler_addblob_s adds the blob

---
 rpa/rpacompiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index 5fd7847..ab4ad02 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -334,7 +334,7 @@ long rpa_compiler_addblob(rpa_compiler_t *co, long ruleid, long ruleuid, unsigne
 
 long rpa_compiler_addblob_s(rpa_compiler_t *co, long ruleid, long ruleuid, unsigned long flags, const char *name)
 {
-	return 0;
+	return rpa_compiler_addblob(co, ruleid, ruleuid, flags, name, r_strlen(name));
 }
 
 
-- 
2.43.0


From 3968c1fc325e69a28e4f2d79726ca4eabd637e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:26 +0000
Subject: [PATCH 16/54] fix: r_map_add without a value clears a reused slot

---
 rlib/rmap.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rlib/rmap.c b/rlib/rmap.c
index adbe23a..320cff4 100644
--- a/rlib/rmap.c
+++ b/rlib/rmap.c
@@ -187,6 +187,8 @@ size_t r_map_add(rmap_t *map, const char *name, size_t namesize, rconstpointer p
 	node = r_map_getfreenode(map, name, namesize);
 	if (pval)
 		r_memcpy(node->value.data, pval, map->elt_size);
+	else
+		r_memset(node->value.data, 0, map->elt_size);
 	node->nbucket = (r_map_rstring_hash(node->key) & r_map_hashmask(map));
 	r_list_addt(&map->hash[node->nbucket], &node->hash);
 	r_list_addt(&map->active, &node->active);
-- 
2.43.0


From ca652cc4631e16fd3c986174862bb11e64f19792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 17/54] fix: rpa_recordtree_copy copies the requested branch,
 not the first records of the array

---
 rpa/rparecord.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index fa4f1c9..ca4d13c 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -193,7 +193,7 @@ long rpa_recordtree_copy(rarray_t *dst, rarray_t *src, long rec)
 	size = rpa_recordtree_size(src, rec);
 
 	for (i = 0; i < size; i++) {
-		prec = rpa_record_get(src, i);
+		prec = rpa_record_get(src, rec + i);
 		r_array_add(dst, prec);
 	}
 	return size;
-- 
2.43.0


From 9395fd48e2b83913d2170e270900ee2fe116105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 18/54] fix: record functions use no index that is outside of
 the records array

---
 rpa/rparecord.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index ca4d13c..f6066d2 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -204,7 +204,9 @@ int rpa_recordtree_move(rarray_t *records, long dst, long src, long size)
 {
 	long i;
 	rparecord_t *srcrec, *dstrec;
-	if ((dst + size) > (long)r_array_length(records))
+	if (dst < 0 || src < 0 || size < 0)
+		return -1;
+	if ((dst + size) > (long)r_array_length(records) || (src + size) > (long)r_array_length(records))
 		return -1;
 	if (dst == src)
 		return 0;
@@ -232,6 +234,8 @@ long rpa_recordtree_walk(rarray_t *records, long rec, long level, rpa_recordtree
 	if (level > 128)
 		return -1;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
+	if (rec < 0)
+		return -1;
 	if (callback && callback(records, rec, userdata) < 0)
 		return -1;
 	for (child = rpa_recordtree_firstchild(records, rec, RPA_RECORD_START); child >= 0; child = rpa_recordtree_next(records, child, RPA_RECORD_START)) {
@@ -239,6 +243,8 @@ long rpa_recordtree_walk(rarray_t *records, long rec, long level, rpa_recordtree
 			return -1;
 	}
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_END);
+	if (rec < 0)
+		return -1;
 	if (callback && callback(records, rec, userdata) < 0)
 		return -1;
 	return 0;
@@ -271,7 +277,7 @@ long rpa_record_getruleuid(rarray_t *records, long rec)
 	if (rec < 0)
 		return -1;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return -1;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	return prec->ruleuid;
@@ -285,12 +291,12 @@ void rpa_record_setusertype(rarray_t *records, long rec, ruint32 usertype, rvals
 	if (rec < 0)
 		return;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	rpa_recordptr_setusertype(prec, usertype, op);
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_END);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	rpa_recordptr_setusertype(prec, usertype, op);
@@ -304,7 +310,7 @@ long rpa_record_getusertype(rarray_t *records, long rec)
 	if (rec < 0)
 		return -1;
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_START);
-	if (rec >= (long)r_array_length(records))
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return -1;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	return prec->usertype;
@@ -430,6 +436,10 @@ void rpa_record_dumpindented(rarray_t *records, long rec, int level)
 	r_printf("%s, %c, %c", prec->rule, rpa_record_optchar(prec, 'x'), rpa_record_loopchar(prec, 'x'));
 	r_printf(")");
 	rec = rpa_recordtree_get(records, rec, RPA_RECORD_END);
+	if (rec < 0) {
+		r_printf("\n");
+		return;
+	}
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	size = R_MIN(prec->inputsiz, sizeof(buffer) - 1);
 	r_strncpy(buffer, prec->input, size);
-- 
2.43.0


From 391fe7a1786635a895f5847b4ae203cfb3e90736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 19/54] fix: rpa_record_dump stays inside of its buffer and of
 the records array

---
 rpa/rparecord.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rpa/rparecord.c b/rpa/rparecord.c
index f6066d2..1cec924 100644
--- a/rpa/rparecord.c
+++ b/rpa/rparecord.c
@@ -362,7 +362,7 @@ void rpa_record_dump(rarray_t *records, long rec, int wantuserdata)
 	int n = 0, size;
 	char optc = ' ';
 
-	if (rec < 0 || rec >= (long)records->alloc_size)
+	if (rec < 0 || rec >= (long)r_array_length(records))
 		return;
 	prec = (rparecord_t *)r_array_slot(records, rec);
 	if (prec->type & RPA_RECORD_END) {
@@ -390,6 +390,8 @@ void rpa_record_dump(rarray_t *records, long rec, int wantuserdata)
 	if (prec->type & RPA_RECORD_END)
 		n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "END   ");
 	n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, "%s ", prec->rule);
+	if (n > bufsize)
+		n = bufsize;
 
 	r_memset(buf + n, ' ', bufsize - n);
 	n = 90;
@@ -406,9 +408,9 @@ void rpa_record_dump(rarray_t *records, long rec, int wantuserdata)
 	n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, " %c %c %c", optc,
 			(prec->usertype & RPA_LOOP_PATH) ? 'L' : ' ', (prec->usertype & RPA_NONLOOP_PATH) ? 'N' : ' ');
 	n += r_snprintf(buf + n, n < bufsize ? bufsize - n : 0, " : ");
-	size = prec->inputsiz;
-	if (size >= bufsize - n - 1)
-		size = bufsize - n - 1;
+	size = bufsize - n - 1;
+	if (prec->inputsiz < (unsigned long)size)
+		size = prec->inputsiz;
 	if (prec->type & (RPA_RECORD_END | RPA_RECORD_START)) {
 		r_strncpy(buf + n, prec->input, size);
 		n += size;
-- 
2.43.0


From 7039e4b75f30ef7977ea2c8eb3e053f6d3f17bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 20/54] fix: rex_transitions_add keeps the order when the range
 is given in reverse

---
 rex/rextransition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rextransition.c b/rex/rextransition.c
index 5d73f7c..449605a 100644
--- a/rex/rextransition.c
+++ b/rex/rextransition.c
@@ -86,7 +86,7 @@ rex_transition_t *rex_transitions_add(rarray_t *trans, rexchar_t c1, rexchar_t c
 	while (max > min) {
 		mid = (min + max)/2;
 		t = (rex_transition_t *)r_array_slot(trans, mid);
-		if (c1 >= t->lowin) {
+		if (ntrans.lowin >= t->lowin) {
 			min = mid + 1;
 		} else {
 			max = mid;
-- 
2.43.0


From c0389be2063078d3e02aa9d50829b59313cb3720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 21/54] fix: rex_regex_create returns NULL for an invalid
 expression, not the released object

---
 rex/rexregex.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rex/rexregex.c b/rex/rexregex.c
index a2fb8fa..1974bc0 100644
--- a/rex/rexregex.c
+++ b/rex/rexregex.c
@@ -81,8 +81,7 @@ rexregex_t *rex_regex_create(const char *str, unsigned int size)
 	rexregex_t *regex;
 
 	regex = (rexregex_t*)r_object_create(sizeof(*regex));
-	rex_regex_init((robject_t*)regex, R_OBJECT_REXREGEX, rex_regex_cleanup, NULL, str, size);
-	return regex;
+	return (rexregex_t*)rex_regex_init((robject_t*)regex, R_OBJECT_REXREGEX, rex_regex_cleanup, NULL, str, size);
 }
 
 
-- 
2.43.0


From e94b557d88a276322749bb5f97cf8a0967708f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 22/54] fix: byte matching does not sign extend the input

---
 rex/rexregex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexregex.c b/rex/rexregex.c
index 1974bc0..cef5247 100644
--- a/rex/rexregex.c
+++ b/rex/rexregex.c
@@ -171,7 +171,7 @@ static int rex_regex_match_byte(rexregex_t *regex, const char *start, const char
 	rexdfs_t *s;
 
 	while (input < end) {
-		wc = *input;
+		wc = (unsigned char)*input;
 		REX_DFA_NEXT(dfa, nstate, wc, &nstate);
 		if (nstate == 0)
 			break;
-- 
2.43.0


From 59e161aa0b852d623effe233802292d5f18df8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 23/54] fix: an empty alternative and an unbalanced ')' are
 syntax errors

---
 rex/rexcompiler.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 8e465c6..ab299d4 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -531,7 +531,7 @@ static int rex_compiler_catexpression(rexcompiler_t *co, rexdb_t *rexdb)
 		case REX_TOKEN_EOF:
 		case '|':
 		case ')':
-			return 0;
+			return nfactors ? 0 : -1;
 		}
 		if (rex_compiler_qfactor(co, rexdb) < 0)
 			return -1;
@@ -590,6 +590,8 @@ long rex_compiler_expression(rexcompiler_t *co, rexdb_t *rexdb, const char *str,
 	rex_compiler_getnbtok(co);
 	if (rex_compiler_altexpression(co, rexdb) < 0)
 		goto error;
+	if (co->token != REX_TOKEN_EOF)
+		goto error;
 	frag1 = FPOP(co);
 	frag2 = rex_fragment_create(rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_ACCEPT)));
 	rex_state_setuserdata(REX_FRAG_STATE(frag2), userdata);
-- 
2.43.0


From 494a646c4d9dcb67d8f7e4be6453d5f01d9128d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 24/54] fix: characters beyond ASCII are not classified as
 ASCII ones

---
 rex/rexcompiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index ab299d4..9391158 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -229,7 +229,7 @@ int rex_compiler_numerictoken(rexcompiler_t *co, rexdb_t *rexdb)
 	} else if (!isdigit(co->token)) {
 		return -1;
 	}
-	while ((base == 16 && isxdigit(co->token)) || (base == 8 && isdigit(co->token) && co->token != '8' && co->token != '9') || isdigit(co->token)) {
+	while ((base == 16 && co->token >= 0 && co->token < 0x80 && isxdigit(co->token)) || (base == 8 && isdigit(co->token) && co->token != '8' && co->token != '9') || isdigit(co->token)) {
 		if (i >= REX_CONV_BUFSIZE)
 			return -1;
 		convbuf[i++] = co->token;
@@ -408,7 +408,7 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 	rexstate_t *srcstate;
 	size_t nstates, i;
 
-	if (strchr("{}*?+]\n\r)", co->token)) {
+	if (co->token >= 0 && co->token < 0x80 && strchr("{}*?+]\n\r)", co->token)) {
 		/*
 		 * Unexpected char.
 		 */
-- 
2.43.0


From 5ecaa5d6efc86b411446db16952eeb6a999b5015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 25/54] fix: rex_compiler_setblanks uses only the given number
 of characters

---
 rex/rexcompiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 9391158..853f22b 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -81,7 +81,7 @@ long rex_compiler_setblanks(rexcompiler_t *co, const char *str, size_t size)
 	if (size + 1 > sizeof(co->blankchars))
 		return -1;
 	r_memset(co->blankchars, 0, sizeof(co->blankchars));
-	r_strncpy(co->blankchars, str, sizeof(co->blankchars) - 1);
+	r_strncpy(co->blankchars, str, size);
 	return 0;
 }
 
-- 
2.43.0


From d508591ba2af820981c0afd915c3b2c08cb7ffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 26/54] fix: release the fragment dropped by {0,0}

---
 rex/rexcompiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 853f22b..9179d68 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -460,7 +460,7 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 			/*
 			 * Special case
 			 */
-			frag = FPOP(co);
+			rex_fragment_destroy(FPOP(co));
 			for (i = nstates; i < r_array_length(rexdb->states); i++) {
 				srcstate = rex_db_getstate(rexdb, i);
 				rex_state_destroy(srcstate);
-- 
2.43.0


From 38f65ff993bd3eeb752979cb110f009c911b2b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 27/54] fix: rex_dfa_hash starts with an empty bit array

---
 rex/rexdfa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rex/rexdfa.c b/rex/rexdfa.c
index 301c839..0e16966 100644
--- a/rex/rexdfa.c
+++ b/rex/rexdfa.c
@@ -161,7 +161,7 @@ int rex_dfa_hash(rexdfa_t *dfa, unsigned int hbytes, unsigned int hbits)
 	dfa->hbytes = hbytes;
 	dfa->hbits = hbits;
 	dfa->hsize = REX_DFA_HASHSIZE(hbytes, hbits) >> 3;
-	dfa->bits = (unsigned char*)r_malloc(dfa->hsize);
+	dfa->bits = (unsigned char*)r_zmalloc(dfa->hsize);
 	rex_dfa_statehash(dfa, REX_DFA_STARTSTATE, hbytes - 1, hbits, 0);
 	return 0;
 }
-- 
2.43.0


From 83e34c31bf3aa29d56ac1c3b32c3bde9854c2f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 28/54] fix: rex_state_copy copies the user data

---
 rex/rexstate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rex/rexstate.c b/rex/rexstate.c
index 16d7840..bdb311b 100644
--- a/rex/rexstate.c
+++ b/rex/rexstate.c
@@ -69,6 +69,7 @@ robject_t* rex_state_copy(const robject_t *obj)
 	state->subset = (rarray_t*)src->subset->obj.copy((robject_t *)src->subset);
 	state->type = src->type;
 	state->uid = src->uid;
+	state->userdata = src->userdata;
 	return (robject_t *)state;
 }
 
-- 
2.43.0


From b8dc0fe628191a61d940571f947a7cb8147ef4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 29/54] fix: a counted repetition of a factor that contains
 counted repetitions uses its own counts

---
 rex/rexcompiler.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 9179d68..65ed0bd 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -485,12 +485,19 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 			const char *saved_ptr = co->ptr;
 			const char *saved_tokenptr = co->tokenptr;
 			int saved_token = co->token;
+			size_t saved_fromcount = co->fromcount;
+			size_t saved_tocount = co->tocount;
 			for (count = 1; count < co->tocount; count++) {
 				co->start = fstart;
 				co->end = fend;
 				co->ptr = fstart;
 				rex_compiler_getnbtok(co);
 				rex_compiler_catexpression(co, rexdb);
+				/*
+				 * The factor may contain counted repetitions.
+				 */
+				co->fromcount = saved_fromcount;
+				co->tocount = saved_tocount;
 				frag2 = FPOP(co);
 				if (co->tocount == (size_t)-1 && count >= co->fromcount) {
 					frag2 = rex_fragment_mop(rexdb, frag2);
-- 
2.43.0


From 4cd5c4f4f828a0d553b4b9dc0d5dba9fab5ee415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 30/54] fix: digits are not looked up beyond the character
 class table

---
 rex/rexcompiler.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 65ed0bd..b169940 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -205,6 +205,18 @@ again:
 }
 
 
+static int rex_compiler_isdigit(int c)
+{
+	return (c >= '0' && c <= '9');
+}
+
+
+static int rex_compiler_isxdigit(int c)
+{
+	return (c >= 0 && c < 0x80 && isxdigit(c));
+}
+
+
 #define REX_CONV_BUFSIZE 128
 int rex_compiler_numerictoken(rexcompiler_t *co, rexdb_t *rexdb)
 {
@@ -226,10 +238,10 @@ int rex_compiler_numerictoken(rexcompiler_t *co, rexdb_t *rexdb)
 		} else {
 			base = 8;
 		}
-	} else if (!isdigit(co->token)) {
+	} else if (!rex_compiler_isdigit(co->token)) {
 		return -1;
 	}
-	while ((base == 16 && co->token >= 0 && co->token < 0x80 && isxdigit(co->token)) || (base == 8 && isdigit(co->token) && co->token != '8' && co->token != '9') || isdigit(co->token)) {
+	while ((base == 16 && rex_compiler_isxdigit(co->token)) || (base == 8 && rex_compiler_isdigit(co->token) && co->token != '8' && co->token != '9') || rex_compiler_isdigit(co->token)) {
 		if (i >= REX_CONV_BUFSIZE)
 			return -1;
 		convbuf[i++] = co->token;
@@ -361,9 +373,9 @@ static int rex_compiler_parsecount(rexcompiler_t *co, rexdb_t *rexdb)
 	int i = 0;
 
 	rex_compiler_getnbtok(co);		/* eat '{' */
-	if (!isdigit(co->token))
+	if (!rex_compiler_isdigit(co->token))
 		return -1;
-	for (i = 0; isdigit(co->token); i++) {
+	for (i = 0; rex_compiler_isdigit(co->token); i++) {
 		if (i >= REX_CONV_BUFSIZE)
 			return -1;
 		convbuf[i] = co->token;
@@ -379,8 +391,8 @@ static int rex_compiler_parsecount(rexcompiler_t *co, rexdb_t *rexdb)
 	if (co->token == ',') {
 		rex_compiler_getnbtok(co);		/* eat ',' */
 		co->tocount = (size_t)-1;
-		if (isdigit(co->token)) {
-			for (i = 0; isdigit(co->token); i++) {
+		if (rex_compiler_isdigit(co->token)) {
+			for (i = 0; rex_compiler_isdigit(co->token); i++) {
 				if (i >= REX_CONV_BUFSIZE)
 					return -1;
 				convbuf[i] = co->token;
-- 
2.43.0


From 647e96897cbe13af9b9cd14a8cf753ab88cf3300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 31/54] fix: {0} does not unescape the token that follows

---
 rex/rexcompiler.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index b169940..f900965 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -479,7 +479,6 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 			}
 			r_array_setlength(rexdb->states, nstates);
 			srcstate = rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_NONE));
-			rex_compiler_adjustescapedtoken(co);
 			rex_state_addtransition_e(srcstate, -1);
 			frag = rex_fragment_create(srcstate);
 			FPUSH(co, frag);
-- 
2.43.0


From 88ea9624ac0b4b74ffe140dd006dbddda39e578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:01 +0000
Subject: [PATCH 32/54] fix: a factor that cannot be parsed again fails the
 expression

---
 rex/rexcompiler.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index f900965..8018bda 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -503,7 +503,8 @@ static int rex_compiler_qfactor(rexcompiler_t *co, rexdb_t *rexdb)
 				co->end = fend;
 				co->ptr = fstart;
 				rex_compiler_getnbtok(co);
-				rex_compiler_catexpression(co, rexdb);
+				if (rex_compiler_catexpression(co, rexdb) < 0)
+					return -1;
 				/*
 				 * The factor may contain counted repetitions.
 				 */
-- 
2.43.0


From 440ef6c50e988c5b735cc39a1e00c1cd868d5a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:54 +0000
Subject: [PATCH 33/54] fix: ROR rotates by op3 modulo the register width (a
 large op3 never ended)

---
 rvm/rvmcpu.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rvm/rvmcpu.c b/rvm/rvmcpu.c
index 9519147..58a8cce 100644
--- a/rvm/rvmcpu.c
+++ b/rvm/rvmcpu.c
@@ -463,6 +463,7 @@ static void rvm_op_ror(rvmcpu_t *cpu, rvm_asmins_t *ins)
 	ruword res, op2 = RVM_CPUREG_GETU(cpu, ins->op2), op3 = RVM_CPUREG_GETU(cpu, ins->op3);
 	
 	res = op2;
+	op3 &= RVM_REGISTER_BITS - 1;
 	for (i = 0; i < op3; i++) {
 		if (res & 1) {
 			res >>= 1;
-- 
2.43.0


From 5e9500f73f9e41de38fcd3a8ec5c85d64d76f7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 34/54] fix: rexjson: sizes of arrays and objects end with
 their closing token

---
 rexjson/rexjson.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/rexjson/rexjson.c b/rexjson/rexjson.c
index 89babab..2d3ff30 100644
--- a/rexjson/rexjson.c
+++ b/rexjson/rexjson.c
@@ -51,6 +51,7 @@ static void rexjson_get_token(rexjson_t *ctx)
 
 	ctx->token_str = buffer;
 	ctx->token_size = 0;
+	ctx->token_offset = ctx->offset;
 	ctx->token_id = -1;
 	for (i = 0; i < size; i++) {
 		ch = buffer[i];
@@ -68,10 +69,8 @@ static void rexjson_get_token(rexjson_t *ctx)
 			ctx->token_id = (int) acc_ss->userdata;
 		}
 	}
-	if (ctx->token_size > 0) {
-		ctx->token_offset = ctx->offset;
+	if (ctx->token_size > 0)
 		ctx->offset += ctx->token_size;
-	}
 }
 
 static void rexjson_next_token(rexjson_t *ctx)
@@ -131,6 +130,7 @@ static ssize_t rexjson_parse_namevalue(rexjson_t* ctx)
 static ssize_t rexjson_parse_object(rexjson_t* ctx)
 {
 	size_t cur_offset = ctx->token_offset;
+	size_t end_offset;
 	rexjson_record_t *record = rexjson_record_current(ctx);
 
 	if (rexjson_parse_token(ctx, TOKEN_LEFTCB) < 0)
@@ -145,17 +145,19 @@ static ssize_t rexjson_parse_object(rexjson_t* ctx)
 				return -1;
 		}
 	}
+	end_offset = ctx->token_offset + ctx->token_size;
 	if (rexjson_parse_token(ctx, TOKEN_RIGHTCB) < 0)
 		return -1;
 	record->value = cur_offset;
-	record->valuesize = ctx->token_offset - cur_offset;
+	record->valuesize = end_offset - cur_offset;
 	record->valtype = REXJSON_VALUE_OBJECT;
-	return (ctx->token_offset - cur_offset);
+	return (end_offset - cur_offset);
 }
 
 static ssize_t rexjson_parse_array(rexjson_t* ctx)
 {
 	size_t cur_offset = ctx->token_offset;
+	size_t end_offset;
 	rexjson_record_t *record = rexjson_record_current(ctx);
 
 	if (rexjson_parse_token(ctx, TOKEN_LEFTSB) < 0)
@@ -170,12 +172,13 @@ static ssize_t rexjson_parse_array(rexjson_t* ctx)
 				return -1;
 		}
 	}
+	end_offset = ctx->token_offset + ctx->token_size;
 	if (rexjson_parse_token(ctx, TOKEN_RIGHTSB) < 0)
 		return -1;
 	record->value = cur_offset;
-	record->valuesize = ctx->token_offset - cur_offset;
+	record->valuesize = end_offset - cur_offset;
 	record->valtype = REXJSON_VALUE_ARRAY;
-	return (ctx->token_offset - cur_offset);
+	return (end_offset - cur_offset);
 }
 
 
-- 
2.43.0


From d3d7cf9eab883b37b745243fee61f690db691106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:06 +0000
Subject: [PATCH 35/54] fix: rexjson++: assigning or moving a part of a value
 to the value itself

---
 rexjson/rexjson++.cpp | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 247b397..c93bf1a 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -148,10 +148,16 @@ void value::destroy()
 
 void value::move(value& v)
 {
-	value_type_ = v.value_type_;
-	store_ = v.store_;
-	v.value_type_ = null_type;
-	v.store_.v_null_ = NULL;
+	value tmp;
+
+	/*
+	 * The value moved could be part of the old contents
+	 */
+	std::swap(tmp.value_type_, v.value_type_);
+	std::swap(tmp.store_, v.store_);
+	destroy();
+	std::swap(tmp.value_type_, value_type_);
+	std::swap(tmp.store_, store_);
 }
 
 value::value(const value& v)
@@ -345,10 +351,12 @@ void value::check_type(value_type vtype) const
 
 value& value::operator=(const char* v)
 {
+	std::string *tmp = new std::string(v);
+
 	destroy();
 	check_type(null_type);
 	value_type_ = str_type;
-	store_.v_string_ = new std::string(v);
+	store_.v_string_ = tmp;
 	return *this;
 }
 
@@ -416,18 +424,23 @@ value& value::operator=(const array& v)
 
 value& value::operator=(const value& v)
 {
+	value tmp;
+
 	if (&v == this)
 		return *this;
-	destroy();
-	value_type_ = v.value_type_;
-	if (get_type() == str_type)
-		store_.v_string_ = new std::string(*v.store_.v_string_);
-	else if (get_type() == array_type)
-		store_.v_array_ = new array(*v.store_.v_array_);
-	else if (get_type() == obj_type)
-		store_.v_object_ =  new object(*v.store_.v_object_);
+	/*
+	 * Copy before the old contents go, v could be part of them
+	 */
+	if (v.get_type() == str_type)
+		tmp.store_.v_string_ = new std::string(*v.store_.v_string_);
+	else if (v.get_type() == array_type)
+		tmp.store_.v_array_ = new array(*v.store_.v_array_);
+	else if (v.get_type() == obj_type)
+		tmp.store_.v_object_ =  new object(*v.store_.v_object_);
 	else
-		store_ = v.store_;
+		tmp.store_ = v.store_;
+	tmp.value_type_ = v.value_type_;
+	move(tmp);
 	return *this;
 }
 
-- 
2.43.0


From 0e44adc6aab7d0bffcb8fad258c806746e9865e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 36/54] fix: a backslash at the end of a regular expression has
 no character to escape

---
 rex/rexcompiler.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/rex/rexcompiler.c b/rex/rexcompiler.c
index 8018bda..d40fc5b 100644
--- a/rex/rexcompiler.c
+++ b/rex/rexcompiler.c
@@ -155,16 +155,18 @@ static int rex_compiler_gettok(rexcompiler_t *co)
 
 /*
  * Don't do anything if this is not an escaped token
+ * Return -1 if there is no character after the '\\'
  */
-static void rex_compiler_adjustescapedtoken(rexcompiler_t *co)
+static int rex_compiler_adjustescapedtoken(rexcompiler_t *co)
 {
 	if (co->token == '\\') {
 		rex_compiler_gettok(co);		/* eat '\\' */
 		if (co->token == REX_TOKEN_EOF) {
-			return;
+			return -1;
 		}
 		co->token = rex_compiler_escapedchar(co->token);
 	}
+	return 0;
 }
 
 
@@ -278,7 +280,8 @@ int rex_compiler_charclass(rexcompiler_t *co, rexdb_t *rexdb)
 				return -1;
 			high = low = co->numtoken;
 		} else {
-			rex_compiler_adjustescapedtoken(co);
+			if (rex_compiler_adjustescapedtoken(co) < 0)
+				return -1;
 			high = low = co->token;
 			rex_compiler_gettok(co);
 		}
@@ -298,7 +301,8 @@ int rex_compiler_charclass(rexcompiler_t *co, rexdb_t *rexdb)
 					return -1;
 				high = co->numtoken;
 			} else {
-				rex_compiler_adjustescapedtoken(co);
+				if (rex_compiler_adjustescapedtoken(co) < 0)
+					return -1;
 				high = co->token;
 				rex_compiler_gettok(co);
 			}
@@ -355,7 +359,8 @@ static int rex_compiler_factor(rexcompiler_t *co, rexdb_t *rexdb)
 		return 0;
 	} else {
 		srcstate = rex_db_getstate(rexdb, rex_db_createstate(rexdb, REX_STATETYPE_NONE));
-		rex_compiler_adjustescapedtoken(co);
+		if (rex_compiler_adjustescapedtoken(co) < 0)
+			return -1;
 		rex_state_addtransition(srcstate, co->token, co->token, -1);
 		frag = rex_fragment_create(srcstate);
 		FPUSH(co, frag);
-- 
2.43.0


From 0f48d267fb4b7d1c44eff1779eacb45c3a978916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:59 +0000
Subject: [PATCH 37/54] fix: an incomplete number is no JSON token (rexjson++)

---
 rexjson/rexjson++.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index c93bf1a..0dc49b5 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -618,6 +618,12 @@ void input::get_token()
 			acc_ss = REX_DFA_ACCSUBSTATE(dfa, nstate, 0);
 			token_id_ = (int) acc_ss->userdata;
 			token_ = loctok_;
+		} else {
+			/*
+			 * The stream can't go back to the end of a shorter match.
+			 */
+			token_id_ = 0;
+			token_.clear();
 		}
 	}
 }
-- 
2.43.0


From d623181276d065644575075ba7dfd85c8ef3e4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:55 +0000
Subject: [PATCH 38/54] fix: rexjson++: a C string assigned to a value is
 decoded like everywhere else

---
 rexjson/rexjson++.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 0dc49b5..6ea6755 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -351,7 +351,7 @@ void value::check_type(value_type vtype) const
 
 value& value::operator=(const char* v)
 {
-	std::string *tmp = new std::string(v);
+	std::string *tmp = new std::string(unescape_str(v));
 
 	destroy();
 	check_type(null_type);
-- 
2.43.0


From 5dc54587858d701643006da594b7815a9b2e1f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:55 +0000
Subject: [PATCH 39/54] fix: rexjson++: the bytes of a \u escape were written
 in reverse order

---
 rexjson/rexjson++.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 6ea6755..a441ec7 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -113,13 +113,14 @@ static std::string unescape_str(const std::string& s)
 				count = 3;
 			switch (count) {
 				case 3:
+					os << static_cast<unsigned char>(0xe0 | (wc >> 12));
+					os << static_cast<unsigned char>(0x80 | ((wc >> 6) & 0x3f));
 					os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
-					wc = wc >> 6;
-					wc |= 0x800;
+					break;
 				case 2:
+					os << static_cast<unsigned char>(0xc0 | (wc >> 6));
 					os << static_cast<unsigned char>(0x80 | (wc & 0x3f));
-					wc = wc >> 6;
-					wc |= 0xc0;
+					break;
 				case 1:
 					os << static_cast<unsigned char>(wc);
 			}
-- 
2.43.0


From e41cb772a889536be71a06d2d0399ac36971a75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:55 +0000
Subject: [PATCH 40/54] fix: rexjson++: write backslashes and control
 characters of strings as escapes

---
 rexjson/rexjson++.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index a441ec7..1f7627d 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -48,14 +48,15 @@ std::string value::get_typename(unsigned int type)
 	return ret;
 }
 
-static void escape_str_val(const value& v, std::ostream& os)
+static void escape_str(const std::string& s, std::ostream& os)
 {
-	for (std::string::const_iterator it = v.get_str().begin(); it != v.get_str().end(); it++) {
-		if (*it == '\\' && (it + 1) != v.get_str().end()) {
-			os << *it++;
-			os << *it;
+	static const char hex[] = "0123456789abcdef";
+
+	for (std::string::const_iterator it = s.begin(); it != s.end(); it++) {
+		if (*it == '\\') {
+			os << "\\\\";
 		} else if (*it == '"') {
-			os << '\\' << *it;
+			os << "\\\"";
 		} else if (*it == '\b') {
 			os << "\\b";
 		} else if (*it == '\f') {
@@ -66,6 +67,8 @@ static void escape_str_val(const value& v, std::ostream& os)
 			os << "\\r";
 		} else if (*it == '\t') {
 			os << "\\t";
+		} else if (static_cast<unsigned char>(*it) < 0x20) {
+			os << "\\u00" << hex[*it >> 4] << hex[*it & 0x0f];
 		} else {
 			os << *it;
 		}
@@ -546,7 +549,7 @@ void output::write_stream(const value& v, std::ostream& os, size_t level)
 		}
 	} else if (v.value_type_ == str_type) {
 		os << '"';
-		escape_str_val(v, os);
+		escape_str(v.get_str(), os);
 		os << '"';
 	} else if (v.value_type_ == obj_type) {
 		size_t elems = 0;
-- 
2.43.0


From 28d0d4df57a0a24467cd3d32b64644c57f2a7613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:55 +0000
Subject: [PATCH 41/54] fix: rexjson++: decode and encode the names of members
 like strings

---
 rexjson/rexjson++.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index 1f7627d..fb4f364 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -512,7 +512,9 @@ void output::write_stream_namevalue(const std::string& n, const value& v, std::o
 	std::string indent(level * tabsize_, ' ');
 	if (pretty_)
 		os << indent;
-	os << '"' << n << '"';
+	os << '"';
+	escape_str(n, os);
+	os << '"';
 	if (pretty_)
 		os << ' ';
 	os << ":";
@@ -668,7 +670,7 @@ void input::parse_name(std::string &str)
 {
 	if (token_id_ != TOKEN_STRING)
 		error_unexpectedtoken();
-	str = (token_.length() > 2) ? token_.substr(1, token_.length() - 2) : std::string();
+	str = (token_.length() > 2) ? unescape_str(token_.substr(1, token_.length() - 2)) : std::string();
 	next_token();
 }
 
-- 
2.43.0


From 38576dbac0b5f557c80d901b5b7c0499cca03345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:55 +0000
Subject: [PATCH 42/54] fix: rexjson++: write every number JSON does not have
 as null

---
 rexjson/rexjson++.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rexjson/rexjson++.cpp b/rexjson/rexjson++.cpp
index fb4f364..4efcc33 100644
--- a/rexjson/rexjson++.cpp
+++ b/rexjson/rexjson++.cpp
@@ -18,6 +18,7 @@
 
 #include <sstream>
 #include <stdexcept>
+#include <cmath>
 #include <cstdlib>
 #include <limits>
 #include "rexjson++.h"
@@ -542,7 +543,7 @@ void output::write_stream(const value& v, std::ostream& os, size_t level)
 	} else if (v.value_type_ == int_type) {
 		os << v.get_int64();
 	} else if (v.value_type_ == real_type) {
-		if (v.get_real() != std::numeric_limits<double>::infinity() && v.get_real() != std::numeric_limits<double>::quiet_NaN()) {
+		if (std::isfinite(v.get_real())) {
 			os.precision(precision_);
 			os.setf(std::ios::fixed, std:: ios::floatfield);
 			os << v.get_real();
-- 
2.43.0


From 894e0cf8aea1f8f02b3872f08cad8f94b6d1c719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:30 +0000
Subject: [PATCH 43/54] fix: \/ is an escape of JSON strings

---
 rexjson/rexjsondfa.rexcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rexjson/rexjsondfa.rexcc b/rexjson/rexjsondfa.rexcc
index 46a4fc1..8ca4794 100644
--- a/rexjson/rexjsondfa.rexcc
+++ b/rexjson/rexjsondfa.rexcc
@@ -21,7 +21,7 @@
 #define TOKEN_RIGHTCB 273
 
 %%
-TOKEN_STRING        "([^"\\#0x0-#0x1F]|[\\](["\\bfnrt]|u[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]))*"
+TOKEN_STRING        "([^"\\#0x0-#0x1F]|[\\](["\\/bfnrt]|u[0-9a-fA-F][0-9a-fA-F][0-9a-fA-F][0-9a-fA-F]))*"
 TOKEN_INT           -?[0-9]|-?[1-9][0-9]+
 TOKEN_NUMBER        -?([1-9][0-9]*|0)([.][0-9]+)?([eE][+\-]?[0-9]+)?
 TOKEN_TRUE          true
-- 
2.43.0


From 8da3ef215faaf31893c57b3e19a6b9ad970f9255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:44 +0000
Subject: [PATCH 44/54] fix: property_range::get_prop checks the read access

---
 rexjsonrpc/property.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index 5271f64..e4dd54d 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -295,6 +295,8 @@ public:
 
 	virtual rexjson::value get_prop() override
 	{
+		if ((base::access_ & property_access::readonly) == 0)
+			throw std::runtime_error("No read access");
 		rexjson::array ret;
 		for (size_t i = 0; i < size_; i++) {
 			ret.push_back(base::get_prop_impl(base::propaddr_ + i));
-- 
2.43.0


From e20a477cae36523118d355044145db1cf7c144c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:44 +0000
Subject: [PATCH 45/54] fix: property_range::set_prop stores nothing of an
 array that is too long

---
 rexjsonrpc/property.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index e4dd54d..ab6073c 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -284,9 +284,9 @@ public:
 		base::check_hook_(val);
 		size_t i = 0;
 		const rexjson::array& a = val.get_array();
+		if (a.size() > size_)
+			throw std::range_error("The array of values passed is of bigger size than the property range.");
 		for (auto v : a) {
-			if (i >= size_)
-				throw std::range_error("The array of values passed is of bigger size than the property range.");
 			base::set_prop_impl(base::propaddr_ + i, v);
 			++i;
 		}
-- 
2.43.0


From 3e360e4dcfe89a099f603559cd2e33b59f2d0e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:44 +0000
Subject: [PATCH 46/54] fix: copy empty properties and assign a property to
 itself

---
 rexjsonrpc/property.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rexjsonrpc/property.cpp b/rexjsonrpc/property.cpp
index 2657849..3d9f76e 100644
--- a/rexjsonrpc/property.cpp
+++ b/rexjsonrpc/property.cpp
@@ -35,7 +35,7 @@ property::property()
 
 property::property(const property& v)
 {
-	object_ = v.object_->duplicate();
+	object_ = v.object_ ? v.object_->duplicate() : nullptr;
 }
 
 property::property(property&& v)
@@ -73,8 +73,9 @@ property& property::operator[](const std::string& name)
 
 property& property::operator=(const property& v)
 {
-	delete(object_);
-	object_ = v.object_->duplicate();
+	iproperty_object *object = v.object_ ? v.object_->duplicate() : nullptr;
+	delete object_;
+	object_ = object;
 	return *this;
 }
 
-- 
2.43.0


From f78ca0ee94811346e9546e4f2ed24cf3c9a9202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:44 +0000
Subject: [PATCH 47/54] fix: property::access of an empty property throws like
 the other members

---
 rexjsonrpc/property.cpp | 3 ++-
 rexjsonrpc/property.h   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/rexjsonrpc/property.cpp b/rexjsonrpc/property.cpp
index 3d9f76e..e4200b2 100644
--- a/rexjsonrpc/property.cpp
+++ b/rexjsonrpc/property.cpp
@@ -99,6 +99,7 @@ rexjson::value property::get_prop()
 
 property_access property::access() const
 {
+	check_object();
 	return object_->access();
 }
 
@@ -108,7 +109,7 @@ void property::enumerate_children(const std::string& path, const enumarate_child
 	object_->enumarate_children(*this, path, callback);
 }
 
-void property::check_object()
+void property::check_object() const
 {
 	if (!object_)
 		throw std::runtime_error("Invalid property");
diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index ab6073c..2db6829 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -351,7 +351,7 @@ public:
 	rexjson::value get_prop();
 	property_access access() const;
 	void enumerate_children(const std::string& path, const enumarate_children_callback& callback);
-	void check_object();
+	void check_object() const;
 	rexjson::value to_json();
 
 
-- 
2.43.0


From 70f4eb1961d8fd21d16e7ee3eadf780c4703b25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:44 +0000
Subject: [PATCH 48/54] fix: the default hooks of property_object<bool> can be
 called

---
 rexjsonrpc/property.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rexjsonrpc/property.h b/rexjsonrpc/property.h
index 2db6829..cb96aa9 100644
--- a/rexjsonrpc/property.h
+++ b/rexjsonrpc/property.h
@@ -187,8 +187,8 @@ public:
 	property_object(
 			bool* propaddr,
 			property_access access = property_access::readwrite,
-			const std::function<void(const rexjson::value&)>& check_hook = {},
-			const std::function<void(void *ctx)>& modified_hook = {},
+			const std::function<void(const rexjson::value&)>& check_hook = [](const rexjson::value& v)->void{},
+			const std::function<void(void *ctx)>& modified_hook = [](void *ctx)->void{},
 			void *ctx = nullptr)
 	: propaddr_(propaddr)
 	, access_(access)
-- 
2.43.0


From e2a90efacca6af47063cfb2595c6290b3f0e9d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:44 +0000
Subject: [PATCH 49/54] fix: rpc_server::get_rpc_type refuses numbers that are
 no types

---
 rexjsonrpc/rpcserver.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rexjsonrpc/rpcserver.h b/rexjsonrpc/rpcserver.h
index 030a979..b5fc09c 100644
--- a/rexjsonrpc/rpcserver.h
+++ b/rexjsonrpc/rpcserver.h
@@ -287,6 +287,8 @@ public:
 	static unsigned int get_rpc_type(rexjson::value_type value_type)
 	{
 		static const unsigned int rpc_types[] = {rpc_null_type, rpc_obj_type, rpc_array_type, rpc_str_type, rpc_bool_type, rpc_int_type, rpc_real_type};
+		if (value_type < 0 || (size_t)value_type >= ARRAYSIZE(rpc_types))
+			throw create_rpc_error(RPC_INVALID_PARAMS, "Invalid type");
 		return rpc_types[value_type];
 	}
 
-- 
2.43.0


From 048e5b3b37bb3dfa9eb26c1c1b3ac6197bd55615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:58 +0000
Subject: [PATCH 50/54] fix: a left-recursive rule that must match reports
 where it was tried

---
 rpa/rpacompiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index ab4ad02..01e6992 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -412,7 +412,7 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_BGRE, DA, XX, XX, 3));
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
 	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_ABORTONFAIL)) {
-		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_ABORT, DA, R_OTP, R0, 0));
+		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_ABORT, DA, R_TOP, R0, 0));
 	} else {
 		rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
 	}
-- 
2.43.0


From 6923dbb57034da1bb4e1afbae04b6bb9954639b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:14 +0000
Subject: [PATCH 51/54] fix: a rule that must match is tried at the end of the
 input too

---
 rpa/rpacompiler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index 01e6992..7d60e1c 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -440,7 +440,10 @@ int rpa_compiler_rule_begin(rpa_compiler_t *co, const char *name, unsigned int n
 	exp.startidx = rvm_codegen_addlabel_default(co->cg, name, namesize);
 	exp.endidx = rpa_codegen_invalid_add_numlabel_s(co->cg, "__end", exp.start);
 	exp.dataidx = rpa_compiler_addblob(co, ruleid, ruleuid, flags, name, namesize);
-	exp.bitmap = bitmap;
+	/*
+	 * A rule that must match has to be tried even at the end of the input, where no bitmap matches.
+	 */
+	exp.bitmap = (flags & RPA_RFLAG_ABORTONFAIL) ? 0 : bitmap;
 	if (exp.bitmap) {
 		rvm_codegen_addins(co->cg, rvm_asm(RPA_MATCHBITMAP, DA, XX, XX, exp.bitmap));
 		rvm_codegen_addins(co->cg, rvm_asm(RVM_BXLES, LR, XX, XX, 0));
-- 
2.43.0


From 544a9496ab1957cfeefad7f70b051f24e213506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:40 +0000
Subject: [PATCH 52/54] fix: a left-recursive rule that must match stops the
 machine when it matches nothing

---
 rpa/rpacompiler.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rpa/rpacompiler.c b/rpa/rpacompiler.c
index 7d60e1c..da75d78 100644
--- a/rpa/rpacompiler.c
+++ b/rpa/rpacompiler.c
@@ -399,6 +399,9 @@ int rpa_compiler_loop_end(rpa_compiler_t *co)
 	rvm_codegen_redefinelabel_default(co->cg, exp.failidx);	                                                    //          |
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOV, R_REC, R1, XX, 0));	         //        <-------------------------------------
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_MOVS, R0, DA, XX, -1));
+	if (exp.rulepref && (exp.rulepref->flags & RPA_RFLAG_ABORTONFAIL)) {
+		rvm_codegen_index_addrelocins(co->cg, RVM_RELOC_BLOB, exp.dataidx, rvm_asm(RPA_ABORT, DA, R_OTP, R0, 0));
+	}
 	rvm_codegen_addins(co->cg, rvm_asm(RVM_BX, LR, XX, XX, 0));
 
 	/*
-- 
2.43.0


From 31c625ef0602eff7f3f50d3d1a1250628a55f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:07 +0000
Subject: [PATCH 53/54] fix: rpa_dbex_name reads in front of the names for a
 negative rule number

---
 rpa/rpadbex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 83347c6..23499de 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -1770,7 +1770,7 @@ const char *rpa_dbex_name(rpadbex_t *dbex, rparule_t rid)
 		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTCLOSED);
 		return NULL;
 	}
-	if (rid >= (rparule_t)r_array_length(dbex->rules->members))
+	if (rid < 0 || rid >= (rparule_t)r_array_length(dbex->rules->members))
 		return NULL;
 	name = r_array_index(dbex->rules->names, rid, rstr_t*);
 	return name->str;
-- 
2.43.0


From 9cfbd1f1a3d959ac05fc6b9c42707a1f345d4d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:31 +0000
Subject: [PATCH 54/54] fix: rpa_dbex_getrulebitmap of an open database
 dereferenced NULL

---
 rpa/rpadbex.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rpa/rpadbex.c b/rpa/rpadbex.c
index 23499de..1b3dda2 100644
--- a/rpa/rpadbex.c
+++ b/rpa/rpadbex.c
@@ -77,10 +77,15 @@ static void rpa_dbex_buildbitmapinfo_for_rule(rpadbex_t *dbex, rparule_t rid)
 ruword rpa_dbex_getrulebitmap(rpadbex_t *dbex, rparule_t rid)
 {
 	ruword bitmap = 0L;
-	rharray_t *rules = dbex->rules;
 	rpa_ruleinfo_t *info;
 
-	if ((info = (rpa_ruleinfo_t *)r_harray_get(rules, rid)) != NULL) {
+	if (!dbex)
+		return 0;
+	if (!dbex->rules) {
+		RPA_DBEX_SETERRINFO_CODE(dbex, RPA_E_NOTCLOSED);
+		return 0;
+	}
+	if ((info = (rpa_ruleinfo_t *)r_harray_get(dbex->rules, rid)) != NULL) {
 		rparecord_t *record = rpa_record_get(dbex->records, info->startrec);
 		if (record) {
 			if (!RPA_BITMAP_GETVAL(RPA_RECORD2BITMAP(record))) {
-- 
2.43.0

