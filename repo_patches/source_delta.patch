From fc304d989fc5ccb6cdfd479af5fe1f0c7f70227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:33 +0000
Subject: [PATCH 01/15] fix: mempool set: malloc_init must initialize items
 from init_ptr

rseq_mempool_set_percpu_malloc_init() requested a zeroed item, which
takes precedence over the initial content: items were zeroed instead of
being initialized with the content of init_ptr.
---
 src/rseq-mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 061d38f..67cb683 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -1290,7 +1290,7 @@ void __rseq_percpu *rseq_mempool_set_percpu_zmalloc(struct rseq_mempool_set *poo
 void __rseq_percpu *rseq_mempool_set_percpu_malloc_init(struct rseq_mempool_set *pool_set,
 		void *init_ptr, size_t len)
 {
-	return __rseq_mempool_set_malloc(pool_set, init_ptr, len, true);
+	return __rseq_mempool_set_malloc(pool_set, init_ptr, len, false);
 }
 
 struct rseq_mempool_attr *rseq_mempool_attr_create(void)
-- 
2.43.0


From 895ea68127ca165484535f9217af9ff57fd5ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:33 +0000
Subject: [PATCH 02/15] fix: mempool: report munmap failure on pool destroy

rseq_mempool_destroy() is documented to return -1 with errno set when
unmapping fails, but returned 0 on partial failure, leaving the caller
unaware that the pool still exists.
---
 src/rseq-mempool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 67cb683..1de1b75 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -910,7 +910,8 @@ int rseq_mempool_destroy(struct rseq_mempool *pool)
 	/* Iteration safe against removal. */
 	list_for_each_entry_safe(range, tmp_range, &pool->range_list, node) {
 		list_del(&range->node);
-		if (rseq_mempool_range_destroy(pool, range, mapping_accessible)) {
+		ret = rseq_mempool_range_destroy(pool, range, mapping_accessible);
+		if (ret) {
 			/* Keep list coherent in case of partial failure. */
 			list_add(&range->node, &pool->range_list);
 			goto end;
-- 
2.43.0


From af9dd73b0f1a409988526f8906637c39a88ea35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:34 +0000
Subject: [PATCH 03/15] fix: mempool: reject item_len which cannot be rounded
 to a power of two

An item_len larger than the largest power of two representable by an
unsigned long has an order equal to the number of bits per long: the
shift is undefined and creates a pool of tiny items rather than failing
with EINVAL.
---
 src/rseq-mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 1de1b75..d57ae96 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -938,7 +938,7 @@ struct rseq_mempool *rseq_mempool_create(const char *pool_name,
 
 	/* Align item_len on next power of two. */
 	order = rseq_get_count_order_ulong(item_len);
-	if (order < 0) {
+	if (order < 0 || order >= RSEQ_BITS_PER_LONG) {
 		errno = EINVAL;
 		return NULL;
 	}
-- 
2.43.0


From d0de7c58acc7372f9e8b10ec8bbfb786445f0efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:34 +0000
Subject: [PATCH 04/15] fix: mempool: reject pool ranges with overflowing
 length

The range length is the stride multiplied by the number of CPUs plus the
init values, free list, header and alignment. When this overflows a
size_t, either a too small range is mapped (causing out of bound
accesses), or an assertion fails.
---
 src/rseq-mempool.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index d57ae96..3662611 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -997,6 +997,15 @@ struct rseq_mempool *rseq_mempool_create(const char *pool_name,
 		errno = EINVAL;
 		return NULL;
 	}
+	/*
+	 * Validate that the length of a range, including its header, the
+	 * init values, the free list, and the extra space needed for
+	 * alignment, can be represented.
+	 */
+	if ((size_t) attr.max_nr_cpus + 4 > SIZE_MAX / attr.stride) {
+		errno = EINVAL;
+		return NULL;
+	}
 
 	pool = calloc(1, sizeof(struct rseq_mempool));
 	if (!pool)
-- 
2.43.0


From e701e4e00be42d4d52eaf8493b1a76ce96d6d58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:10 +0000
Subject: [PATCH 05/15] fix: x86-64: memcpy helper must not modify its asm
 input operands

rseq_load_cbne_memcpy_store advanced src and dst and decremented len
in place, although they are only input operands of the asm goto. The
compiler is free to use the same registers for other inputs holding the
same value (e.g. newv == len) or to address *v relative to dst or src,
in which case the final store wrote a wrong value or a wrong location.

Index the copy with a clobbered register instead, which also removes
the need to save and restore the operands on each exit path.
---
 include/rseq/arch/x86/bits.h | 64 +++++++++---------------------------
 1 file changed, 15 insertions(+), 49 deletions(-)

diff --git a/include/rseq/arch/x86/bits.h b/include/rseq/arch/x86/bits.h
index 22ab80b..ee2afa6 100644
--- a/include/rseq/arch/x86/bits.h
+++ b/include/rseq/arch/x86/bits.h
@@ -418,8 +418,6 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 				 void *dst, void *src, size_t len,
 				 intptr_t newv, int cpu)
 {
-	uint64_t rseq_scratch[3];
-
 	RSEQ_INJECT_C(9)
 
 	__asm__ __volatile__ goto (
@@ -429,63 +427,34 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
 #endif
-		"movq %[src], %[rseq_scratch0]\n\t"
-		"movq %[dst], %[rseq_scratch1]\n\t"
-		"movq %[len], %[rseq_scratch2]\n\t"
 		/* Start rseq by storing table entry pointer into rseq_cs. */
 		RSEQ_ASM_STORE_RSEQ_CS(1, 3b, RSEQ_ASM_TP_SEGMENT:RSEQ_ASM_CS_OFFSET(%[rseq_offset]))
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, RSEQ_ASM_TP_SEGMENT:RSEQ_TEMPLATE_INDEX_CPU_ID_OFFSET(%[rseq_offset]), 4f)
 		RSEQ_INJECT_ASM(3)
 		"cmpq %[v], %[expect]\n\t"
-		"jne 5f\n\t"
+		"jne %l[ne]\n\t"
 		RSEQ_INJECT_ASM(4)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_CBNE_CPU_ID(cpu_id, RSEQ_ASM_TP_SEGMENT:RSEQ_TEMPLATE_INDEX_CPU_ID_OFFSET(%[rseq_offset]), 6f)
+		RSEQ_ASM_CBNE_CPU_ID(cpu_id, RSEQ_ASM_TP_SEGMENT:RSEQ_TEMPLATE_INDEX_CPU_ID_OFFSET(%[rseq_offset]), %l[error1])
 		"cmpq %[v], %[expect]\n\t"
-		"jne 7f\n\t"
+		"jne %l[error2]\n\t"
 #endif
 		/* try memcpy */
-		"test %[len], %[len]\n\t" \
-		"je 333f\n\t" \
-		"222:\n\t" \
-		"movb (%[src]), %%al\n\t" \
-		"movb %%al, (%[dst])\n\t" \
-		"inc %[src]\n\t" \
-		"inc %[dst]\n\t" \
-		"dec %[len]\n\t" \
-		"jnz 222b\n\t" \
-		"333:\n\t" \
+		"xorl %%ecx, %%ecx\n\t"
+		"222:\n\t"
+		"cmpq %%rcx, %[len]\n\t"
+		"je 333f\n\t"
+		"movb (%[src], %%rcx), %%al\n\t"
+		"movb %%al, (%[dst], %%rcx)\n\t"
+		"incq %%rcx\n\t"
+		"jmp 222b\n\t"
+		"333:\n\t"
 		RSEQ_INJECT_ASM(5)
 		/* final store */
 		"movq %[newv], %[v]\n\t"
 		"2:\n\t"
 		RSEQ_INJECT_ASM(6)
-		/* teardown */
-		"movq %[rseq_scratch2], %[len]\n\t"
-		"movq %[rseq_scratch1], %[dst]\n\t"
-		"movq %[rseq_scratch0], %[src]\n\t"
-		RSEQ_ASM_DEFINE_ABORT(4,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			abort)
-		RSEQ_ASM_DEFINE_TEARDOWN(5,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			ne)
-#ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_TEARDOWN(6,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			error1)
-		RSEQ_ASM_DEFINE_TEARDOWN(7,
-			"movq %[rseq_scratch2], %[len]\n\t"
-			"movq %[rseq_scratch1], %[dst]\n\t"
-			"movq %[rseq_scratch0], %[src]\n\t",
-			error2)
-#endif
+		RSEQ_ASM_DEFINE_ABORT(4, "", abort)
 		: /* gcc asm goto does not allow outputs */
 		: [cpu_id]		"r" (cpu),
 		  [rseq_offset]		"r" ((long long int) rseq_offset),
@@ -496,11 +465,8 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		  /* try memcpy input */
 		  [dst]			"r" (dst),
 		  [src]			"r" (src),
-		  [len]			"r" (len),
-		  [rseq_scratch0]	"m" (rseq_scratch[0]),
-		  [rseq_scratch1]	"m" (rseq_scratch[1]),
-		  [rseq_scratch2]	"m" (rseq_scratch[2])
-		: "memory", "cc", "rax"
+		  [len]			"r" (len)
+		: "memory", "cc", "rax", "rcx"
 		  RSEQ_INJECT_CLOBBER
 		: abort, ne
 #ifdef RSEQ_COMPARE_TWICE
-- 
2.43.0


From 0c47a4369f11ec8c63229270598c2b59296945c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:41 +0000
Subject: [PATCH 06/15] fix: x86-64: hide origin of asm memory operand
 addresses from gcc

gcc folds the computation of the address of an asm memory operand into
the operand after register allocation, using a base register which is in
the asm clobber list (observed with gcc 13.3 at -O2 and -O3). The helper
then writes through a base register it has itself overwritten.
---
 include/rseq/arch/x86/bits.h | 17 +++++++++++++++++
 include/rseq/compiler.h      | 11 +++++++++++
 2 files changed, 28 insertions(+)

diff --git a/include/rseq/arch/x86/bits.h b/include/rseq/arch/x86/bits.h
index ee2afa6..af9be7c 100644
--- a/include/rseq/arch/x86/bits.h
+++ b/include/rseq/arch/x86/bits.h
@@ -32,6 +32,8 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_store__ptr)(intptr_t *v, intptr_t ex
 {
 	RSEQ_INJECT_C(9)
 
+	rseq_hide_ptr(v);
+
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(3, 1f, 2f, 4f) /* start, commit, abort */
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
@@ -94,6 +96,9 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 {
 	RSEQ_INJECT_C(9)
 
+	rseq_hide_ptr(v);
+	rseq_hide_ptr(load);
+
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(3, 1f, 2f, 4f) /* start, commit, abort */
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[eq])
@@ -162,6 +167,8 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 {
 	RSEQ_INJECT_C(9)
 
+	rseq_hide_ptr(v);
+
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(3, 1f, 2f, 4f) /* start, commit, abort */
 #ifdef RSEQ_COMPARE_TWICE
@@ -212,6 +219,8 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_load_load_add_store__ptr)(intptr_t *p
 {
 	RSEQ_INJECT_C(9)
 
+	rseq_hide_ptr(ptr);
+
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(3, 1f, 2f, 4f) /* start, commit, abort */
 #ifdef RSEQ_COMPARE_TWICE
@@ -268,6 +277,9 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_load_cbne_store__ptr)(intptr_t *v, i
 {
 	RSEQ_INJECT_C(9)
 
+	rseq_hide_ptr(v2);
+	rseq_hide_ptr(v);
+
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(3, 1f, 2f, 4f) /* start, commit, abort */
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
@@ -350,6 +362,9 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_store_store__ptr)(intptr_t *v, intpt
 {
 	RSEQ_INJECT_C(9)
 
+	rseq_hide_ptr(v2);
+	rseq_hide_ptr(v);
+
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(3, 1f, 2f, 4f) /* start, commit, abort */
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
@@ -420,6 +435,8 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 {
 	RSEQ_INJECT_C(9)
 
+	rseq_hide_ptr(v);
+
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(3, 1f, 2f, 4f) /* start, commit, abort */
 		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
diff --git a/include/rseq/compiler.h b/include/rseq/compiler.h
index 9a202cd..27d7184 100644
--- a/include/rseq/compiler.h
+++ b/include/rseq/compiler.h
@@ -52,6 +52,17 @@
  */
 #define rseq_after_asm_goto()	__asm__ __volatile__ ("" : : : "memory")
 
+/*
+ * gcc (observed with 13.3 at O2 and O3) may fold the computation of the
+ * address of an asm memory operand (e.g. base + constant offset) into
+ * the operand after register allocation, ending up with an operand
+ * relative to a register which is part of the asm clobber list.
+ *
+ * Work around this issue by hiding the origin of the pointer from the
+ * compiler before using it in an asm memory operand.
+ */
+#define rseq_hide_ptr(p)	__asm__ ("" : "+r" (p))
+
 /* Combine two tokens. */
 #define RSEQ__COMBINE_TOKENS(_tokena, _tokenb)	\
 	_tokena##_tokenb
-- 
2.43.0


From cf5ce41e390b97353f3f0c1dc3c724c0b60a79e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:05 +0000
Subject: [PATCH 07/15] fix: rseq registration must use the kernel feature size

The first registration used a 32 bytes length because rseq_size is 0 at
that point, while the exposed size, the following registrations and the
unregistrations use the kernel feature size. With a feature size larger
than 32, the exposed features were not registered with the kernel, and
the first thread could not unregister.
---
 src/rseq.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/rseq.c b/src/rseq.c
index 7bfaea7..e214e91 100644
--- a/src/rseq.c
+++ b/src/rseq.c
@@ -114,17 +114,6 @@ bool rseq_available(unsigned int query)
 	return false;
 }
 
-/* The rseq areas need to be at least 32 bytes. */
-static
-unsigned int get_rseq_min_alloc_size(void)
-{
-	unsigned int alloc_size = rseq_size;
-
-	if (alloc_size < ORIG_RSEQ_ALLOC_SIZE)
-		alloc_size = ORIG_RSEQ_ALLOC_SIZE;
-	return alloc_size;
-}
-
 /*
  * Return the feature size supported by the kernel.
  *
@@ -151,6 +140,22 @@ unsigned int get_rseq_kernel_feature_size(void)
 		return ORIG_RSEQ_FEATURE_SIZE;
 }
 
+/*
+ * The rseq areas need to be at least 32 bytes, and large enough to hold
+ * the feature set supported by the kernel. Use the same size for all
+ * registrations and unregistrations, even before rseq_size is set by
+ * the first registration.
+ */
+static
+unsigned int get_rseq_min_alloc_size(void)
+{
+	unsigned int alloc_size = get_rseq_kernel_feature_size();
+
+	if (alloc_size < ORIG_RSEQ_ALLOC_SIZE)
+		alloc_size = ORIG_RSEQ_ALLOC_SIZE;
+	return alloc_size;
+}
+
 int rseq_register_current_thread(void)
 {
 	int rc;
-- 
2.43.0


From aa3265599cb39e6b2eae5b0cc614aa2c62a45dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:18 +0000
Subject: [PATCH 08/15] fix: do not report items allocated before fork as leaks
 in the child

A COW_INIT pool is not accessible from a child process across fork, but
destroying it from the child is documented as valid. Robust pools which
had live items at fork aborted in this case, although the child has no
way to free those items.
---
 src/rseq-mempool.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 3662611..5657852 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -574,7 +574,8 @@ void check_pool_poison(const struct rseq_mempool *pool, bool mapping_accessible)
 
 /* Always inline for __builtin_return_address(0). */
 static inline __attribute__((always_inline))
-void destroy_alloc_bitmap(struct rseq_mempool *pool, struct rseq_mempool_range *range)
+void destroy_alloc_bitmap(struct rseq_mempool *pool, struct rseq_mempool_range *range,
+		bool mapping_accessible)
 {
 	unsigned long *bitmap = range->alloc_bitmap;
 	size_t count, total_leaks = 0;
@@ -584,9 +585,15 @@ void destroy_alloc_bitmap(struct rseq_mempool *pool, struct rseq_mempool_range *
 
 	count = ((pool->attr.stride >> pool->item_order) + BIT_PER_ULONG - 1) / BIT_PER_ULONG;
 
-	/* Assert that all items in the pool were freed. */
-	for (size_t k = 0; k < count; ++k)
-		total_leaks += rseq_hweight_ulong(bitmap[k]);
+	/*
+	 * Assert that all items in the pool were freed. Items allocated
+	 * before fork are not leaks in a child process, which cannot
+	 * free them because it cannot access the mapping.
+	 */
+	if (mapping_accessible) {
+		for (size_t k = 0; k < count; ++k)
+			total_leaks += rseq_hweight_ulong(bitmap[k]);
+	}
 	if (total_leaks) {
 		fprintf(stderr, "%s: Pool \"%s\" (%p) has %zu leaked items on destroy, caller: %p.\n",
 			__func__, get_pool_name(pool), pool, total_leaks, (void *) __builtin_return_address(0));
@@ -603,7 +610,7 @@ int rseq_mempool_range_destroy(struct rseq_mempool *pool,
 		struct rseq_mempool_range *range,
 		bool mapping_accessible)
 {
-	destroy_alloc_bitmap(pool, range);
+	destroy_alloc_bitmap(pool, range, mapping_accessible);
 	if (!mapping_accessible) {
 		/*
 		 * Only the header pages are populated in the child
-- 
2.43.0


From 474429c16a540eaa0ec94a1163f55e73278845fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:08 +0000
Subject: [PATCH 09/15] fix: RSEQ_WRITE_ONCE must perform a single access in
 C++

With clang++, the value of the statement expression is the volatile
lvalue, which is read back after the store.
---
 include/rseq/compiler.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/rseq/compiler.h b/include/rseq/compiler.h
index 27d7184..f3b5f56 100644
--- a/include/rseq/compiler.h
+++ b/include/rseq/compiler.h
@@ -32,7 +32,11 @@
  */
 #define RSEQ_ACCESS_ONCE(x)	(*(__volatile__  __typeof__(x) *)&(x))
 
-#define RSEQ_WRITE_ONCE(x, v)	__extension__ ({ RSEQ_ACCESS_ONCE(x) = (v); })
+/*
+ * The trailing void expression prevents C++ compilers from reading back
+ * the volatile lvalue as result of the statement expression.
+ */
+#define RSEQ_WRITE_ONCE(x, v)	__extension__ ({ RSEQ_ACCESS_ONCE(x) = (v); (void) 0; })
 #define RSEQ_READ_ONCE(x)	RSEQ_ACCESS_ONCE(x)
 
 /*
-- 
2.43.0


From 63a1714382f216d059598528a383a82cc8e63c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:00 +0000
Subject: [PATCH 10/15] fix: mempool: allow destroy to be attempted again after
 partial failure

When rseq_mempool_destroy() fails to unmap one of the ranges of a robust
pool after others were unmapped, calling it again walked a free list
referring to unmapped ranges (crash), or accused the pool of a corrupted
free list. Validate the items once.
---
 src/rseq-mempool.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/rseq-mempool.c b/src/rseq-mempool.c
index 5657852..87f1d00 100644
--- a/src/rseq-mempool.c
+++ b/src/rseq-mempool.c
@@ -173,6 +173,9 @@ struct rseq_mempool {
 
 	struct rseq_mempool_attr attr;
 	char *name;
+
+	/* Items were validated by a prior (partially failed) destroy. */
+	bool destroy_validated;
 };
 
 /*
@@ -911,8 +914,15 @@ int rseq_mempool_destroy(struct rseq_mempool *pool)
 	 */
 	mapping_accessible = pool_mappings_accessible(pool);
 
-	check_free_list(pool, mapping_accessible);
-	check_pool_poison(pool, mapping_accessible);
+	/*
+	 * When destroy is attempted again after a partial failure, the
+	 * free list may refer to ranges which are already unmapped.
+	 */
+	if (!pool->destroy_validated) {
+		check_free_list(pool, mapping_accessible);
+		check_pool_poison(pool, mapping_accessible);
+		pool->destroy_validated = true;
+	}
 
 	/* Iteration safe against removal. */
 	list_for_each_entry_safe(range, tmp_range, &pool->range_list, node) {
-- 
2.43.0


From aaffe197eb0a7d034b7d66e5010c2bd9095b2fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:43 +0000
Subject: [PATCH 11/15] fix: riscv: compare only the low 32 bits of the index

The index operand of the helpers is an int held in a 64-bit register whose
upper bits the compiler leaves unspecified (clang does not sign-extend an
index truncated from a wider value), so the 64-bit comparison could make
every attempt on a matching index abort.
---
 include/rseq/arch/riscv.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/rseq/arch/riscv.h b/include/rseq/arch/riscv.h
index 458e2d4..2167e96 100644
--- a/include/rseq/arch/riscv.h
+++ b/include/rseq/arch/riscv.h
@@ -43,6 +43,8 @@
 
 #define RSEQ_ASM_REG_L	__RSEQ_ASM_REG_SEL("ld ", "lw ")
 #define RSEQ_ASM_REG_S	__RSEQ_ASM_REG_SEL("sd ", "sw ")
+/* 32-bit subtraction, which ignores the upper bits of its 64-bit inputs. */
+#define RSEQ_ASM_SUB32	__RSEQ_ASM_REG_SEL("subw ", "sub ")
 
 /*
  * Refer to the Linux kernel memory model (LKMM) for documentation of
@@ -140,12 +142,14 @@ do {									\
 
 /*
  * Jump to local label @label when @var != @expect (32-bit register
- * comparison).
+ * comparison). The upper bits of a 64-bit register holding a 32-bit
+ * @expect operand are unspecified, so compare only the low 32 bits.
  */
 #define RSEQ_ASM_OP_CBNE32(var, expect, label)				\
 	"lw	" RSEQ_ASM_TMP_REG_1 ", %[" __rseq_str(var) "]\n"	\
-	"bne	" RSEQ_ASM_TMP_REG_1 ", %[" __rseq_str(expect) "] ,"	\
-		  __rseq_str(label) "\n"
+	RSEQ_ASM_SUB32	RSEQ_ASM_TMP_REG_1 ", " RSEQ_ASM_TMP_REG_1	\
+		", %[" __rseq_str(expect) "]\n"			\
+	"bnez	" RSEQ_ASM_TMP_REG_1 ", " __rseq_str(label) "\n"
 
 /* Jump to local label @label when @var == @expect. */
 #define RSEQ_ASM_OP_CBEQ(var, expect, label)				\
-- 
2.43.0


From cc8826df64d599639eb6f7c95e6aa062c270faf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:43 +0000
Subject: [PATCH 12/15] fix: s390, mips, loongarch: list the actual exit points
 of memcpy_store

rseq_load_cbne_memcpy_store leaves its sequence towards the local teardown
labels, not directly towards the C labels that were listed.
---
 include/rseq/arch/loongarch/bits.h | 6 +++---
 include/rseq/arch/mips/bits.h      | 6 +++---
 include/rseq/arch/s390/bits.h      | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/rseq/arch/loongarch/bits.h b/include/rseq/arch/loongarch/bits.h
index 950ce92..f6c9550 100644
--- a/include/rseq/arch/loongarch/bits.h
+++ b/include/rseq/arch/loongarch/bits.h
@@ -384,10 +384,10 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(9, 1f, 2f, 4f) /* start, commit, abort */
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 6f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 7f)
 #endif
 		RSEQ_ASM_LONG_S " %[src], %[rseq_scratch0]\n\t"
 		RSEQ_ASM_LONG_S "  %[dst], %[rseq_scratch1]\n\t"
diff --git a/include/rseq/arch/mips/bits.h b/include/rseq/arch/mips/bits.h
index b72353f..e8e2053 100644
--- a/include/rseq/arch/mips/bits.h
+++ b/include/rseq/arch/mips/bits.h
@@ -356,10 +356,10 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(9, 1f, 2f, 4f) /* start, commit, abort */
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 6f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 7f)
 #endif
 		RSEQ_ASM_LONG_S " %[src], %[rseq_scratch0]\n\t"
 		RSEQ_ASM_LONG_S "  %[dst], %[rseq_scratch1]\n\t"
diff --git a/include/rseq/arch/s390/bits.h b/include/rseq/arch/s390/bits.h
index ef2ff69..d517f46 100644
--- a/include/rseq/arch/s390/bits.h
+++ b/include/rseq/arch/s390/bits.h
@@ -367,10 +367,10 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 
 	__asm__ __volatile__ goto (
 		RSEQ_ASM_DEFINE_TABLE(3, 1f, 2f, 4f) /* start, commit, abort */
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[ne])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 5f)
 #ifdef RSEQ_COMPARE_TWICE
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error1])
-		RSEQ_ASM_DEFINE_EXIT_POINT(1f, %l[error2])
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 6f)
+		RSEQ_ASM_DEFINE_EXIT_POINT(1f, 7f)
 #endif
 		RSEQ_ASM_LONG_S " %[src], %[rseq_scratch0]\n\t"
 		RSEQ_ASM_LONG_S " %[dst], %[rseq_scratch1]\n\t"
-- 
2.43.0


From 535521656c33f958cbe4a1995eb644030515bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:43 +0000
Subject: [PATCH 13/15] fix: s390, mips, loongarch: restore memcpy inputs
 before the final store

rseq_load_cbne_memcpy_store modifies the registers of its len, src and dst
inputs, which the compiler may share with newv or with the address of v.
Restore them before the final store rather than after it.
---
 include/rseq/arch/loongarch/bits.h | 11 +++++++----
 include/rseq/arch/mips/bits.h      | 11 +++++++----
 include/rseq/arch/s390/bits.h      | 11 +++++++----
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/include/rseq/arch/loongarch/bits.h b/include/rseq/arch/loongarch/bits.h
index f6c9550..210d0d1 100644
--- a/include/rseq/arch/loongarch/bits.h
+++ b/include/rseq/arch/loongarch/bits.h
@@ -414,6 +414,13 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		RSEQ_ASM_LONG_ADDI " %[len], %[len], -1\n\t" \
 		"bnez %[len], 222b\n\t" \
 		"333:\n\t" \
+		/*
+		 * Restore the input registers before the final store: they may
+		 * be shared with its operands.
+		 */
+		RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
+		RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
+		RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t"
 		RSEQ_INJECT_ASM(5)
 #ifdef RSEQ_TEMPLATE_MO_RELEASE
 		"dbar 0x12\n\t"	/* store-release */
@@ -422,10 +429,6 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		RSEQ_ASM_LONG_S " %[newv], %[v]\n\t"
 		"2:\n\t"
 		RSEQ_INJECT_ASM(6)
-		/* teardown */
-		RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-		RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-		RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t"
 		"b 8f\n\t"
 		RSEQ_ASM_DEFINE_ABORT(4,
 				      /* teardown */
diff --git a/include/rseq/arch/mips/bits.h b/include/rseq/arch/mips/bits.h
index e8e2053..fbf1c67 100644
--- a/include/rseq/arch/mips/bits.h
+++ b/include/rseq/arch/mips/bits.h
@@ -386,6 +386,13 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		RSEQ_ASM_LONG_ADDI " %[len], -1\n\t" \
 		"bnez %[len], 222b\n\t" \
 		"333:\n\t" \
+		/*
+		 * Restore the input registers before the final store: they may
+		 * be shared with its operands.
+		 */
+		RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
+		RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
+		RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t"
 		RSEQ_INJECT_ASM(5)
 #ifdef RSEQ_TEMPLATE_MO_RELEASE
 		"sync\n\t"	/* full sync provides store-release */
@@ -394,10 +401,6 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		RSEQ_ASM_LONG_S " %[newv], %[v]\n\t"
 		"2:\n\t"
 		RSEQ_INJECT_ASM(6)
-		/* teardown */
-		RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-		RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-		RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t"
 		"b 8f\n\t"
 		RSEQ_ASM_DEFINE_ABORT(4,
 				      /* teardown */
diff --git a/include/rseq/arch/s390/bits.h b/include/rseq/arch/s390/bits.h
index d517f46..2e03754 100644
--- a/include/rseq/arch/s390/bits.h
+++ b/include/rseq/arch/s390/bits.h
@@ -398,15 +398,18 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbne_memcpy_store__ptr)(intptr_t *v, intp
 		RSEQ_ASM_LONG_ADDI " %[len], -1\n\t"
 		"jnz 222b\n\t"
 		"333:\n\t"
+		/*
+		 * Restore the input registers before the final store: they may
+		 * be shared with its operands.
+		 */
+		RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
+		RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
+		RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t"
 		RSEQ_INJECT_ASM(5)
 		/* final store */
 		RSEQ_ASM_LONG_S " %[newv], %[v]\n\t"
 		"2:\n\t"
 		RSEQ_INJECT_ASM(6)
-		/* teardown */
-		RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
-		RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-		RSEQ_ASM_LONG_L " %[src], %[rseq_scratch0]\n\t"
 		RSEQ_ASM_DEFINE_ABORT(4,
 			RSEQ_ASM_LONG_L " %[len], %[rseq_scratch2]\n\t"
 			RSEQ_ASM_LONG_L " %[dst], %[rseq_scratch1]\n\t"
-- 
2.43.0


From c5b786092331896d3e8413614dabb999ea95a8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:03 +0000
Subject: [PATCH 14/15] fix: loongarch, mips: add register operands with the
 register form of add

The voffp and count operands have a register-or-immediate constraint, but
are used in an add-immediate instruction: a variable operand does not
assemble (LoongArch, LLVM MIPS). Use the register form of the add
instruction and a register constraint.
---
 include/rseq/arch/loongarch.h      | 1 +
 include/rseq/arch/loongarch/bits.h | 8 ++++----
 include/rseq/arch/mips.h           | 2 ++
 include/rseq/arch/mips/bits.h      | 8 ++++----
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/rseq/arch/loongarch.h b/include/rseq/arch/loongarch.h
index 884973f..afbfdc0 100644
--- a/include/rseq/arch/loongarch.h
+++ b/include/rseq/arch/loongarch.h
@@ -68,6 +68,7 @@ do {									\
 #define RSEQ_ASM_LONG_L		"ld.d"
 #define RSEQ_ASM_LONG_S		"st.d"
 #define RSEQ_ASM_LONG_ADDI	"addi.d"
+#define RSEQ_ASM_LONG_ADD	"add.d"
 
 /*
  * Helper macros to define a variable of pointer type stored in a 64-bit
diff --git a/include/rseq/arch/loongarch/bits.h b/include/rseq/arch/loongarch/bits.h
index 210d0d1..71a58c2 100644
--- a/include/rseq/arch/loongarch/bits.h
+++ b/include/rseq/arch/loongarch/bits.h
@@ -112,7 +112,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		"beq $r4, %[expectnot], %l[error2]\n\t"
 #endif
 		RSEQ_ASM_LONG_S " $r4, %[load]\n\t"
-		RSEQ_ASM_LONG_ADDI " $r4, $r4, %[voffp]\n\t"
+		RSEQ_ASM_LONG_ADD " $r4, $r4, %[voffp]\n\t"
 		RSEQ_ASM_LONG_L " $r4, $r4, 0\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $r4, %[v]\n\t"
@@ -128,7 +128,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		  /* final store input */
 		  [v]			"m" (*v),
 		  [expectnot]		"r" (expectnot),
-		  [voffp]		"Ir" (voffp),
+		  [voffp]		"r" (voffp),
 		  [load]		"m" (*load)
 		  RSEQ_INJECT_INPUT
 		: "$r4", "memory"
@@ -175,7 +175,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, %l[error1])
 #endif
 		RSEQ_ASM_LONG_L " $r4, %[v]\n\t"
-		RSEQ_ASM_LONG_ADDI " $r4, $r4, %[count]\n\t"
+		RSEQ_ASM_LONG_ADD " $r4, $r4, %[count]\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $r4, %[v]\n\t"
 		"2:\n\t"
@@ -188,7 +188,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  [v]			"m" (*v),
-		  [count]		"Ir" (count)
+		  [count]		"r" (count)
 		  RSEQ_INJECT_INPUT
 		: "$r4", "memory"
 		  RSEQ_INJECT_CLOBBER
diff --git a/include/rseq/arch/mips.h b/include/rseq/arch/mips.h
index a811a07..cd12ee4 100644
--- a/include/rseq/arch/mips.h
+++ b/include/rseq/arch/mips.h
@@ -95,12 +95,14 @@ do {									\
 # define RSEQ_ASM_LONG_L		"ld"
 # define RSEQ_ASM_LONG_S		"sd"
 # define RSEQ_ASM_LONG_ADDI		"daddiu"
+# define RSEQ_ASM_LONG_ADD		"daddu"
 #else
 # define RSEQ_ASM_LONG			".word"
 # define RSEQ_ASM_LONG_LA		"la"
 # define RSEQ_ASM_LONG_L		"lw"
 # define RSEQ_ASM_LONG_S		"sw"
 # define RSEQ_ASM_LONG_ADDI		"addiu"
+# define RSEQ_ASM_LONG_ADD		"addu"
 #endif
 
 /*
diff --git a/include/rseq/arch/mips/bits.h b/include/rseq/arch/mips/bits.h
index fbf1c67..7c0f846 100644
--- a/include/rseq/arch/mips/bits.h
+++ b/include/rseq/arch/mips/bits.h
@@ -103,7 +103,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		"beq $4, %[expectnot], %l[error2]\n\t"
 #endif
 		RSEQ_ASM_LONG_S " $4, %[load]\n\t"
-		RSEQ_ASM_LONG_ADDI " $4, %[voffp]\n\t"
+		RSEQ_ASM_LONG_ADD " $4, $4, %[voffp]\n\t"
 		RSEQ_ASM_LONG_L " $4, 0($4)\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $4, %[v]\n\t"
@@ -119,7 +119,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_cbeq_store_add_load_store__ptr)(intptr_t
 		  /* final store input */
 		  [v]			"m" (*v),
 		  [expectnot]		"r" (expectnot),
-		  [voffp]		"Ir" (voffp),
+		  [voffp]		"r" (voffp),
 		  [load]		"m" (*load)
 		  RSEQ_INJECT_INPUT
 		: "$4", "memory"
@@ -161,7 +161,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, %l[error1])
 #endif
 		RSEQ_ASM_LONG_L " $4, %[v]\n\t"
-		RSEQ_ASM_LONG_ADDI " $4, %[count]\n\t"
+		RSEQ_ASM_LONG_ADD " $4, $4, %[count]\n\t"
 		/* final store */
 		RSEQ_ASM_LONG_S " $4, %[v]\n\t"
 		"2:\n\t"
@@ -174,7 +174,7 @@ int RSEQ_TEMPLATE_IDENTIFIER(rseq_load_add_store__ptr)(intptr_t *v, intptr_t cou
 		  [current_cpu_id]	"m" (rseq_get_abi()->RSEQ_TEMPLATE_INDEX_CPU_ID_FIELD),
 		  [rseq_cs]		"m" (rseq_get_abi()->rseq_cs.arch.ptr),
 		  [v]			"m" (*v),
-		  [count]		"Ir" (count)
+		  [count]		"r" (count)
 		  RSEQ_INJECT_INPUT
 		: "$4", "memory"
 		  RSEQ_INJECT_CLOBBER
-- 
2.43.0


From f80743e3ab1084e7a63dd17d1e35ea0f23454799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:03 +0000
Subject: [PATCH 15/15] fix: loongarch: compare only the low 32 bits of the
 index

The upper half of the register which holds the 32-bit cpu_id operand is
unspecified, so a 64-bit wide comparison may abort forever although the
index matches.
---
 include/rseq/arch/loongarch.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/rseq/arch/loongarch.h b/include/rseq/arch/loongarch.h
index afbfdc0..57c3184 100644
--- a/include/rseq/arch/loongarch.h
+++ b/include/rseq/arch/loongarch.h
@@ -153,11 +153,16 @@ do {									\
 		RSEQ_ASM_LONG_S  " $r4, %[" __rseq_str(rseq_cs) "]\n\t" \
 		__rseq_str(label) ":\n\t"
 
-/* Jump to local label @label when @cpu_id != @current_cpu_id. */
+/*
+ * Jump to local label @label when @cpu_id != @current_cpu_id. The upper
+ * bits of the register holding the 32-bit @cpu_id operand are unspecified,
+ * so compare only the low 32 bits.
+ */
 #define RSEQ_ASM_CBNE_CPU_ID(cpu_id, current_cpu_id, label) \
 		RSEQ_INJECT_ASM(2) \
 		"ld.w  $r4, %[" __rseq_str(current_cpu_id) "]\n\t" \
-		"bne $r4, %[" __rseq_str(cpu_id) "], " __rseq_str(label) "\n\t"
+		"sub.w $r4, $r4, %[" __rseq_str(cpu_id) "]\n\t" \
+		"bnez $r4, " __rseq_str(label) "\n\t"
 
 /* Per-cpu-id indexing. */
 
-- 
2.43.0

