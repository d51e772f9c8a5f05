From 02fbff3928451fbf7e767a90b3b0180af4efd1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 01/27] fix: do not truncate the size given to mmap() to an int

Requests of 2 GiB and more (or large alignments) mapped the wrong amount.
---
 paging.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paging.h b/paging.h
index 61ee8d8..5193dfa 100644
--- a/paging.h
+++ b/paging.h
@@ -153,7 +153,7 @@ static void *Page_Create(size_t size, int exitonfail, int printerror) {
    * the MMAP_FIXED flag, but I don't want to stomp on memory mappings
    * generated by other software, etc.
    */
-  allocation = mmap(startAddr, (int)size, PROT_READ | PROT_WRITE,
+  allocation = mmap(startAddr, size, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
 
 #ifndef __hpux
@@ -198,7 +198,7 @@ static void *Page_Create(size_t size, int exitonfail, int printerror) {
    * the MMAP_FIXED flag, but I don't want to stomp on memory mappings
    * generated by other software, etc.
    */
-  allocation = mmap(startAddr, (int)size, PROT_READ | PROT_WRITE, MAP_PRIVATE,
+  allocation = mmap(startAddr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE,
                     devZeroFd, 0);
 
   startAddr = allocation + size;
-- 
2.43.0


From 010c0b98509c69e5b123d5f6ead3e61c1fc11b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 02/27] fix: DUMA_PROTECT_BELOW with alignment above the page
 size overran the block

The live pages were opened past the end of the internal block.
---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index ae1c2bc..abf77e0 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1660,7 +1660,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       /* DUMA_ASSERT(intAddr < userAddr && intAddr <= protAddr ); */
 
       /* Set up the "live" page(s). userAddr == protAddr + DUMA_PAGE_SIZE ! */
-      Page_AllowAccess((char *)userAddr, internalSize - (userAddr - protAddr));
+      Page_AllowAccess((char *)userAddr, endAddr - userAddr);
       /* Set up the "dead" page(s). */
       Page_DenyAccess((char *)intAddr, userAddr - intAddr);
     }
-- 
2.43.0


From d7e65754134bea398f9f8fb2874c8b89fd082a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 03/27] fix: check the whole alignment value for being a power
 of two

---
 src/duma.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index abf77e0..6616612 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1408,7 +1408,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
       alignment = (size_t)a; /* this is new alignment */
     }
 
-    if ((int)alignment != ((int)alignment & -(int)alignment)) {
+    if (alignment & (alignment - 1)) {
 #ifndef DUMA_NO_LEAKDETECTION
       DUMA_Abort("Alignment (=%d) is not a power of 2; requested from %s(%i)",
                  (DUMA_SIZE)alignment, filename, lineno);
-- 
2.43.0


From 42ea76557dfeb0f7574e037df77ed5fb11be6aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 04/27] fix: sizes near SIZE_MAX wrapped around and returned an
 undersized block

---
 src/duma.c | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 6616612..e85007f 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1431,6 +1431,10 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
 
     if (alignment > DUMA_PAGE_SIZE)
       internalSize += alignment - DUMA_PAGE_SIZE;
+
+    /* when the sum wraps around, request what no system can deliver */
+    if (internalSize < userSize)
+      internalSize = (size_t)0 - DUMA_PAGE_SIZE;
   } /* end if ( userSize ) */
 
   /*
@@ -1545,19 +1549,9 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
         _duma_s.sumAllocatedMem + chunkSizekB > _duma_s.MAX_ALLOC)
       reduceProtectedMemory(chunkSizekB);
 
-#ifndef SIZE_MAX
-#define SIZE_MAX ((size_t)(-1))
-#endif
-    size_t numChunks = SIZE_MAX;
-    if (userSize > (SIZE_MAX) - (chunkSize - 1))
-      fullSlot->internalAddress = 0;
-    else {
-      numChunks =
-          (userSize <= 0) ? 1 : (userSize + (chunkSize - 1)) / chunkSize;
-      DUMA_ASSERT(numChunks >= 1);
-      fullSlot->internalAddress = Page_Create(
-          chunkSize * numChunks, 0 /*= exitonfail*/, 0 /*= printerror*/);
-    }
+    /* chunkSize >= internalSize > userSize: one chunk is always sufficient */
+    fullSlot->internalAddress =
+        Page_Create(chunkSize, 0 /*= exitonfail*/, 0 /*= printerror*/);
 
     if (0 == fullSlot->internalAddress && 0L != _duma_s.PROTECT_FREE) {
       int reduce_more;
@@ -1565,19 +1559,19 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
         /* reduce as much protected memory as we need - or at least try so */
         reduce_more = reduceProtectedMemory((chunkSize + 1023) >> 10);
         /* simply try again */
-        fullSlot->internalAddress = Page_Create(
-            chunkSize * numChunks, 0 /*= exitonfail*/, 0 /*= printerror*/);
+        fullSlot->internalAddress =
+            Page_Create(chunkSize, 0 /*= exitonfail*/, 0 /*= printerror*/);
       } while (reduce_more && 0 == fullSlot->internalAddress);
 
       if (0 == fullSlot->internalAddress && DUMA_FAIL_ENV == fail)
         fullSlot->internalAddress = Page_Create(
-            chunkSize * numChunks, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
+            chunkSize, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
     }
 
     if (fullSlot->internalAddress) {
-      _duma_s.sumAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
-      _duma_s.sumTotalAllocatedMem += ((chunkSize + 1023) >> 10) * numChunks;
-      fullSlot->internalSize = chunkSize * numChunks;
+      _duma_s.sumAllocatedMem += (chunkSize + 1023) >> 10;
+      _duma_s.sumTotalAllocatedMem += (chunkSize + 1023) >> 10;
+      fullSlot->internalSize = chunkSize;
       fullSlot->state = DUMAST_FREE;
       --_duma_s.unUsedSlots;
     }
-- 
2.43.0


From 81168f78142fff8ad2840e6fc673666d3374788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 05/27] fix: honour DUMA_MALLOC_FAILEXIT also with
 DUMA_PROTECT_FREE=0

---
 src/duma.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index e85007f..30fa660 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1562,12 +1562,12 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
         fullSlot->internalAddress =
             Page_Create(chunkSize, 0 /*= exitonfail*/, 0 /*= printerror*/);
       } while (reduce_more && 0 == fullSlot->internalAddress);
-
-      if (0 == fullSlot->internalAddress && DUMA_FAIL_ENV == fail)
-        fullSlot->internalAddress = Page_Create(
-            chunkSize, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
     }
 
+    if (0 == fullSlot->internalAddress && DUMA_FAIL_ENV == fail)
+      fullSlot->internalAddress = Page_Create(
+          chunkSize, _duma_s.MALLOC_FAILEXIT, 1 /*= printerror*/);
+
     if (fullSlot->internalAddress) {
       _duma_s.sumAllocatedMem += (chunkSize + 1023) >> 10;
       _duma_s.sumTotalAllocatedMem += (chunkSize + 1023) >> 10;
-- 
2.43.0


From 58b50b49acc3327193ad51afe46bf7cde0eed10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 06/27] fix: calloc() did not detect the overflow of nelem *
 elsize

---
 src/duma.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 30fa660..5b3bd30 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2019,6 +2019,7 @@ void *_duma_malloc(size_t size DUMA_PARAMLIST_FL) {
  */
 void *_duma_calloc(size_t nelem, size_t elsize DUMA_PARAMLIST_FL) {
   DUMA_TLSVARS_T *duma_tls;
+  size_t size = nelem * elsize;
 
   if (_duma_g.allocList == 0)
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
@@ -2026,7 +2027,11 @@ void *_duma_calloc(size_t nelem, size_t elsize DUMA_PARAMLIST_FL) {
 
   duma_tls = GET_DUMA_TLSVARS();
 
-  return _duma_allocate(0, nelem * elsize, duma_tls->PROTECT_BELOW,
+  /* when the product overflows, request what no system can deliver */
+  if (elsize && nelem > (size_t)-1 / elsize)
+    size = (size_t)-1;
+
+  return _duma_allocate(0, size, duma_tls->PROTECT_BELOW,
                         0 /*=fillByte*/, 1 /*=protectAllocList*/, EFA_CALLOC,
                         DUMA_FAIL_ENV DUMA_PARAMS_FL);
 }
-- 
2.43.0


From e344873fd98711e59bf204509dacd3f58880e4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 07/27] fix: realloc() of an already freed block crashed
 instead of reporting it

---
 src/duma.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 5b3bd30..7ce6411 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2138,6 +2138,11 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
         DUMA_Abort("realloc(%a, %d): address not from malloc().",
                    (DUMA_ADDR)oldBuffer, (DUMA_SIZE)newSize);
 
+      /* do not touch memory already freed: free() reports it, not returning */
+      if (DUMAST_IN_USE != slot->state)
+        _duma_deallocate(oldBuffer, 0 /*=protectAllocList*/,
+                         EFA_REALLOC DUMA_PARAMS_FL);
+
       if (newSize > slot->userSize) {
         memcpy(ptr, oldBuffer, slot->userSize);
         memset((char *)ptr + slot->userSize, 0, newSize - slot->userSize);
-- 
2.43.0


From eec7d1da7f723ac8af6813ac3417523e461e4706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 08/27] fix: duma_check() accepted addresses of internal memory

---
 src/duma.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 7ce6411..0f23961 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1965,7 +1965,8 @@ void duma_check(void *address) {
     else
 #endif
       DUMA_Abort("check(%a): memory already freed.", (DUMA_ADDR)address);
-  }
+  } else if (DUMAST_IN_USE != slot->state || EFA_INT_ALLOC == slot->allocator)
+    DUMA_Abort("check(%a): address not from DUMA.", (DUMA_ADDR)address);
 
   /* CHECK INTEGRITY OF NO MANS LAND */
   _duma_check_slack(slot);
-- 
2.43.0


From afe1941b8883e9544f694148c333b58ef2a3a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 09/27] fix: malloc_usable_size() accepted freed blocks and
 internal memory

---
 src/duma.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 0f23961..8547a79 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2204,9 +2204,11 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
-  if (!(slot = slotForUserAddress(ptr))) {
-    DUMA_Abort("malloc_usable_size(%a): address not from malloc.",
-      (DUMA_ADDR)ptr);
+  if (!(slot = slotForUserAddress(ptr)) || DUMAST_IN_USE != slot->state ||
+      EFA_INT_ALLOC == slot->allocator) {
+    DUMA_Abort("malloc_usable_size(%a): address not from malloc or already "
+               "freed.",
+               (DUMA_ADDR)ptr);
   }
   size = slot->userSize;
 
-- 
2.43.0


From 9c2a3334d087175d2bbb43d23750c063e52ab612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 10/27] fix: realloc() of a zero-size block failed with
 DUMA_MALLOC_0_STRATEGY 2

---
 src/duma.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 8547a79..3c98e2a 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2132,7 +2132,10 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
                          DUMA_FAIL_ENV DUMA_PARAMS_FL);
 
     DUMA_ASSERT(oldBuffer);
-    if (ptr) {
+    if (ptr && _duma_g.null_addr == oldBuffer) {
+      /* the shared address of zero-size blocks: nothing to copy or free */
+      memset(ptr, 0, newSize);
+    } else if (ptr) {
       struct _DUMA_Slot *slot = slotForUserAddress(oldBuffer);
 
       if (slot == 0)
-- 
2.43.0


From cb64915a3062d591c49a8ccc6832165aebbeba3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 11/27] fix: read DUMA_MALLOC_0_STRATEGY and
 DUMA_NEW_0_STRATEGY as documented

---
 src/duma.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 3c98e2a..2a981b7 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -824,8 +824,10 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
 
   /*
    * See what strategy the user wants for malloc(0).
+   * (The name without prefix DUMA_ is accepted for compatibility.)
    */
-  if ((string = DUMA_GETENV("MALLOC_0_STRATEGY")) != 0) {
+  if ((string = DUMA_GETENV("DUMA_MALLOC_0_STRATEGY")) != 0 ||
+      (string = DUMA_GETENV("MALLOC_0_STRATEGY")) != 0) {
     int tmp = atoi(string);
     if (tmp >= 0 && tmp <= 3)
       _duma_s.MALLOC_0_STRATEGY = tmp;
@@ -833,8 +835,10 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
 
   /*
    * See what strategy the user wants for C++ operator new with size zero.
+   * (The name without prefix DUMA_ is accepted for compatibility.)
    */
-  if ((string = DUMA_GETENV("NEW_0_STRATEGY")) != 0) {
+  if ((string = DUMA_GETENV("DUMA_NEW_0_STRATEGY")) != 0 ||
+      (string = DUMA_GETENV("NEW_0_STRATEGY")) != 0) {
     int tmp = atoi(string);
     if (tmp >= 2 && tmp <= 3)
       _duma_s.NEW_0_STRATEGY = tmp;
-- 
2.43.0


From 1cccaee73eb34129c13d50a272ecc541f8af67c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:49 +0000
Subject: [PATCH 12/27] fix: operator delete(NULL) before the first allocation
 stopped the program

---
 src/duma.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 2a981b7..b42e9f2 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1736,6 +1736,10 @@ void _duma_deallocate(void *address, int protectAllocList,
   struct _DUMA_Slot *slot;
   long internalSizekB;
 
+  /* releasing a null pointer never does anything */
+  if (0 == address)
+    return;
+
   if (0 == _duma_g.allocList) {
 #ifdef DUMA_DETOURS
     /* Odd things happen with detours sometimes... */
@@ -1746,7 +1750,7 @@ void _duma_deallocate(void *address, int protectAllocList,
 #endif
   }
 
-  if (0 == address || _duma_g.null_addr == address)
+  if (_duma_g.null_addr == address)
     return;
 
   if (protectAllocList) {
-- 
2.43.0


From 7cca61fac5a6b811cfa035c739f90f997ba9c7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 13/27] fix: 32 bit counters in memcpy/strdup/strcat/strncat
 looped forever on 4 GiB and more

---
 src/duma.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index b42e9f2..3651fd8 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2236,7 +2236,7 @@ char *_duma_strdup(const char *str DUMA_PARAMLIST_FL) {
   size_t size;
   char *dup;
   DUMA_TLSVARS_T *duma_tls;
-  unsigned i;
+  size_t i;
 
   if (_duma_g.allocList == 0)
     _duma_init(); /* This sets DUMA_ALIGNMENT, DUMA_PROTECT_BELOW, DUMA_FILL,
@@ -2271,7 +2271,7 @@ char *_duma_strdup(const char *str DUMA_PARAMLIST_FL) {
 void *_duma_memcpy(void *dest, const void *src, size_t size DUMA_PARAMLIST_FL) {
   char *d = (char *)dest;
   const char *s = (const char *)src;
-  unsigned i;
+  size_t i;
 
   if ((s < d && d < s + size) ||
       (d < s && s < d + size && !_duma_s.MEMCPY_OVERLAP)) {
@@ -2404,7 +2404,7 @@ char *_duma_strncpy(char *dest, const char *src,
  * of dest to verify assumptions.
  */
 char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
-  unsigned i;
+  size_t i;
   size_t destlen = strlen(dest);
   size_t srcsize = strlen(src) + 1;
 
@@ -2435,7 +2435,7 @@ char *_duma_strcat(char *dest, const char *src DUMA_PARAMLIST_FL) {
  */
 char *_duma_strncat(char *dest, const char *src,
                     size_t size DUMA_PARAMLIST_FL) {
-  unsigned i;
+  size_t i;
   size_t destlen, srclen;
 
   /* do nothing, when size not > 0 */
-- 
2.43.0


From 254050d5dc1af2ba687218cd7f7ae403b410167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 14/27] fix: strncpy() missed an overlap with the terminator of
 the source

---
 src/duma.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index 3651fd8..1052206 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2369,7 +2369,8 @@ char *_duma_strncpy(char *dest, const char *src,
 
   srclen = _duma_strnlen(src, size);
 
-  if (size > 0 && ((src < dest && dest < src + srclen) ||
+  /* the terminator is read, too, when there is one within size */
+  if (size > 0 && ((src < dest && dest < src + srclen + (srclen < size)) ||
                    (dest < src && src < dest + size))) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Abort("strncpy(%a, %a, %d): memory regions overlap at %s(%i).",
-- 
2.43.0


From 80bde8b7aa5ffdce8dfd74b78a7df43bd2271e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:46 +0000
Subject: [PATCH 15/27] fix: strncat() reported an overlap for adjacent regions

---
 src/duma.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 1052206..f29f31a 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2447,8 +2447,10 @@ char *_duma_strncat(char *dest, const char *src,
   destlen = strlen(dest);
   srclen = _duma_strnlen(src, size);
 
-  /* CHECK: Verify memory regions do not overlap */
-  if (src < (dest + destlen) && (dest + destlen) < (src + srclen + 1)) {
+  /* CHECK: Verify memory regions do not overlap; the terminator of src is
+   * read only when it is within size */
+  if (src < (dest + destlen) &&
+      (dest + destlen) < (src + srclen + (srclen < size))) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Abort("strncat(%a, %a, %d): memory regions overlap at %s(%i).",
                (DUMA_ADDR)dest, (DUMA_ADDR)src, (DUMA_SIZE)size, filename,
-- 
2.43.0


From 8b9fa0ea1661088bfa0be9b34d591904a9255693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 16/27] fix: realloc() of a stale address could be satisfied by
 the new block itself

---
 src/duma.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index f29f31a..2fd2a86 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2135,15 +2135,8 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
                      EFA_REALLOC DUMA_PARAMS_FL);
     ptr = NULL;
   } else {
-    ptr = _duma_allocate(0, newSize, duma_tls->PROTECT_BELOW, -1 /*=fillByte*/,
-                         0 /*=protectAllocList*/, EFA_REALLOC,
-                         DUMA_FAIL_ENV DUMA_PARAMS_FL);
-
-    DUMA_ASSERT(oldBuffer);
-    if (ptr && _duma_g.null_addr == oldBuffer) {
-      /* the shared address of zero-size blocks: nothing to copy or free */
-      memset(ptr, 0, newSize);
-    } else if (ptr) {
+    /* before allocating: the new block may be placed at a stale address */
+    if (_duma_g.null_addr != oldBuffer) {
       struct _DUMA_Slot *slot = slotForUserAddress(oldBuffer);
 
       if (slot == 0)
@@ -2154,6 +2147,18 @@ void *_duma_realloc(void *oldBuffer, size_t newSize DUMA_PARAMLIST_FL) {
       if (DUMAST_IN_USE != slot->state)
         _duma_deallocate(oldBuffer, 0 /*=protectAllocList*/,
                          EFA_REALLOC DUMA_PARAMS_FL);
+    }
+
+    ptr = _duma_allocate(0, newSize, duma_tls->PROTECT_BELOW, -1 /*=fillByte*/,
+                         0 /*=protectAllocList*/, EFA_REALLOC,
+                         DUMA_FAIL_ENV DUMA_PARAMS_FL);
+
+    DUMA_ASSERT(oldBuffer);
+    if (ptr && _duma_g.null_addr == oldBuffer) {
+      /* the shared address of zero-size blocks: nothing to copy or free */
+      memset(ptr, 0, newSize);
+    } else if (ptr) {
+      struct _DUMA_Slot *slot = slotForUserAddress(oldBuffer);
 
       if (newSize > slot->userSize) {
         memcpy(ptr, oldBuffer, slot->userSize);
-- 
2.43.0


From 217bc022651a9a3cc821100dbd68ea203df5ec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:40 +0000
Subject: [PATCH 17/27] fix: a refused first mapping crashed in
 reduceProtectedMemory() instead of being reported

---
 src/duma.c | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 2fd2a86..41b7461 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1135,21 +1135,7 @@ void
    * be marked free.
    */
   slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
-      size, 0 /*=exitonfail*/, 0 /*=printerror*/);
-  if (0 == _duma_g.allocList && 0L != _duma_s.PROTECT_FREE) {
-    int reduce_more;
-    do {
-      /* reduce as much protected memory as we need - or at least try so */
-      reduce_more = reduceProtectedMemory((size + 1023) >> 10);
-      /* simply try again */
-      slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
-          size, 0 /*=exitonfail*/, 0 /*= printerror*/);
-    } while (reduce_more && 0 == _duma_g.allocList);
-
-    if (0 == _duma_g.allocList)
-      slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
-          size, 1 /*=exitonfail*/, 1 /*= printerror*/);
-  }
+      size, 1 /*=exitonfail*/, 1 /*=printerror*/);
 
   memset((char *)_duma_g.allocList, 0, _duma_s.allocListSize);
 
-- 
2.43.0


From ee3720217a5d09c4e347eacf7a98c10a9813e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 18/27] fix: account for protected memory released when less
 than asked for is available

---
 duma_hlp.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/duma_hlp.h b/duma_hlp.h
index 58993ed..3e7169b 100644
--- a/duma_hlp.h
+++ b/duma_hlp.h
@@ -81,6 +81,7 @@ static int reduceProtectedMemory(size_t reductionSizekB) {
       slot->filename = 0;
       slot->lineno = 0;
 #endif
+      ++_duma_s.unUsedSlots;
 
       if (alreadyReducekB >= reductionSizekB) {
         _duma_s.sumProtectedMem -= alreadyReducekB;
@@ -89,6 +90,9 @@ static int reduceProtectedMemory(size_t reductionSizekB) {
       }
     }
 
+  /* less than asked for, but released all the same */
+  _duma_s.sumProtectedMem -= alreadyReducekB;
+  _duma_s.sumAllocatedMem -= alreadyReducekB;
   return 0;
 }
 
-- 
2.43.0


From f8750c7f2fcd4bf9fc2ae9115c60d1f2c5f449b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:38 +0000
Subject: [PATCH 19/27] fix: the first memory chunk was missing in the sum
 compared to DUMA_MAX_ALLOC

---
 src/duma.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 41b7461..528362b 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1136,6 +1136,8 @@ void
    */
   slot = _duma_g.allocList = (struct _DUMA_Slot *)Page_Create(
       size, 1 /*=exitonfail*/, 1 /*=printerror*/);
+  _duma_s.sumAllocatedMem += (size + 1023) >> 10;
+  _duma_s.sumTotalAllocatedMem += (size + 1023) >> 10;
 
   memset((char *)_duma_g.allocList, 0, _duma_s.allocListSize);
 
-- 
2.43.0


From 9e81796df253628cf99cf5e5e532263b9cedefdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:50 +0000
Subject: [PATCH 20/27] fix: endless recursion when the first mapping is
 refused

strerror() may call free(), which starts the initialization again. The
guard against that was optimized away, strerror() being declared as a
leaf function.
---
 paging.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paging.h b/paging.h
index 5193dfa..760ca07 100644
--- a/paging.h
+++ b/paging.h
@@ -75,7 +75,7 @@ static const char *stringErrorReport(void) {
   return (char *)lpMsgBuf; /* "Unknown error.\n"; */
 #else
 #ifndef DUMA_NO_STRERROR
-  static int failing;
+  static volatile int failing; /* strerror() may call back into DUMA */
 
   if (!failing) {
     const char *str;
-- 
2.43.0


From 4fa1118bd890860d695c56ed811ff4b633e1ae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:13 +0000
Subject: [PATCH 21/27] fix: malloc_usable_size takes the lock while it opens
 the bookkeeping memory

Without it another thread closes the pages during the lookup (fault), or has
them closed under it.
---
 src/duma.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/duma.c b/src/duma.c
index 528362b..78e077d 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2206,6 +2206,9 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 #endif
   }
 
+  IF__DUMA_INIT_DONE
+  DUMA_GET_SEMAPHORE();
+
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
   if (!(slot = slotForUserAddress(ptr)) || DUMAST_IN_USE != slot->state ||
@@ -2218,6 +2221,9 @@ size_t _duma_malloc_usable_size(void *ptr DUMA_PARAMLIST_FL) {
 
   Page_DenyAccess(_duma_g.allocList, _duma_s.allocListSize);
 
+  IF__DUMA_INIT_DONE
+  DUMA_RELEASE_SEMAPHORE(0);
+
   return size;
 }
 
-- 
2.43.0


From 1383ec55b450ef4d24134d23201ea8966aaa070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:19 +0000
Subject: [PATCH 22/27] fix: the leak report reads the bookkeeping list only
 under the lock

A thread that moved the list to a larger one meanwhile left the report
walking unmapped memory.
---
 src/duma.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 78e077d..1fe3f94 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2550,8 +2550,8 @@ void DUMA_newFrame(void) {}
  * the application to locate memory leaks.
  */
 void DUMA_delFrame(void) {
-  struct _DUMA_Slot *slot = _duma_g.allocList;
-  size_t count = _duma_s.slotCount;
+  struct _DUMA_Slot *slot;
+  size_t count;
   int nonFreedTotal = 0;
   int nonFreedReported = 0;
   int iExtraLeaks;
@@ -2561,6 +2561,10 @@ void DUMA_delFrame(void) {
 
   Page_AllowAccess(_duma_g.allocList, _duma_s.allocListSize);
 
+  /* only now: another thread may have moved the list to a larger one */
+  slot = _duma_g.allocList;
+  count = _duma_s.slotCount;
+
   for (; count > 0; --count, ++slot) {
     if (DUMAST_IN_USE == slot->state && EFA_INT_ALLOC != slot->allocator
 #ifdef DUMA_EXPLICIT_INIT
-- 
2.43.0


From 01867834c3211ca6fcd324d753b308bcdeb67664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:53 +0000
Subject: [PATCH 23/27] fix: LONG_MIN is printed as garbage

---
 src/print.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/print.c b/src/print.c
index 7ef5425..b081f82 100644
--- a/src/print.c
+++ b/src/print.c
@@ -89,7 +89,7 @@ typedef LPVOID caddr_t;
 /* define prototypes / forward declarations */
 
 static int sprintAddr(char *dest, DUMA_ADDR addr, DUMA_ADDR base);
-static int sprintLong(char *dest, long number, long base);
+static int sprintLong(char *dest, unsigned long number, unsigned long base);
 static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args);
 
 /*
@@ -130,11 +130,11 @@ static int sprintAddr(char *dest, DUMA_ADDR value, DUMA_ADDR base) {
  *
  * internal function to print a int into a buffer
  */
-static int sprintLong(char *dest, long value, long base) {
+static int sprintLong(char *dest, unsigned long value, unsigned long base) {
   char buffer[NUMBER_BUFFER_SIZE + 1];
   char *s = &buffer[NUMBER_BUFFER_SIZE];
   long size;
-  long digit;
+  unsigned long digit;
 
   do {
     if (--s == buffer)
@@ -209,11 +209,12 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
       case 'l': /* long */
       {
         long n = va_arg(args, long);
+        unsigned long magnitude = (unsigned long)n;
         if (n < 0) {
           buffer[len++] = '-';
-          n = -n;
+          magnitude = 0 - magnitude;
         }
-        len += sprintLong(&buffer[len], n, 10);
+        len += sprintLong(&buffer[len], magnitude, 10);
         break;
       }
       case 's': /* string */
-- 
2.43.0


From 23480718caf596d9d1eefcee39fc175625e4ad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:11 +0000
Subject: [PATCH 24/27] fix: a message longer than the text buffer overran it

---
 src/print.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/print.c b/src/print.c
index b081f82..833356b 100644
--- a/src/print.c
+++ b/src/print.c
@@ -31,6 +31,7 @@
 #define _POSIX_C_SOURCE 200809L
 #endif
 
+#include <limits.h>
 #include <signal.h>
 #include <stdarg.h>
 #include <stdlib.h>
@@ -90,7 +91,8 @@ typedef LPVOID caddr_t;
 
 static int sprintAddr(char *dest, DUMA_ADDR addr, DUMA_ADDR base);
 static int sprintLong(char *dest, unsigned long number, unsigned long base);
-static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args);
+static int DUMA_vsprintf(char *buffer, int room, const char *pattern,
+                         va_list args);
 
 /*
  * NUMBER_BUFFER_SIZE is the longest character string that could be needed
@@ -164,8 +166,11 @@ static int sprintLong(char *dest, unsigned long value, unsigned long base) {
  *   %l = long
  *   %s = string teminated with '\0'
  *   %c = char
+ *
+ * a text which does not fit into the first room bytes of the buffer is cut
  */
-static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
+static int DUMA_vsprintf(char *buffer, int room, const char *pattern,
+                         va_list args) {
   char c;
   static const char bad_pattern[] =
       "\nDUMA: Bad pattern specifier %%%c in DUMA_Print().\n";
@@ -174,7 +179,8 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
   DUMA_ADDR n;
 
   c = *s++;
-  while (c) {
+  /* keep room for one more character or number, and for the terminator */
+  while (c && len < room - (int)(NUMBER_BUFFER_SIZE + 2)) {
     if (c == '%') {
       c = *s++;
       switch (c) {
@@ -225,7 +231,9 @@ static int DUMA_vsprintf(char *buffer, const char *pattern, va_list args) {
         string = va_arg(args, char *);
         if (string) {
           length = strlen(string);
-          strcpy(&buffer[len], string);
+          if (length > (size_t)(room - len - 1))
+            length = (size_t)(room - len - 1);
+          memcpy(&buffer[len], string, length);
         } else {
           length = 4; /* = strlen("NULL") */
           strcpy(&buffer[len], "NULL");
@@ -264,7 +272,7 @@ void DUMA_Abort(const char *pattern, ...) {
   va_start(args, pattern);
   strcpy(buffer, "\nDUMA Aborting: ");
   lena = strlen(buffer);
-  DUMA_vsprintf(&buffer[lena], pattern, args);
+  DUMA_vsprintf(&buffer[lena], (int)sizeof(buffer) - lena - 1, pattern, args);
   strcat(buffer, "\n");
   DUMA_Print("%s", buffer);
   va_end(args);
@@ -296,7 +304,7 @@ void DUMA_Print(const char *pattern, ...) {
   va_list args;
 
   va_start(args, pattern);
-  len = DUMA_vsprintf(buffer, pattern, args);
+  len = DUMA_vsprintf(buffer, (int)sizeof(buffer), pattern, args);
   va_end(args);
 
 #ifdef WIN32
@@ -341,7 +349,7 @@ void DUMA_Exit(const char *pattern, ...) {
   va_start(args, pattern);
   strcpy(buffer, "\nDUMA Exiting: ");
   lena = strlen(buffer);
-  DUMA_vsprintf(&buffer[lena], pattern, args);
+  DUMA_vsprintf(&buffer[lena], (int)sizeof(buffer) - lena - 1, pattern, args);
   strcat(buffer, "\n");
   DUMA_Print("%s", buffer);
 #ifdef WIN32
@@ -363,7 +371,8 @@ void DUMA_sprintf(char *buffer, const char *pattern, ...) {
   va_list args;
 
   va_start(args, pattern);
-  len = DUMA_vsprintf(buffer, pattern, args);
+  /* the caller knows the size of the buffer */
+  len = DUMA_vsprintf(buffer, INT_MAX, pattern, args);
   va_end(args);
   if (len <= 0)
     buffer[0] = 0;
-- 
2.43.0


From 28661155e2e326ce9a66bb9a41e2bbc62634a721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:43 +0000
Subject: [PATCH 25/27] fix: file names from the environment were reported as
 leaks of the program

---
 src/duma.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index 1fe3f94..edb2484 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -762,6 +762,30 @@ static const char *duma_getenv(const char *varname) {
 
 #endif
 
+/* copy of an environment string, in internal memory: it is no leak of the
+ * program
+ */
+static char *duma_dupenv(DUMA_TLSVARS_T *duma_tls, const char *string) {
+  size_t size = strlen(string) + 1;
+  char *dup;
+
+#ifndef DUMA_NO_LEAKDETECTION
+  dup = (char *)_duma_allocate(0, size, duma_tls->PROTECT_BELOW,
+                               -1 /*=fillByte*/, 1 /*=protectAllocList*/,
+                               EFA_INT_ALLOC, DUMA_FAIL_ENV, __FILE__,
+                               __LINE__);
+#else
+  dup = (char *)_duma_allocate(0, size, duma_tls->PROTECT_BELOW,
+                               -1 /*=fillByte*/, 1 /*=protectAllocList*/,
+                               EFA_INT_ALLOC, DUMA_FAIL_ENV);
+#endif
+
+  if (dup)
+    memcpy(dup, string, size);
+
+  return dup;
+}
+
 static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
   const char *string;
 
@@ -904,11 +928,7 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
    * meaning that this option is disabled.
    */
   if ((string = DUMA_GETENV("DUMA_OUTPUT_STACKTRACE_MAPFILE")) != 0)
-#ifndef DUMA_NO_LEAKDETECTION
-    DUMA_OUTPUT_STACKTRACE_MAPFILE = _duma_strdup(string, __FILE__, __LINE__);
-#else
-    DUMA_OUTPUT_STACKTRACE_MAPFILE = _duma_strdup(string);
-#endif
+    DUMA_OUTPUT_STACKTRACE_MAPFILE = duma_dupenv(duma_tls, string);
 
   /*
    * DUMA_OUTPUT_DEBUG is a global variable used to control if DUMA
@@ -940,11 +960,7 @@ static void duma_getenvvars(DUMA_TLSVARS_T *duma_tls) {
    * meaning that output is not by default sent to a file.
    */
   if ((string = DUMA_GETENV("DUMA_OUTPUT_FILE")) != 0)
-#ifndef DUMA_NO_LEAKDETECTION
-    DUMA_OUTPUT_FILE = _duma_strdup(string, __FILE__, __LINE__);
-#else
-    DUMA_OUTPUT_FILE = _duma_strdup(string);
-#endif
+    DUMA_OUTPUT_FILE = duma_dupenv(duma_tls, string);
 
   /* Get Value for DUMA_SKIPCOUNT_INIT */
   if ((string = DUMA_GETENV("DUMA_SKIPCOUNT_INIT")) != 0)
-- 
2.43.0


From fa832e90de98373880d3e9e1324841b840b48fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:43 +0000
Subject: [PATCH 26/27] fix: a full allocation list that cannot grow is out of
 memory, no internal error

---
 src/duma.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/duma.c b/src/duma.c
index edb2484..be4b2c1 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -1310,6 +1310,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
   DUMA_ADDR intAddr, userAddr, protAddr, endAddr;
   size_t internalSize;
   int allocationStrategy;
+  int outOfSlots = 0;
 #if defined(WIN32) && !defined(__CYGWIN__) && !defined(__MINGW32__) &&         \
     !defined(__MINGW64__)
   char stacktrace[601];
@@ -1477,9 +1478,23 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
    * I don't have enough slots left to make an allocation.
    */
   if (DUMAAT_INTERNAL != _duma_allocDesc[allocator].type &&
-      _duma_s.unUsedSlots < 7)
+      _duma_s.unUsedSlots < 7) {
     allocateMoreSlots();
 
+    /*
+     * The list could not be enlarged: keep the two slots which are needed to
+     * do so later. This allocation may use up two more of them.
+     */
+    outOfSlots = (_duma_s.unUsedSlots < 4);
+    if (outOfSlots && DUMA_FAIL_ENV == fail) {
+      if (_duma_s.MALLOC_FAILEXIT)
+        DUMA_Abort("Out of memory for the list of allocations.");
+      else
+        DUMA_Print(
+            "\nDUMA warning: out of memory for the list of allocations.");
+    }
+  }
+
   /*
    * Iterate through all of the slot structures. Attempt to find a slot
    * containing free memory of the exact right size. Accept a slot with
@@ -1517,7 +1532,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
     }
   }
 
-  if (!fullSlot) {
+  if (!fullSlot && !outOfSlots) {
     /*
      * I get here if I haven't been able to find a free buffer
      * with all of the memory I need. I'll have to create more
@@ -1585,7 +1600,7 @@ void *_duma_allocate(size_t alignment, size_t userSize, int protectBelow,
     }
   } /* end if ( !fullSlot ) */
 
-  if (fullSlot->internalSize) {
+  if (!outOfSlots && fullSlot->internalSize) {
 
 #if !defined(WIN32)
     /*
-- 
2.43.0


From 0f99ace6962bd3da8f02a3eccd3fa390d24347b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:36 +0000
Subject: [PATCH 27/27] fix: memcpy() before the constructor ignored
 DUMA_MEMCPY_OVERLAP

---
 src/duma.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/duma.c b/src/duma.c
index be4b2c1..56ca181 100644
--- a/src/duma.c
+++ b/src/duma.c
@@ -2289,6 +2289,14 @@ char *_duma_strdup(const char *str DUMA_PARAMLIST_FL) {
   return dup;
 }
 
+/* is DUMA_MEMCPY_OVERLAP set? memcpy() may be called before the constructor */
+static int memcpyOverlapAllowed(void) {
+  if (_duma_g.allocList == 0)
+    _duma_init();
+
+  return _duma_s.MEMCPY_OVERLAP;
+}
+
 /* Function: _duma_memcpy
  *
  * A version of memcpy that provides extra checks based on
@@ -2304,7 +2312,7 @@ void *_duma_memcpy(void *dest, const void *src, size_t size DUMA_PARAMLIST_FL) {
   size_t i;
 
   if ((s < d && d < s + size) ||
-      (d < s && s < d + size && !_duma_s.MEMCPY_OVERLAP)) {
+      (d < s && s < d + size && !memcpyOverlapAllowed())) {
 #ifndef DUMA_NO_LEAKDETECTION
     DUMA_Abort("memcpy(%a, %a, %d): memory regions overlap at %s(%i).",
                (DUMA_ADDR)dest, (DUMA_ADDR)src, (DUMA_SIZE)size, filename,
-- 
2.43.0

