From eb65ecfffd512c04c7b1981fe47fcf11536b6851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 01/39] fix: keep the vector capacity when reallocation fails

---
 src/Vector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index f92c9de..08d47ea 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -111,9 +111,9 @@ static ZyanStatus ZyanVectorReallocate(ZyanVector* vector, ZyanUSize capacity)
         }
     }
 
-    vector->capacity = capacity;
     ZYAN_CHECK(vector->allocator->reallocate(vector->allocator, &vector->data,
-        vector->element_size, vector->capacity));
+        vector->element_size, capacity));
+    vector->capacity = capacity;
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From bfa32f5d3961c554ceb684791a2cbe041ed82af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:00 +0000
Subject: [PATCH 02/39] fix: reject vector ranges whose end overflows

---
 src/Vector.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index 08d47ea..137a607 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -576,7 +576,7 @@ ZyanStatus ZyanVectorDeleteRange(ZyanVector* vector, ZyanUSize index, ZyanUSize
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if (index + count > vector->size)
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -657,7 +657,7 @@ ZyanStatus ZyanVectorFindEx(const ZyanVector* vector, const void* element, ZyanI
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if ((index + count > vector->size) || (index == vector->size))
+    if ((index >= vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -702,7 +702,7 @@ ZyanStatus ZyanVectorBinarySearchEx(const ZyanVector* vector, const void* elemen
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if (((index >= vector->size) && (count > 0)) || (index + count > vector->size))
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
-- 
2.43.0


From 9e238a311b8202908ccb1b5c3a8f17e7f973d579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:00 +0000
Subject: [PATCH 03/39] fix: restore the vector when an in-place constructor
 fails

---
 src/Vector.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Vector.c b/src/Vector.c
index 137a607..ac1a7cc 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -520,7 +520,16 @@ ZyanStatus ZyanVectorEmplaceEx(ZyanVector* vector, ZyanUSize index, void** eleme
     *element = ZYCORE_VECTOR_OFFSET(vector, index);
     if (constructor)
     {
-        ZYAN_CHECK(constructor(*element));
+        const ZyanStatus status = constructor(*element);
+        if (!ZYAN_SUCCESS(status))
+        {
+            if (index < vector->size)
+            {
+                ZYAN_MEMMOVE(*element, ZYCORE_VECTOR_OFFSET(vector, index + 1),
+                    (vector->size - index) * vector->element_size);
+            }
+            return status;
+        }
     }
 
     ++vector->size;
-- 
2.43.0


From d9a2bea442ab935f1c899fb3fcb051fe71270331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 04/39] fix: do not fail vector removals when releasing memory
 fails

---
 src/Vector.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index ac1a7cc..ccfe8f2 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -606,8 +606,9 @@ ZyanStatus ZyanVectorDeleteRange(ZyanVector* vector, ZyanUSize index, ZyanUSize
     vector->size -= count;
     if (ZYCORE_VECTOR_SHOULD_SHRINK(vector->size, vector->capacity, vector->shrink_threshold))
     {
-        return ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor)));
+        // The removal is already done. The vector stays valid, if the shrink attempt fails
+        ZYAN_UNUSED(ZyanVectorReallocate(vector,
+            ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor))));
     }
 
     return ZYAN_STATUS_SUCCESS;
@@ -632,8 +633,9 @@ ZyanStatus ZyanVectorPopBack(ZyanVector* vector)
     --vector->size;
     if (ZYCORE_VECTOR_SHOULD_SHRINK(vector->size, vector->capacity, vector->shrink_threshold))
     {
-        return ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor)));
+        // The removal is already done. The vector stays valid, if the shrink attempt fails
+        ZYAN_UNUSED(ZyanVectorReallocate(vector,
+            ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor))));
     }
 
     return ZYAN_STATUS_SUCCESS;
@@ -781,7 +783,13 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
         ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold))
     {
         ZYAN_ASSERT(vector->growth_factor >= 1);
-        ZYAN_CHECK(ZyanVectorReallocate(vector, (ZyanUSize)(size * vector->growth_factor)));
+        const ZyanStatus status =
+            ZyanVectorReallocate(vector, (ZyanUSize)(size * vector->growth_factor));
+        // The vector stays valid, if an attempt to shrink fails
+        if (!ZYAN_SUCCESS(status) && (size > vector->capacity))
+        {
+            return status;
+        }
     }
 
     if (initializer && (size > vector->size))
-- 
2.43.0


From 9ec1e7084495e712e4bc4da43f56194f1abfba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 05/39] fix: detect size overflow when a vector grows

---
 src/Vector.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Vector.c b/src/Vector.c
index ccfe8f2..9b9489d 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -783,6 +783,10 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
         ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold))
     {
         ZYAN_ASSERT(vector->growth_factor >= 1);
+        if (size > (ZyanUSize)(-1) / vector->growth_factor)
+        {
+            return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+        }
         const ZyanStatus status =
             ZyanVectorReallocate(vector, (ZyanUSize)(size * vector->growth_factor));
         // The vector stays valid, if an attempt to shrink fails
-- 
2.43.0


From ef14e10c8bc8472ce76ea075a19e22eab26446ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:02 +0000
Subject: [PATCH 06/39] fix: allow swapping a vector element with itself

---
 src/Vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vector.c b/src/Vector.c
index 9b9489d..2b269f8 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -564,7 +564,7 @@ ZyanStatus ZyanVectorSwapElements(ZyanVector* vector, ZyanUSize index_first, Zya
     ZyanU64* const a = ZYCORE_VECTOR_OFFSET(vector, index_first);
     ZyanU64* const b = ZYCORE_VECTOR_OFFSET(vector, index_second);
     ZYAN_MEMCPY(t, a, vector->element_size);
-    ZYAN_MEMCPY(a, b, vector->element_size);
+    ZYAN_MEMMOVE(a, b, vector->element_size);
     ZYAN_MEMCPY(b, t, vector->element_size);
 
     return ZYAN_STATUS_SUCCESS;
-- 
2.43.0


From 65ddb97cf370f5ce5f5948a8c7e459859d5a128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 07/39] fix: detect size overflow in the default allocator

---
 src/Allocator.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Allocator.c b/src/Allocator.c
index 5fadf64..9953ef1 100644
--- a/src/Allocator.c
+++ b/src/Allocator.c
@@ -47,6 +47,11 @@ static ZyanStatus ZyanAllocatorDefaultAllocate(ZyanAllocator* allocator, void**
 
     ZYAN_UNUSED(allocator);
 
+    if (n > (ZyanUSize)(-1) / element_size)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     *p = ZYAN_MALLOC(element_size * n);
     if (!*p)
     {
@@ -66,6 +71,11 @@ static ZyanStatus ZyanAllocatorDefaultReallocate(ZyanAllocator* allocator, void*
 
     ZYAN_UNUSED(allocator);
 
+    if (n > (ZyanUSize)(-1) / element_size)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     void* const x = ZYAN_REALLOC(*p, element_size * n);
     if (!x)
     {
-- 
2.43.0


From f85f6eaf9b4a3d6b03b62564c670be9d7ad6224e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 08/39] fix: reject string ranges whose end overflows

---
 src/String.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/String.c b/src/String.c
index 9dce43f..f07b6ef 100644
--- a/src/String.c
+++ b/src/String.c
@@ -267,7 +267,7 @@ ZyanStatus ZyanStringViewInsideViewEx(ZyanStringView* view, const ZyanStringView
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (index + count >= source->string.vector.size)
+    if ((index >= source->string.vector.size) || (count >= source->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -434,7 +434,8 @@ ZyanStatus ZyanStringInsertEx(ZyanString* destination, ZyanUSize destination_ind
     }
 
     // Don't allow access to the terminating '\0' character
-    if (source_index + count >= source->string.vector.size)
+    if ((source_index >= source->string.vector.size) ||
+        (count >= source->string.vector.size - source_index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -475,7 +476,8 @@ ZyanStatus ZyanStringAppendEx(ZyanString* destination, const ZyanStringView* sou
     }
 
     // Don't allow access to the terminating '\0' character
-    if (source_index + count >= source->string.vector.size)
+    if ((source_index >= source->string.vector.size) ||
+        (count >= source->string.vector.size - source_index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -501,7 +503,7 @@ ZyanStatus ZyanStringDelete(ZyanString* string, ZyanUSize index, ZyanUSize count
     }
 
     // Don't allow removal of the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -572,7 +574,7 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= haystack->string.vector.size)
+    if ((index >= haystack->string.vector.size) || (count >= haystack->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -641,7 +643,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= haystack->string.vector.size)
+    if ((index >= haystack->string.vector.size) || (count >= haystack->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -954,7 +956,7 @@ ZyanStatus ZyanStringToLowerCaseEx(ZyanString* string, ZyanUSize index, ZyanUSiz
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -995,7 +997,7 @@ ZyanStatus ZyanStringToUpperCaseEx(ZyanString* string, ZyanUSize index, ZyanUSiz
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
-- 
2.43.0


From d69f2f14f18ea139ebf799fad94cf499cd41e513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 09/39] fix: size of string views created from a range

---
 src/String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index f07b6ef..ac13e46 100644
--- a/src/String.c
+++ b/src/String.c
@@ -273,7 +273,7 @@ ZyanStatus ZyanStringViewInsideViewEx(ZyanStringView* view, const ZyanStringView
     }
 
     view->string.vector.data = (void*)((char*)source->string.vector.data + index);
-    view->string.vector.size = count;
+    view->string.vector.size = count + 1;
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From 87b17fc1721190b4d9118ce7de977c1c74385370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 10/39] fix: keep string searches inside the needle and the
 searched range

---
 src/String.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/String.c b/src/String.c
index ac13e46..72ed2ab 100644
--- a/src/String.c
+++ b/src/String.c
@@ -597,16 +597,16 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
         const char* a = s;
         for (;;)
         {
-            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) > index + count)
-            {
-                *found_index = -1;
-                return ZYAN_STATUS_FALSE;
-            }
-            if (*b == 0)
+            if (b >= (const char*)needle->string.vector.data + needle->string.vector.size - 1)
             {
                 *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
                 return ZYAN_STATUS_TRUE;
             }
+            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) >= index + count)
+            {
+                *found_index = -1;
+                return ZYAN_STATUS_FALSE;
+            }
             if (*a++ != *b++)
             {
                 break;
@@ -666,16 +666,16 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
         const char* a = s;
         for (;;)
         {
-            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) > index + count)
-            {
-                *found_index = -1;
-                return ZYAN_STATUS_FALSE;
-            }
-            if (*b == 0)
+            if (b >= (const char*)needle->string.vector.data + needle->string.vector.size - 1)
             {
                 *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
                 return ZYAN_STATUS_TRUE;
             }
+            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) >= index + count)
+            {
+                *found_index = -1;
+                return ZYAN_STATUS_FALSE;
+            }
             const char c1 = *a++;
             const char c2 = *b++;
             if ((c1 != c2) && ((c1 ^ 32) != c2))
-- 
2.43.0


From 9ab5863bb1c8c84d935b408a801218835f6fb940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:22 +0000
Subject: [PATCH 11/39] fix: fold only letters in case-insensitive string
 operations

---
 src/String.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/String.c b/src/String.c
index 72ed2ab..07bc43b 100644
--- a/src/String.c
+++ b/src/String.c
@@ -43,6 +43,12 @@
 #define ZYCORE_STRING_ASSERT_NULLTERMINATION(string) \
       ZYAN_ASSERT(*(char*)((ZyanU8*)(string)->vector.data + (string)->vector.size - 1) == '\0');
 
+/**
+ * Converts uppercase letters to lowercase and leaves all other characters unchanged.
+ */
+#define ZYCORE_STRING_FOLD_CASE(c) \
+      ((((c) >= 'A') && ((c) <= 'Z')) ? ((c) | 32) : (c))
+
 /* ============================================================================================== */
 /* Exported functions                                                                             */
 /* ============================================================================================== */
@@ -659,7 +665,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     const char* b = (const char*)needle->string.vector.data;
     for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
     {
-        if ((*s != *b) && ((*s ^ 32) != *b))
+        if (ZYCORE_STRING_FOLD_CASE(*s) != ZYCORE_STRING_FOLD_CASE(*b))
         {
             continue;
         }
@@ -678,7 +684,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
             }
             const char c1 = *a++;
             const char c2 = *b++;
-            if ((c1 != c2) && ((c1 ^ 32) != c2))
+            if (ZYCORE_STRING_FOLD_CASE(c1) != ZYCORE_STRING_FOLD_CASE(c2))
             {
                 break;
             }
@@ -799,7 +805,7 @@ ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     const char* b = (const char*)needle->string.vector.data + needle->string.vector.size - 2;
     for (; s >= (const char*)haystack->string.vector.data; --s)
     {
-        if ((*s != *b) && ((*s ^ 32) != *b))
+        if (ZYCORE_STRING_FOLD_CASE(*s) != ZYCORE_STRING_FOLD_CASE(*b))
         {
             continue;
         }
@@ -818,7 +824,7 @@ ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringVie
             }
             const char c1 = *a--;
             const char c2 = *b--;
-            if ((c1 != c2) && ((c1 ^ 32) != c2))
+            if (ZYCORE_STRING_FOLD_CASE(c1) != ZYCORE_STRING_FOLD_CASE(c2))
             {
                 break;
             }
@@ -907,7 +913,7 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
     ZyanUSize i;
     for (i = 0; (i + 1 < s1->string.vector.size) && (i + 1 < s2->string.vector.size); ++i)
     {
-        if ((a[i] == b[i]) || ((a[i] ^ 32) == b[i]))
+        if (ZYCORE_STRING_FOLD_CASE(a[i]) == ZYCORE_STRING_FOLD_CASE(b[i]))
         {
             continue;
         }
-- 
2.43.0


From c0e63b18362824b7868b56da2a4f7d29d70864bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 12/39] fix: order strings by their first different character

---
 src/String.c | 54 +++++++++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/String.c b/src/String.c
index 07bc43b..667d6de 100644
--- a/src/String.c
+++ b/src/String.c
@@ -847,17 +847,6 @@ ZyanStatus ZyanStringCompare(const ZyanStringView* s1, const ZyanStringView* s2,
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (s1->string.vector.size < s2->string.vector.size)
-    {
-        *result = -1;
-        return ZYAN_STATUS_FALSE;
-    }
-    if (s1->string.vector.size > s2->string.vector.size)
-    {
-        *result =  1;
-        return ZYAN_STATUS_FALSE;
-    }
-
     const char* const a = (char*)s1->string.vector.data;
     const char* const b = (char*)s2->string.vector.data;
     ZyanUSize i;
@@ -870,13 +859,25 @@ ZyanStatus ZyanStringCompare(const ZyanStringView* s1, const ZyanStringView* s2,
         break;
     }
 
-    if (a[i] == b[i])
+    if ((i + 1 >= s1->string.vector.size) && (i + 1 >= s2->string.vector.size))
     {
         *result = 0;
         return ZYAN_STATUS_TRUE;
     }
 
-    if ((a[i] | 32) < (b[i] | 32))
+    // The string that ends first is a prefix of the other one
+    if (i + 1 >= s1->string.vector.size)
+    {
+        *result = -1;
+        return ZYAN_STATUS_FALSE;
+    }
+    if (i + 1 >= s2->string.vector.size)
+    {
+        *result =  1;
+        return ZYAN_STATUS_FALSE;
+    }
+
+    if (a[i] < b[i])
     {
         *result = -1;
         return ZYAN_STATUS_FALSE;
@@ -897,17 +898,6 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (s1->string.vector.size < s2->string.vector.size)
-    {
-        *result = -1;
-        return ZYAN_STATUS_FALSE;
-    }
-    if (s1->string.vector.size > s2->string.vector.size)
-    {
-        *result =  1;
-        return ZYAN_STATUS_FALSE;
-    }
-
     const char* const a = (char*)s1->string.vector.data;
     const char* const b = (char*)s2->string.vector.data;
     ZyanUSize i;
@@ -920,13 +910,25 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
         break;
     }
 
-    if (a[i] == b[i])
+    if ((i + 1 >= s1->string.vector.size) && (i + 1 >= s2->string.vector.size))
     {
         *result = 0;
         return ZYAN_STATUS_TRUE;
     }
 
-    if ((a[i] | 32) < (b[i] | 32))
+    // The string that ends first is a prefix of the other one
+    if (i + 1 >= s1->string.vector.size)
+    {
+        *result = -1;
+        return ZYAN_STATUS_FALSE;
+    }
+    if (i + 1 >= s2->string.vector.size)
+    {
+        *result =  1;
+        return ZYAN_STATUS_FALSE;
+    }
+
+    if (ZYCORE_STRING_FOLD_CASE(a[i]) < ZYCORE_STRING_FOLD_CASE(b[i]))
     {
         *result = -1;
         return ZYAN_STATUS_FALSE;
-- 
2.43.0


From 30c720df58b46c139e0ef7d17af7c7a57c4b63e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 13/39] fix: account for the terminating character in string
 sizes

---
 src/String.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index 667d6de..0d0155c 100644
--- a/src/String.c
+++ b/src/String.c
@@ -75,6 +75,11 @@ ZyanStatus ZyanStringInitEx(ZyanString* string, ZyanUSize capacity, ZyanAllocato
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (capacity == (ZyanUSize)(-1))
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     string->flags = 0;
     capacity = ZYAN_MAX(ZYAN_STRING_MIN_CAPACITY, capacity) + 1;
     ZYAN_CHECK(ZyanVectorInitEx(&string->vector, sizeof(char), capacity, ZYAN_NULL, allocator,
@@ -1035,6 +1040,12 @@ ZyanStatus ZyanStringResize(ZyanString* string, ZyanUSize size)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    // Reserve space for the terminating '\0' character
+    if (size == (ZyanUSize)(-1))
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     ZYAN_CHECK(ZyanVectorResize(&string->vector, size + 1));
     ZYCORE_STRING_NULLTERMINATE(string);
 
@@ -1048,7 +1059,13 @@ ZyanStatus ZyanStringReserve(ZyanString* string, ZyanUSize capacity)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    return ZyanVectorReserve(&string->vector, capacity);
+    // Reserve space for the terminating '\0' character
+    if (capacity == (ZyanUSize)(-1))
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
+    return ZyanVectorReserve(&string->vector, capacity + 1);
 }
 
 ZyanStatus ZyanStringShrinkToFit(ZyanString* string)
-- 
2.43.0


From 326a9ec3c54e82b1fc22f2faa9eb64fbfc55cf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:44 +0000
Subject: [PATCH 14/39] fix: allow appending a string to itself

---
 src/String.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/String.c b/src/String.c
index 0d0155c..8e87b2a 100644
--- a/src/String.c
+++ b/src/String.c
@@ -470,9 +470,9 @@ ZyanStatus ZyanStringAppend(ZyanString* destination, const ZyanStringView* sourc
     }
 
     const ZyanUSize len = destination->vector.size;
-    ZYAN_CHECK(ZyanVectorResize(&destination->vector, len + source->string.vector.size - 1));
-    ZYAN_MEMCPY((char*)destination->vector.data + len - 1, source->string.vector.data,
-        source->string.vector.size - 1);
+    const ZyanUSize count = source->string.vector.size - 1;
+    ZYAN_CHECK(ZyanVectorResize(&destination->vector, len + count));
+    ZYAN_MEMCPY((char*)destination->vector.data + len - 1, source->string.vector.data, count);
     ZYCORE_STRING_NULLTERMINATE(destination);
 
     return ZYAN_STATUS_SUCCESS;
-- 
2.43.0


From d5570b172f48e822fb7ba13c5ac66d8621885eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 15/39] fix: read characters of views that only set data and
 size

---
 src/String.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/String.c b/src/String.c
index 8e87b2a..5b128db 100644
--- a/src/String.c
+++ b/src/String.c
@@ -352,14 +352,13 @@ ZyanStatus ZyanStringGetChar(const ZyanStringView* string, ZyanUSize index, char
     }
 
     // Don't allow direct access to the terminating '\0' character
-    if (index + 1 >= string->string.vector.size)
+    if ((index >= string->string.vector.size) || (index + 1 >= string->string.vector.size))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
 
-    const char* chr;
-    ZYAN_CHECK(ZyanVectorGetPointer(&string->string.vector, index, (const void**)&chr));
-    *value = *chr;
+    // Views do not initialize the other fields of the vector
+    *value = *((const char*)string->string.vector.data + index);
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From 16d7bd8c7826b6209a4a8cdabb1bb6779ebb93e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 16/39] fix: allocate a byte for the remaining bits of a bitset

---
 src/Bitset.c | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index b1c733d..4883200 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -38,16 +38,6 @@
 /* Internal macros                                                                                */
 /* ============================================================================================== */
 
-/**
- * Computes the smallest integer value not less than `x`.
- *
- * @param   x   The value.
- *
- * @return  The smallest integer value not less than `x`.
- */
-#define ZYAN_BITSET_CEIL(x) \
-    (((x) == ((ZyanU32)(x))) ? (ZyanU32)(x) : ((ZyanU32)(x)) + 1)
-
 /**
  * Converts bits to bytes.
  *
@@ -56,7 +46,7 @@
  * @return  The amount of bytes needed to fit `x` bits.
  */
 #define ZYAN_BITSET_BITS_TO_BYTES(x) \
-    ZYAN_BITSET_CEIL((x) / 8)
+    (((x) / 8) + ((((x) % 8) != 0) ? 1 : 0))
 
 /**
  * Returns the offset of the given bit.
@@ -147,7 +137,7 @@ ZyanStatus ZyanBitsetInitEx(ZyanBitset* bitset, ZyanUSize count, ZyanAllocator*
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    const ZyanU32 bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
+    const ZyanUSize bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
 
     bitset->size = count;
     ZYAN_CHECK(ZyanVectorInitEx(&bitset->bits, sizeof(ZyanU8), bytes, ZYAN_NULL, allocator,
@@ -165,7 +155,7 @@ ZyanStatus ZyanBitsetInitBuffer(ZyanBitset* bitset, ZyanUSize count, void* buffe
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    const ZyanU32 bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
+    const ZyanUSize bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
     if (capacity < bytes)
     {
         return ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;
-- 
2.43.0


From e688ce19c33f381b65752b9b21bf6fad076ebccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 17/39] fix: only evaluate the used bits in the last byte of a
 bitset

---
 src/Bitset.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index 4883200..2f23270 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -58,6 +58,16 @@
 #define ZYAN_BITSET_BIT_OFFSET(index) \
     (7 - ((index) % 8))
 
+/**
+ * Returns the mask of the used bits in the last byte of a bitset.
+ *
+ * @param   size    The size of the bitset in bits.
+ *
+ * @return  The mask of the used bits in the last byte of a bitset.
+ */
+#define ZYAN_BITSET_LAST_BYTE_MASK(size) \
+    ((ZyanU8)(0xFF << ((8 - ((size) % 8)) % 8)))
+
 /* ============================================================================================== */
 /* Internal functions                                                                             */
 /* ============================================================================================== */
@@ -513,6 +523,10 @@ ZyanStatus ZyanBitsetCount(const ZyanBitset* bitset, ZyanUSize* count)
         ZYAN_CHECK(ZyanVectorGetPointer(&bitset->bits, i, (const void**)&value));
 
         ZyanU8 popcnt = *value;
+        if (i == (size - 1))
+        {
+            popcnt &= ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
+        }
         popcnt = (popcnt & 0x55) + ((popcnt >> 1) & 0x55);
         popcnt = (popcnt & 0x33) + ((popcnt >> 2) & 0x33);
         popcnt = (popcnt & 0x0F) + ((popcnt >> 4) & 0x0F);
@@ -546,7 +560,7 @@ ZyanStatus ZyanBitsetAll(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != mask)
             {
                 return ZYAN_STATUS_FALSE;
@@ -578,7 +592,7 @@ ZyanStatus ZyanBitsetAny(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != 0x00)
             {
                 return ZYAN_STATUS_TRUE;
@@ -610,7 +624,7 @@ ZyanStatus ZyanBitsetNone(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != 0x00)
             {
                 return ZYAN_STATUS_FALSE;
-- 
2.43.0


From 268413c9a15ed78fa28f74fd0a2b64829133bd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 18/39] fix: keep the bitset size if ZyanBitsetPush fails

---
 src/Bitset.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index 2f23270..82a442d 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -411,11 +411,12 @@ ZyanStatus ZyanBitsetPush(ZyanBitset* bitset, ZyanBool value)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if ((bitset->size++ % 8) == 0)
+    if ((bitset->size % 8) == 0)
     {
         static const ZyanU8 zero = 0;
         ZYAN_CHECK(ZyanVectorPushBack(&bitset->bits, &zero));
     }
+    ++bitset->size;
 
     return ZyanBitsetAssign(bitset, bitset->size - 1, value);
 }
-- 
2.43.0


From af51ec04657353b788ee6eae8baf1704d11f1db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 19/39] fix: reject ZyanBitsetPop on an empty bitset

---
 src/Bitset.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Bitset.c b/src/Bitset.c
index 82a442d..2ff6ffd 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -428,6 +428,11 @@ ZyanStatus ZyanBitsetPop(ZyanBitset* bitset)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (bitset->size == 0)
+    {
+        return ZYAN_STATUS_OUT_OF_RANGE;
+    }
+
     if ((--bitset->size % 8) == 0)
     {
         return ZyanVectorPopBack(&bitset->bits);
-- 
2.43.0


From 131cbc67eed785662ed97bd45c3881a4b378d513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 20/39] fix: reject NULL bitsets in
 ZyanBitsetReserve/ShrinkToFit

---
 src/Bitset.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Bitset.c b/src/Bitset.c
index 2ff6ffd..48f1d4a 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -458,11 +458,21 @@ ZyanStatus ZyanBitsetClear(ZyanBitset* bitset)
 
 ZyanStatus ZyanBitsetReserve(ZyanBitset* bitset, ZyanUSize count)
 {
+    if (!bitset)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
     return ZyanVectorReserve(&bitset->bits, ZYAN_BITSET_BITS_TO_BYTES(count));
 }
 
 ZyanStatus ZyanBitsetShrinkToFit(ZyanBitset* bitset)
 {
+    if (!bitset)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
     return ZyanVectorShrinkToFit(&bitset->bits);
 }
 
-- 
2.43.0


From 324da4e9099db4689619e622d235c9194fdb6f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 21/39] fix: return the constructor's status from
 ZyanListEmplaceBack/Front

---
 src/List.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/List.c b/src/List.c
index e233da8..062353e 100644
--- a/src/List.c
+++ b/src/List.c
@@ -406,7 +406,12 @@ ZyanStatus ZyanListEmplaceBack(ZyanList* list, void** item, ZyanMemberFunction c
     *item = ZYCORE_LIST_GET_NODE_DATA(node);
     if (constructor)
     {
-        constructor(*item);
+        const ZyanStatus status = constructor(*item);
+        if (!ZYAN_SUCCESS(status))
+        {
+            ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+            return status;
+        }
     }
 
     if (!list->head)
@@ -438,7 +443,12 @@ ZyanStatus ZyanListEmplaceFront(ZyanList* list, void** item, ZyanMemberFunction
     *item = ZYCORE_LIST_GET_NODE_DATA(node);
     if (constructor)
     {
-        constructor(*item);
+        const ZyanStatus status = constructor(*item);
+        if (!ZYAN_SUCCESS(status))
+        {
+            ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+            return status;
+        }
     }
 
     if (!list->head)
-- 
2.43.0


From 8249bd7cd9a107f9e4d6a8b1bed11ac6f8b5e08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 22/39] fix: implement ZyanListRemove/RemoveRange instead of
 reporting success

---
 src/List.c | 51 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/List.c b/src/List.c
index 062353e..b6a4223 100644
--- a/src/List.c
+++ b/src/List.c
@@ -535,17 +535,54 @@ ZyanStatus ZyanListPopFront(ZyanList* list)
 
 ZyanStatus ZyanListRemove(ZyanList* list, const ZyanListNode* node)
 {
-    ZYAN_UNUSED(list);
-    ZYAN_UNUSED(node);
-    return ZYAN_STATUS_SUCCESS;
+    return ZyanListRemoveRange(list, node, node);
 }
 
 ZyanStatus ZyanListRemoveRange(ZyanList* list, const ZyanListNode* first, const ZyanListNode* last)
 {
-    ZYAN_UNUSED(list);
-    ZYAN_UNUSED(first);
-    ZYAN_UNUSED(last);
-    return ZYAN_STATUS_SUCCESS;
+    if (!list || !first || !last)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
+    ZyanListNode* const prev = first->prev;
+    ZyanListNode* const next = last->next;
+    if (prev)
+    {
+        prev->next = next;
+    } else
+    {
+        list->head = next;
+    }
+    if (next)
+    {
+        next->prev = prev;
+    } else
+    {
+        list->tail = prev;
+    }
+
+    ZyanStatus status = ZYAN_STATUS_SUCCESS;
+    ZyanListNode* node = (ZyanListNode*)first;
+    while (node != next)
+    {
+        ZyanListNode* const current = node;
+        node = node->next;
+
+        if (list->destructor)
+        {
+            list->destructor(ZYCORE_LIST_GET_NODE_DATA(current));
+        }
+        --list->size;
+
+        const ZyanStatus result = ZyanListDeallocateNode(list, current);
+        if (!ZYAN_SUCCESS(result))
+        {
+            status = result;
+        }
+    }
+
+    return status;
 }
 
 ZyanStatus ZyanListClear(ZyanList* list)
-- 
2.43.0


From a247756da53f5224c77c933a86fc90c5a27abfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:57 +0000
Subject: [PATCH 23/39] fix: finish removing list nodes if releasing one of
 them fails

---
 src/List.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/List.c b/src/List.c
index b6a4223..c079cfa 100644
--- a/src/List.c
+++ b/src/List.c
@@ -190,6 +190,7 @@ ZyanStatus ZyanListDestroy(ZyanList* list)
 
     const ZyanBool is_dynamic = (list->allocator != ZYAN_NULL);
     ZyanListNode* node = (is_dynamic || list->destructor) ? list->head : ZYAN_NULL;
+    ZyanStatus status = ZYAN_STATUS_SUCCESS;
     while (node)
     {
         if (list->destructor)
@@ -201,14 +202,18 @@ ZyanStatus ZyanListDestroy(ZyanList* list)
 
         if (is_dynamic)
         {
-            ZYAN_CHECK(list->allocator->deallocate(list->allocator, node,
-                sizeof(ZyanListNode) + list->element_size, 1));
+            const ZyanStatus result = list->allocator->deallocate(list->allocator, node,
+                sizeof(ZyanListNode) + list->element_size, 1);
+            if (!ZYAN_SUCCESS(result))
+            {
+                status = result;
+            }
         }
 
         node = next;
     }
 
-    return ZYAN_STATUS_SUCCESS;
+    return status;
 }
 
 /* ---------------------------------------------------------------------------------------------- */
@@ -620,6 +625,7 @@ ZyanStatus ZyanListResizeEx(ZyanList* list, ZyanUSize size, const void* initiali
     {
         const ZyanBool is_dynamic = (list->allocator != ZYAN_NULL);
         ZyanListNode* node = (is_dynamic || list->destructor) ? list->head : ZYAN_NULL;
+        ZyanStatus status = ZYAN_STATUS_SUCCESS;
         while (node)
         {
             if (list->destructor)
@@ -631,8 +637,12 @@ ZyanStatus ZyanListResizeEx(ZyanList* list, ZyanUSize size, const void* initiali
 
             if (is_dynamic)
             {
-                ZYAN_CHECK(list->allocator->deallocate(list->allocator, node,
-                    sizeof(ZyanListNode) + list->element_size, 1));
+                const ZyanStatus result = list->allocator->deallocate(list->allocator, node,
+                    sizeof(ZyanListNode) + list->element_size, 1);
+                if (!ZYAN_SUCCESS(result))
+                {
+                    status = result;
+                }
             }
 
             node = next;
@@ -643,7 +653,7 @@ ZyanStatus ZyanListResizeEx(ZyanList* list, ZyanUSize size, const void* initiali
         list->tail = 0;
         list->first_unused = ZYAN_NULL;
 
-        return ZYAN_STATUS_SUCCESS;
+        return status;
     }
 
     if (size > list->size)
@@ -675,6 +685,7 @@ ZyanStatus ZyanListResizeEx(ZyanList* list, ZyanUSize size, const void* initiali
         }
     } else
     {
+        ZyanStatus status = ZYAN_STATUS_SUCCESS;
         for (ZyanUSize i = size; i < list->size; ++i)
         {
             ZyanListNode* const node = list->tail;
@@ -690,10 +701,16 @@ ZyanStatus ZyanListResizeEx(ZyanList* list, ZyanUSize size, const void* initiali
                 list->tail->next = ZYAN_NULL;
             }
 
-            ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+            const ZyanStatus result = ZyanListDeallocateNode(list, node);
+            if (!ZYAN_SUCCESS(result))
+            {
+                status = result;
+            }
         }
 
         list->size = size;
+
+        return status;
     }
 
     return ZYAN_STATUS_SUCCESS;
-- 
2.43.0


From aee12eb28ab089dca67fda8d71272ef24a3c4b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 24/39] fix: format appended text with the original arguments

---
 src/Format.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index 46d87e1..1c98eb0 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -377,22 +377,21 @@ ZyanStatus ZyanStringAppendFormat(ZyanString* string, const char* format, ...)
     }
 
     ZyanVAList arglist;
-    ZYAN_VA_START(arglist, format);
 
     const ZyanUSize len = string->vector.size;
 
+    ZYAN_VA_START(arglist, format);
     ZyanI32 w = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1,
         string->vector.capacity - len + 1, format, arglist);
+    ZYAN_VA_END(arglist);
     if (w < 0)
     {
-        ZYAN_VA_END(arglist);
+        ZYCORE_STRING_NULLTERMINATE(string);
         return ZYAN_STATUS_FAILED;
     }
-    if (w <= (ZyanI32)(string->vector.capacity - len))
+    if ((ZyanUSize)w <= string->vector.capacity - len)
     {
         string->vector.size = len + w;
-
-        ZYAN_VA_END(arglist);
         return ZYAN_STATUS_SUCCESS;
     }
 
@@ -400,20 +399,23 @@ ZyanStatus ZyanStringAppendFormat(ZyanString* string, const char* format, ...)
     const ZyanStatus status = ZyanStringResize(string, string->vector.size + w - 1);
     if (!ZYAN_SUCCESS(status))
     {
-        ZYAN_VA_END(arglist);
+        ZYCORE_STRING_NULLTERMINATE(string);
         return status;
     }
 
+    // The first pass consumed the argument list
+    ZYAN_VA_START(arglist, format);
     w = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1,
-        string->vector.capacity - string->vector.size + 1, format, arglist);
+        string->vector.capacity - len + 1, format, arglist);
+    ZYAN_VA_END(arglist);
     if (w < 0)
     {
-        ZYAN_VA_END(arglist);
+        string->vector.size = len;
+        ZYCORE_STRING_NULLTERMINATE(string);
         return ZYAN_STATUS_FAILED;
     }
-    ZYAN_ASSERT(w <= (ZyanI32)(string->vector.capacity - string->vector.size));
+    ZYAN_ASSERT((ZyanUSize)w <= string->vector.capacity - len);
 
-    ZYAN_VA_END(arglist);
     return ZYAN_STATUS_SUCCESS;
 }
 
-- 
2.43.0


From 4a6fcd535045affd63072fe1ed2822e4804a05d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 25/39] fix: keep the string if ZyanStringAppendHexU fails

---
 src/Format.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index 1c98eb0..9490e47 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -226,7 +226,13 @@ ZyanStatus ZyanStringAppendHexU32(ZyanString* string, ZyanU32 value, ZyanU8 padd
             }
             if (remaining <= (ZyanU8)i)
             {
-                ZYAN_CHECK(ZyanStringResize(string, string->vector.size + i));
+                const ZyanStatus status = ZyanStringResize(string, len + i);
+                if (!ZYAN_SUCCESS(status))
+                {
+                    string->vector.size = len;
+                    ZYCORE_STRING_NULLTERMINATE(string);
+                    return status;
+                }
             }
             buffer = (char*)string->vector.data + len - 1;
             if (padding_length > i)
@@ -298,7 +304,13 @@ ZyanStatus ZyanStringAppendHexU64(ZyanString* string, ZyanU64 value, ZyanU8 padd
             }
             if (remaining <= (ZyanU8)i)
             {
-                ZYAN_CHECK(ZyanStringResize(string, string->vector.size + i));
+                const ZyanStatus status = ZyanStringResize(string, len + i);
+                if (!ZYAN_SUCCESS(status))
+                {
+                    string->vector.size = len;
+                    ZYCORE_STRING_NULLTERMINATE(string);
+                    return status;
+                }
             }
             buffer = (char*)string->vector.data + len - 1;
             if (padding_length > i)
-- 
2.43.0


From 54888cb88ce5c439ffc8f7d500764a6b37994327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 26/39] fix: keep the string if ZyanStringAppendDecS/HexS fail

---
 src/Format.c | 74 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 50 insertions(+), 24 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index 9490e47..03eef13 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -452,27 +452,40 @@ ZyanStatus ZyanStringAppendDecU(ZyanString* string, ZyanU64 value, ZyanU8 paddin
 ZyanStatus ZyanStringAppendDecS(ZyanString* string, ZyanI64 value, ZyanU8 padding_length,
     ZyanBool force_sign, const ZyanStringView* prefix)
 {
-    if (value < 0)
+    if (!string)
     {
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_SUB));
-        if (prefix)
-        {
-            ZYAN_CHECK(ZyanStringAppend(string, prefix));
-        }
-        return ZyanStringAppendDecU(string, ZyanAbsI64(value), padding_length);
+        return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    const ZyanUSize len = string->vector.size;
+
+    ZyanStatus status = ZYAN_STATUS_SUCCESS;
+    if (value < 0)
+    {
+        status = ZyanStringAppend(string, &STR_SUB);
+    } else
     if (force_sign)
     {
-        ZYAN_ASSERT(value >= 0);
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_ADD));
+        status = ZyanStringAppend(string, &STR_ADD);
     }
 
-    if (prefix)
+    if (prefix && ZYAN_SUCCESS(status))
     {
-        ZYAN_CHECK(ZyanStringAppend(string, prefix));
+        status = ZyanStringAppend(string, prefix);
     }
-    return ZyanStringAppendDecU(string, value, padding_length);
+
+    if (ZYAN_SUCCESS(status))
+    {
+        status = ZyanStringAppendDecU(string, ZyanAbsI64(value), padding_length);
+    }
+
+    if (!ZYAN_SUCCESS(status))
+    {
+        string->vector.size = len;
+        ZYCORE_STRING_NULLTERMINATE(string);
+    }
+
+    return status;
 }
 
 ZyanStatus ZyanStringAppendHexU(ZyanString* string, ZyanU64 value, ZyanU8 padding_length,
@@ -493,27 +506,40 @@ ZyanStatus ZyanStringAppendHexU(ZyanString* string, ZyanU64 value, ZyanU8 paddin
 ZyanStatus ZyanStringAppendHexS(ZyanString* string, ZyanI64 value, ZyanU8 padding_length,
     ZyanBool uppercase, ZyanBool force_sign, const ZyanStringView* prefix)
 {
-    if (value < 0)
+    if (!string)
     {
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_SUB));
-        if (prefix)
-        {
-            ZYAN_CHECK(ZyanStringAppend(string, prefix));
-        }
-        return ZyanStringAppendHexU(string, ZyanAbsI64(value), padding_length, uppercase);
+        return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    const ZyanUSize len = string->vector.size;
+
+    ZyanStatus status = ZYAN_STATUS_SUCCESS;
+    if (value < 0)
+    {
+        status = ZyanStringAppend(string, &STR_SUB);
+    } else
     if (force_sign)
     {
-        ZYAN_ASSERT(value >= 0);
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_ADD));
+        status = ZyanStringAppend(string, &STR_ADD);
     }
 
-    if (prefix)
+    if (prefix && ZYAN_SUCCESS(status))
     {
-        ZYAN_CHECK(ZyanStringAppend(string, prefix));
+        status = ZyanStringAppend(string, prefix);
     }
-    return ZyanStringAppendHexU(string, value, padding_length, uppercase);
+
+    if (ZYAN_SUCCESS(status))
+    {
+        status = ZyanStringAppendHexU(string, ZyanAbsI64(value), padding_length, uppercase);
+    }
+
+    if (!ZYAN_SUCCESS(status))
+    {
+        string->vector.size = len;
+        ZYCORE_STRING_NULLTERMINATE(string);
+    }
+
+    return status;
 }
 
 /* ---------------------------------------------------------------------------------------------- */
-- 
2.43.0


From ca0476c03c6565b287c1697efc2900d759181d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 27/39] fix: do not treat single-dash boolean arguments as
 unnamed

---
 src/ArgParse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ArgParse.c b/src/ArgParse.c
index 109cfc8..16cd944 100644
--- a/src/ArgParse.c
+++ b/src/ArgParse.c
@@ -205,6 +205,9 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
                     goto continue_main_loop;
                 }
             }
+
+            // Continue parsing at next token.
+            continue;
         }
 
         // Still here? We're looking at an unnamed argument.
-- 
2.43.0


From a6ebde7ef9373341e59358efe7b3563b96040c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 28/39] fix: release the parsed arguments if parsing fails

---
 src/ArgParse.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/ArgParse.c b/src/ArgParse.c
index 16cd944..4464ce6 100644
--- a/src/ArgParse.c
+++ b/src/ArgParse.c
@@ -45,6 +45,15 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
     const char** error_token, ZyanAllocator* allocator)
 {
 #   define ZYAN_ERR_TOK(tok) if (error_token) { *error_token = tok; }
+#   define ZYAN_CHECK_ARGS(status) \
+    do \
+    { \
+        err = (status); \
+        if (!ZYAN_SUCCESS(err)) \
+        { \
+            goto failure; \
+        } \
+    } while (0)
 
     ZYAN_ASSERT(cfg);
     ZYAN_ASSERT(parsed);
@@ -105,7 +114,7 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
             {
                 // Allocate parsed argument struct.
                 ZyanArgParseArg* parsed_arg;
-                ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+                ZYAN_CHECK_ARGS(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
                 ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
 
                 // Find corresponding argument definition.
@@ -136,7 +145,7 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
                         goto failure;
                     }
                     parsed_arg->has_value = ZYAN_TRUE;
-                    ZYAN_CHECK(ZyanStringViewInsideBuffer(&parsed_arg->value, cfg->argv[++i]));
+                    ZYAN_CHECK_ARGS(ZyanStringViewInsideBuffer(&parsed_arg->value, cfg->argv[++i]));
                 }
             }
 
@@ -155,7 +164,7 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
             {
                 // Allocate parsed argument struct.
                 ZyanArgParseArg* parsed_arg;
-                ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+                ZYAN_CHECK_ARGS(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
                 ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
 
                 // Find corresponding argument definition.
@@ -185,7 +194,7 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
                     if (read_ptr[1])
                     {
                         parsed_arg->has_value = ZYAN_TRUE;
-                        ZYAN_CHECK(ZyanStringViewInsideBuffer(&parsed_arg->value, read_ptr + 1));
+                        ZYAN_CHECK_ARGS(ZyanStringViewInsideBuffer(&parsed_arg->value, read_ptr + 1));
                     }
                     // If not, consume next token (e.g. `-n 1000`).
                     else
@@ -198,7 +207,7 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
                         }
 
                         parsed_arg->has_value = ZYAN_TRUE;
-                        ZYAN_CHECK(ZyanStringViewInsideBuffer(&parsed_arg->value, cfg->argv[++i]));
+                        ZYAN_CHECK_ARGS(ZyanStringViewInsideBuffer(&parsed_arg->value, cfg->argv[++i]));
                     }
 
                     // Either way, continue with next argument.
@@ -221,10 +230,10 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
 
         // Allocate parsed argument struct.
         ZyanArgParseArg* parsed_arg;
-        ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+        ZYAN_CHECK_ARGS(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
         ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
         parsed_arg->has_value = ZYAN_TRUE;
-        ZYAN_CHECK(ZyanStringViewInsideBuffer(&parsed_arg->value, cur_arg));
+        ZYAN_CHECK_ARGS(ZyanStringViewInsideBuffer(&parsed_arg->value, cur_arg));
 
     continue_main_loop:;
     }
@@ -239,7 +248,7 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
 
     // Check whether all required arguments are present.
     ZyanUSize num_parsed_args;
-    ZYAN_CHECK(ZyanVectorGetSize(parsed, &num_parsed_args));
+    ZYAN_CHECK_ARGS(ZyanVectorGetSize(parsed, &num_parsed_args));
     for (const ZyanArgParseDefinition* def = cfg->args; def && def->name; ++def)
     {
         if (!def->required) continue;
@@ -248,7 +257,7 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
         for (ZyanUSize i = 0; i < num_parsed_args; ++i)
         {
             const ZyanArgParseArg* arg = ZYAN_NULL;
-            ZYAN_CHECK(ZyanVectorGetPointer(parsed, i, (const void**)&arg));
+            ZYAN_CHECK_ARGS(ZyanVectorGetPointer(parsed, i, (const void**)&arg));
 
             // Skip unnamed args.
             if (!arg->def) continue;
@@ -276,6 +285,7 @@ failure:
     ZYAN_CHECK(ZyanVectorDestroy(parsed));
     return err;
 
+#   undef ZYAN_CHECK_ARGS
 #   undef ZYAN_ERR_TOK
 }
 
-- 
2.43.0


From 4bbe29ce9d5157682137297cc60868edf476599b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 29/39] fix: keep aligned values in ZYAN_ALIGN_DOWN

---
 include/Zycore/Defines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Zycore/Defines.h b/include/Zycore/Defines.h
index 226d808..e1bb7f8 100644
--- a/include/Zycore/Defines.h
+++ b/include/Zycore/Defines.h
@@ -480,7 +480,7 @@
  *
  * Note that this macro only works for powers of 2.
  */
-#define ZYAN_ALIGN_DOWN(x, align) (((x) - 1) & ~((align) - 1))
+#define ZYAN_ALIGN_DOWN(x, align) ((x) & ~((align) - 1))
 
 /**
  * Divide the 64bit integer value by the given divisor.
-- 
2.43.0


From 4c27d547082df43fcde65645df8333adf30fbf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:57 +0000
Subject: [PATCH 30/39] fix: stop comparing at the terminating null character
 in the ZYAN_STRNCMP fallback

---
 include/Zycore/LibC.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index 59cebee..8caa8db 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -401,6 +401,10 @@ ZYAN_INLINE int ZYAN_STRNCMP(const char* s1, const char* s2, ZyanUSize n)
         {
             return *(unsigned char*)(s1 - 1) - *(unsigned char*)(s2 - 1);
         }
+        if (!*(s1 - 1))
+        {
+            break;
+        }
     }
     return 0;
 }
-- 
2.43.0


From 7ea7dc69fc9723137fb4eeb0428e50e9c2c1e0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:59 +0000
Subject: [PATCH 31/39] fix: find the empty string in an empty string in the
 ZYAN_STRSTR fallback

---
 include/Zycore/LibC.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index 8caa8db..be24cc8 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -464,6 +464,10 @@ ZYAN_INLINE ZyanUSize ZYAN_STRSPN(const char* s1, const char* s2)
 ZYAN_INLINE char* ZYAN_STRSTR(const char* s1, const char* s2)
 {
     const ZyanUSize n = ZYAN_STRLEN(s2);
+    if (!n)
+    {
+        return (char*)s1;
+    }
     while (*s1)
     {
         if (!ZYAN_MEMCMP(s1++, s2, n))
-- 
2.43.0


From 044b2bd8b31f44a3318d6c98e608f15b1f812c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:10 +0000
Subject: [PATCH 32/39] fix: compare the strings in the ZYAN_STRCOLL fallback

---
 include/Zycore/LibC.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index be24cc8..0cf0c21 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -336,12 +336,8 @@ ZYAN_INLINE int ZYAN_STRCMP(const char* s1, const char* s2)
 
 ZYAN_INLINE int ZYAN_STRCOLL(const char *s1, const char *s2)
 {
-    // TODO: Implement
-
-    ZYAN_UNUSED(s1);
-    ZYAN_UNUSED(s2);
-
-    return 0;
+    // Without locales, the collating order is the order of the characters
+    return ZYAN_STRCMP(s1, s2);
 }
 
 ZYAN_INLINE char* ZYAN_STRCPY(char* dest, const char* src)
-- 
2.43.0


From 25967a875c818699253b4d37fbb8848374440d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:13 +0000
Subject: [PATCH 33/39] fix: let the C library fallbacks compile as C++

---
 include/Zycore/LibC.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index 0cf0c21..04d4bc8 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -249,7 +249,7 @@ ZYAN_INLINE void* ZYAN_MEMCHR(const void* str, int c, ZyanUSize n)
 
 ZYAN_INLINE int ZYAN_MEMCMP(const void* s1, const void* s2, ZyanUSize n)
 {
-    const ZyanU8* p1 = s1, *p2 = s2;
+    const ZyanU8* p1 = (const ZyanU8*)s1, *p2 = (const ZyanU8*)s2;
     while (n--)
     {
         if (*p1 != *p2)
@@ -263,8 +263,8 @@ ZYAN_INLINE int ZYAN_MEMCMP(const void* s1, const void* s2, ZyanUSize n)
 
 ZYAN_INLINE void* ZYAN_MEMCPY(void* dst, const void* src, ZyanUSize n)
 {
-    volatile ZyanU8* dp = dst;
-    const ZyanU8* sp = src;
+    volatile ZyanU8* dp = (volatile ZyanU8*)dst;
+    const ZyanU8* sp = (const ZyanU8*)src;
     while (n--)
     {
         *dp++ = *sp++;
@@ -274,8 +274,8 @@ ZYAN_INLINE void* ZYAN_MEMCPY(void* dst, const void* src, ZyanUSize n)
 
 ZYAN_INLINE void* ZYAN_MEMMOVE(void* dst, const void* src, ZyanUSize n)
 {
-    volatile ZyanU8* pd = dst;
-    const ZyanU8* ps = src;
+    volatile ZyanU8* pd = (volatile ZyanU8*)dst;
+    const ZyanU8* ps = (const ZyanU8*)src;
     if (ps < pd)
     {
         for (pd += n, ps += n; n--;)
@@ -294,7 +294,7 @@ ZYAN_INLINE void* ZYAN_MEMMOVE(void* dst, const void* src, ZyanUSize n)
 
 ZYAN_INLINE void* ZYAN_MEMSET(void* dst, int val, ZyanUSize n)
 {
-    volatile ZyanU8* p = dst;
+    volatile ZyanU8* p = (volatile ZyanU8*)dst;
     while (n--)
     {
         *p++ = (unsigned char)val;
-- 
2.43.0


From 857ce125e7300b2350159ac5b455c4b21fc5302b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:13 +0000
Subject: [PATCH 34/39] fix: declare the memory and process API with C linkage
 for C++

---
 include/Zycore/API/Memory.h  | 8 ++++++++
 include/Zycore/API/Process.h | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/Zycore/API/Memory.h b/include/Zycore/API/Memory.h
index de61ffe..48f7b20 100644
--- a/include/Zycore/API/Memory.h
+++ b/include/Zycore/API/Memory.h
@@ -46,6 +46,10 @@
 #   error "Unsupported platform detected"
 #endif
 
+#ifdef __cplusplus
+extern "C" {
+#endif
+
 /* ============================================================================================== */
 /* Enums and types                                                                                */
 /* ============================================================================================== */
@@ -132,6 +136,10 @@ ZYCORE_EXPORT ZyanStatus ZyanMemoryVirtualFree(void* address, ZyanUSize size);
 
 /* ============================================================================================== */
 
+#ifdef __cplusplus
+}
+#endif
+
 #endif /* ZYAN_NO_LIBC */
 
 #endif /* ZYCORE_API_MEMORY_H */
diff --git a/include/Zycore/API/Process.h b/include/Zycore/API/Process.h
index f8e1e4f..9117e21 100644
--- a/include/Zycore/API/Process.h
+++ b/include/Zycore/API/Process.h
@@ -37,6 +37,10 @@
 
 #ifndef ZYAN_NO_LIBC
 
+#ifdef __cplusplus
+extern "C" {
+#endif
+
 /* ============================================================================================== */
 /* Enums and types                                                                                */
 /* ============================================================================================== */
@@ -65,6 +69,10 @@ ZYCORE_EXPORT ZyanStatus ZyanProcessFlushInstructionCache(void* address, ZyanUSi
 
 /* ============================================================================================== */
 
+#ifdef __cplusplus
+}
+#endif
+
 #endif /* ZYAN_NO_LIBC */
 
 #endif /* ZYCORE_API_PROCESS_H */
-- 
2.43.0


From 4b20a051d37ec1aa2586fbd960b5e9110314a0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:16 +0000
Subject: [PATCH 35/39] fix: make the initialiser macros usable in C++

---
 include/Zycore/List.h   | 12 ++++++------
 include/Zycore/String.h |  4 ++--
 include/Zycore/Vector.h |  6 +++---
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/Zycore/List.h b/include/Zycore/List.h
index 86244b8..c40d0fc 100644
--- a/include/Zycore/List.h
+++ b/include/Zycore/List.h
@@ -137,15 +137,15 @@ typedef struct ZyanList_
  */
 #define ZYAN_LIST_INITIALIZER \
     { \
-        /* allocator        */ ZYAN_NULL, \
+        /* allocator        */ 0, \
         /* size             */ 0, \
         /* element_size     */ 0, \
-        /* head             */ ZYAN_NULL, \
-        /* destructor       */ ZYAN_NULL, \
-        /* tail             */ ZYAN_NULL, \
-        /* buffer           */ ZYAN_NULL, \
+        /* head             */ 0, \
+        /* destructor       */ 0, \
+        /* tail             */ 0, \
+        /* buffer           */ 0, \
         /* capacity         */ 0, \
-        /* first_unused     */ ZYAN_NULL \
+        /* first_unused     */ 0 \
     }
 
 /* ---------------------------------------------------------------------------------------------- */
diff --git a/include/Zycore/String.h b/include/Zycore/String.h
index 7bffaa6..9702b49 100644
--- a/include/Zycore/String.h
+++ b/include/Zycore/String.h
@@ -179,13 +179,13 @@ typedef struct ZyanStringView_
             /* flags  */ 0, \
             /* vector */ \
             { \
-                /* allocator        */ ZYAN_NULL, \
+                /* allocator        */ 0, \
                 /* growth_factor    */ 1, \
                 /* shrink_threshold */ 0, \
                 /* size             */ sizeof(string), \
                 /* capacity         */ sizeof(string), \
                 /* element_size     */ sizeof(char), \
-                /* destructor       */ ZYAN_NULL, \
+                /* destructor       */ 0, \
                 /* data             */ (char*)(string) \
             } \
         } \
diff --git a/include/Zycore/Vector.h b/include/Zycore/Vector.h
index 3bf7cbc..41cd6b7 100644
--- a/include/Zycore/Vector.h
+++ b/include/Zycore/Vector.h
@@ -121,14 +121,14 @@ typedef struct ZyanVector_
  */
 #define ZYAN_VECTOR_INITIALIZER \
     { \
-        /* allocator        */ ZYAN_NULL, \
+        /* allocator        */ 0, \
         /* growth_factor    */ 0, \
         /* shrink_threshold */ 0, \
         /* size             */ 0, \
         /* capacity         */ 0, \
         /* element_size     */ 0, \
-        /* destructor       */ ZYAN_NULL, \
-        /* data             */ ZYAN_NULL \
+        /* destructor       */ 0, \
+        /* data             */ 0 \
     }
 
 /* ---------------------------------------------------------------------------------------------- */
-- 
2.43.0


From 4cf4bbd6c96bfd5a8802579479b7d66c2e4d2c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 36/39] fix: make ZYAN_VECTOR_FOREACH_MUTABLE usable in C++

---
 include/Zycore/Vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Zycore/Vector.h b/include/Zycore/Vector.h
index 41cd6b7..1b4a730 100644
--- a/include/Zycore/Vector.h
+++ b/include/Zycore/Vector.h
@@ -192,7 +192,7 @@ typedef struct ZyanVector_
             ZYAN_MACRO_CONCAT_EXPAND(size_d50d3303, item_name); \
             ++ZYAN_MACRO_CONCAT_EXPAND(i_bfd62679, item_name)) \
         { \
-            type* const item_name = ZyanVectorGetMutable(vector, \
+            type* const item_name = (type*)ZyanVectorGetMutable(vector, \
                 ZYAN_MACRO_CONCAT_EXPAND(i_bfd62679, item_name)); \
             body \
         } \
-- 
2.43.0


From e229b6d2a5b9a5325a83bd59a1ddc57f126db2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:26 +0000
Subject: [PATCH 37/39] fix: the atomic increment and decrement macros can be
 used in expressions

---
 include/Zycore/Atomic.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/Zycore/Atomic.h b/include/Zycore/Atomic.h
index f5dcf27..dbdc63e 100644
--- a/include/Zycore/Atomic.h
+++ b/include/Zycore/Atomic.h
@@ -85,13 +85,13 @@ typedef struct ZyanAtomicPointer_
  * @copydoc ZyanAtomicIncrement
  */
 #define ZYAN_ATOMIC_INCREMENT(destination) \
-    ZyanAtomicIncrement((ZyanAtomicPointer*)&(destination));
+    ZyanAtomicIncrement((ZyanAtomicPointer*)&(destination))
 
 /**
  * @copydoc ZyanAtomicDecrement
  */
 #define ZYAN_ATOMIC_DECREMENT(destination) \
-    ZyanAtomicDecrement((ZyanAtomicPointer*)&(destination));
+    ZyanAtomicDecrement((ZyanAtomicPointer*)&(destination))
 
 /* ---------------------------------------------------------------------------------------------- */
 /* 32-bit                                                                                         */
@@ -107,13 +107,13 @@ typedef struct ZyanAtomicPointer_
  * @copydoc ZyanAtomicIncrement
  */
 #define ZYAN_ATOMIC_INCREMENT32(destination) \
-    ZyanAtomicIncrement32((ZyanAtomic32*)&(destination));
+    ZyanAtomicIncrement32((ZyanAtomic32*)&(destination))
 
 /**
  * @copydoc ZyanAtomicDecrement
  */
 #define ZYAN_ATOMIC_DECREMENT32(destination) \
-    ZyanAtomicDecrement32((ZyanAtomic32*)&(destination));
+    ZyanAtomicDecrement32((ZyanAtomic32*)&(destination))
 
 /* ---------------------------------------------------------------------------------------------- */
 /* 64-bit                                                                                         */
@@ -129,13 +129,13 @@ typedef struct ZyanAtomicPointer_
  * @copydoc ZyanAtomicIncrement
  */
 #define ZYAN_ATOMIC_INCREMENT64(destination) \
-    ZyanAtomicIncrement64((ZyanAtomic64*)&(destination));
+    ZyanAtomicIncrement64((ZyanAtomic64*)&(destination))
 
 /**
  * @copydoc ZyanAtomicDecrement
  */
 #define ZYAN_ATOMIC_DECREMENT64(destination) \
-    ZyanAtomicDecrement64((ZyanAtomic64*)&(destination));
+    ZyanAtomicDecrement64((ZyanAtomic64*)&(destination))
 
 /* ---------------------------------------------------------------------------------------------- */
 
-- 
2.43.0


From 00c4bd0bc9b57307e3d5b86a17264585392e5e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:06 +0000
Subject: [PATCH 38/39] fix: ZYAN_STRING_TO_VIEW yields one operand

---
 include/Zycore/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Zycore/String.h b/include/Zycore/String.h
index 9702b49..7eafa31 100644
--- a/include/Zycore/String.h
+++ b/include/Zycore/String.h
@@ -165,7 +165,7 @@ typedef struct ZyanStringView_
 /**
  * Casts a `ZyanString` pointer to a constant `ZyanStringView` pointer.
  */
-#define ZYAN_STRING_TO_VIEW(string) (const ZyanStringView*)(string)
+#define ZYAN_STRING_TO_VIEW(string) ((const ZyanStringView*)(string))
 
 /**
  * Defines a `ZyanStringView` struct that provides a view into a static C-style string.
-- 
2.43.0


From 3ebbd170f5c3eabf345da8d36ef61d27c4db240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:46 +0000
Subject: [PATCH 39/39] fix: let ZyanVectorFind report that an empty vector
 does not contain the element

---
 src/Vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vector.c b/src/Vector.c
index 2b269f8..a80ee32 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -668,7 +668,7 @@ ZyanStatus ZyanVectorFindEx(const ZyanVector* vector, const void* element, ZyanI
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if ((index >= vector->size) || (count > vector->size - index))
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
-- 
2.43.0

