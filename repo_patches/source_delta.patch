From 51dc1cdac60668da5d737c11150e99775ac1a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:48 +0000
Subject: [PATCH 01/43] fix: answer a LargeInteger when a SmallInteger quotient
 overflows

---
 libgst/prims.def | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 98b34e1..6440b37 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -198,7 +198,9 @@ primitive VMpr_SmallInteger_divide [succeed,fail]
       iarg2 *= result;
       if COMMON (iarg1 == iarg2)
 	{
-	  PUSH_INT (result);
+	  /* The quotient of the most negative SmallInteger and -1 does
+	     not fit a SmallInteger.  */
+	  PUSH_OOP (FROM_C_LONG (result));
 	  PRIM_SUCCEEDED;
 	}
     }
@@ -253,7 +255,7 @@ primitive VMpr_SmallInteger_intDiv [succeed,fail]
       if (iarg1 < 0)		/* differing signs => use black magic */
 	PUSH_INT (-((iarg2 - 1 - iarg1) / iarg2));
       else
-	PUSH_INT (iarg1 / iarg2);
+	PUSH_OOP (FROM_C_LONG (iarg1 / iarg2));
 
       PRIM_SUCCEEDED;
     }
@@ -278,7 +280,7 @@ primitive VMpr_SmallInteger_quo [succeed,fail]
       iarg2 = TO_INT (oop2);
       if COMMON (iarg2 != 0)
 	{
-	  PUSH_INT (iarg1 / iarg2);
+	  PUSH_OOP (FROM_C_LONG (iarg1 / iarg2));
 	  PRIM_SUCCEEDED;
 	}
     }
-- 
2.43.0


From 58ed22e15fe5b29e5676b1bcb433296c19c17996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:54 +0000
Subject: [PATCH 02/43] fix: round up in Integer>>#ceilingLog:

---
 kernel/Integer.st | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernel/Integer.st b/kernel/Integer.st
index 54b9452..e89a332 100644
--- a/kernel/Integer.st
+++ b/kernel/Integer.st
@@ -346,9 +346,9 @@ efficiency.'>
 		^(self floorLog: radix reciprocal) negated].
 	radix isInteger ifFalse: [^(radix coerce: self) ceilingLog: radix].
 	me := self.
-	answer := 1.
-	[me > radix] whileTrue: 
-		[me := me // radix.
+	answer := 0.
+	[me > 1] whileTrue: 
+		[me := (me + radix - 1) // radix.
 		answer := answer + 1].
 	^answer
     ]
-- 
2.43.0


From c1a1f087611fd2a76e5efeae17e52ed124e4ebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:54 +0000
Subject: [PATCH 03/43] fix: compute lowBit of the smallest SmallInteger

---
 kernel/SmallInt.st | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kernel/SmallInt.st b/kernel/SmallInt.st
index 2e1c575..6cd6208 100644
--- a/kernel/SmallInt.st
+++ b/kernel/SmallInt.st
@@ -101,10 +101,10 @@ represent signed 30 bit integers and are as efficient as possible.'>
 	"The result is 1-based, but we start from 2 to compensate with the
 	 subtraction in the final line."
 	bit := 2.
-	(n bitAnd: 1073741823) = 0 
+	(n bitAnd: 4294967295) = 0 
 	    ifTrue: 
-		[bit := bit + 30.
-		n := n bitShift: -30].
+		[bit := bit + 32.
+		n := n bitShift: -32].
 	(n bitAnd: 65535) = 0 
 	    ifTrue: 
 		[bit := bit + 16.
-- 
2.43.0


From eb6c083f79862040604b779fb127c30a73881ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:54 +0000
Subject: [PATCH 04/43] fix: round right shifts of negative LargeIntegers down

---
 libgst/mpz.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/libgst/mpz.c b/libgst/mpz.c
index 769525f..824295a 100644
--- a/libgst/mpz.c
+++ b/libgst/mpz.c
@@ -306,8 +306,21 @@ _gst_mpz_div_2exp (gst_mpz *w, const gst_mpz *u, unsigned cnt)
   mp_size_t wsize;
   mp_size_t abs_usize = ABS (usize);
   mp_size_t limb_cnt;
+  mst_Boolean round_down = false;
 
   limb_cnt = cnt / BITS_PER_MP_LIMB;
+  if (usize < 0)
+    {
+      /* Shifting a negative number right rounds towards minus infinity:
+	 check if any one bits are going to be lost.  */
+      mp_size_t i;
+      for (i = 0; i < limb_cnt && i < abs_usize; i++)
+	round_down |= (u->d[i] != 0);
+      if (i < abs_usize && cnt % BITS_PER_MP_LIMB)
+	round_down |= ((u->d[i] << (BITS_PER_MP_LIMB - cnt % BITS_PER_MP_LIMB))
+		       != 0);
+    }
+
   wsize = abs_usize - limb_cnt;
   if (wsize <= 0)
     wsize = 0;
@@ -325,6 +338,17 @@ _gst_mpz_div_2exp (gst_mpz *w, const gst_mpz *u, unsigned cnt)
       wsize -= w->d[wsize - 1] == 0;
     }
 
+  if (round_down)
+    {
+      if (w->alloc < wsize + 1)
+	gst_mpz_realloc (w, wsize + 1);
+
+      if (wsize == 0)
+	w->d[wsize++] = 1;
+      else if (mpn_add_1 (w->d, w->d, wsize, 1))
+	w->d[wsize++] = 1;
+    }
+
   w->size = (usize >= 0) ? wsize : -wsize;
 }
 
-- 
2.43.0


From cd1b06dc6d719ff4d522e225dca7920dcb522857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:52 +0000
Subject: [PATCH 05/43] fix: intervals with one element and a negative step are
 not empty

---
 kernel/Interval.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Interval.st b/kernel/Interval.st
index 0631bb8..2ba8f23 100644
--- a/kernel/Interval.st
+++ b/kernel/Interval.st
@@ -135,7 +135,7 @@ members that my instance represents.'>
 	"Answer whether the receiver is empty."
 
 	<category: 'basic'>
-	^(step > 0) == (stop < start)
+	^step > 0 ifTrue: [stop < start] ifFalse: [start < stop]
     ]
 
     size [
-- 
2.43.0


From 176eb7862aaaab14e0b65bcb047a8f5a39bede84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:05 +0000
Subject: [PATCH 06/43] fix: hash equal intervals alike

---
 kernel/Interval.st | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kernel/Interval.st b/kernel/Interval.st
index 2ba8f23..4af5a37 100644
--- a/kernel/Interval.st
+++ b/kernel/Interval.st
@@ -191,7 +191,11 @@ members that my instance represents.'>
 	"Answer an hash value for the receiver"
 
 	<category: 'testing'>
-	^(start + stop + stop) * step bitAnd: 1073741823
+	"Use the same values as #=: equal intervals may have a different stop."
+	| last |
+	self isEmpty ifTrue: [^0].
+	last := self last.
+	^(start + last + last) * step bitAnd: 1073741823
     ]
 
     copyFrom: startIndex to: stopIndex [
-- 
2.43.0


From fca22264f03a3a07d9c1834e1b82b0b565bd3067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:05 +0000
Subject: [PATCH 07/43] fix: reverse empty intervals

---
 kernel/Interval.st | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kernel/Interval.st b/kernel/Interval.st
index 4af5a37..763b780 100644
--- a/kernel/Interval.st
+++ b/kernel/Interval.st
@@ -151,6 +151,7 @@ members that my instance represents.'>
 	"Answer a copy of the receiver with all of its items reversed"
 
 	<category: 'basic'>
+	self isEmpty ifTrue: [^self copyFrom: 1 to: 0].
 	^Interval 
 	    from: (self at: self size)
 	    to: (self at: 1)
-- 
2.43.0


From aa61f4e7666ba39c76c3000da471782c1b955353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:05 +0000
Subject: [PATCH 08/43] fix: print the last element of an interval rather than
 its limit

---
 kernel/Interval.st | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/Interval.st b/kernel/Interval.st
index 763b780..40c479c 100644
--- a/kernel/Interval.st
+++ b/kernel/Interval.st
@@ -237,10 +237,10 @@ members that my instance represents.'>
 		    print: start + step].
 	size > 2 
 	    ifTrue: 
-		[(self at: 3) = stop ifFalse: [aStream nextPutAll: ' ...'].
+		[size > 3 ifTrue: [aStream nextPutAll: ' ...'].
 		aStream
 		    space;
-		    print: stop].
+		    print: self last].
 	aStream nextPut: $)
     ]
 
-- 
2.43.0


From cddcd541e53d49819b1e175f6feea028a933cc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:36 +0000
Subject: [PATCH 09/43] fix: store a single semicolon before yourself in
 Bag>>#storeOn:

---
 kernel/Bag.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Bag.st b/kernel/Bag.st
index 66a28f6..ad0b9a5 100644
--- a/kernel/Bag.st
+++ b/kernel/Bag.st
@@ -186,7 +186,7 @@ twice, then I will report that that element has been stored twice.'>
 		    store: count;
 		    nextPut: $;.
 		noElements := false].
-	noElements ifFalse: [aStream nextPutAll: '; yourself'].
+	noElements ifFalse: [aStream nextPutAll: ' yourself'].
 	aStream nextPut: $)
     ]
 
-- 
2.43.0


From a639c4e0c74d52f40a0428b459bda9cedfe0ab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 10/43] fix: keep a SortedCollection sorted when adding after
 removeLast

---
 kernel/SortCollect.st | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kernel/SortCollect.st b/kernel/SortCollect.st
index ef8a8bc..d680d0d 100644
--- a/kernel/SortCollect.st
+++ b/kernel/SortCollect.st
@@ -170,10 +170,16 @@ above criteria -- actually any object which responds to #value:value:.'>
 	 is empty"
 
 	<category: 'basic'>
+	| answer |
 	lastOrdered = lastIndex 
 	    ifFalse: [sorted ifTrue: [self merge] ifFalse: [self makeHeap]].
 	sorted ifFalse: [self percolateDown].
-	^self basicRemoveLast
+	answer := self basicRemoveLast.
+
+	"Ensure the invariant that lastOrdered <= lastIndex, otherwise an
+	 element added later would be considered ordered."
+	lastOrdered > lastIndex ifTrue: [lastOrdered := lastIndex].
+	^answer
     ]
 
     sort [
-- 
2.43.0


From ca300393630c1bd457160000521862795d9b83c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 11/43] fix: signal an error for the last element of an empty
 SortedCollection

---
 kernel/SortCollect.st | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kernel/SortCollect.st b/kernel/SortCollect.st
index d680d0d..edfaa88 100644
--- a/kernel/SortCollect.st
+++ b/kernel/SortCollect.st
@@ -133,6 +133,7 @@ above criteria -- actually any object which responds to #value:value:.'>
 	"Answer the last item of the receiver"
 
 	<category: 'basic'>
+	lastIndex < firstIndex ifTrue: [^super last].
 	lastOrdered = lastIndex 
 	    ifFalse: [sorted ifTrue: [self merge] ifFalse: [self makeHeap]].
 	^sorted 
-- 
2.43.0


From e342156296228b188316b9459e98949c851b3913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 12/43] fix: count occurrences at the ends of a
 SortedCollection

---
 kernel/SortCollect.st | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kernel/SortCollect.st b/kernel/SortCollect.st
index edfaa88..eeed3e7 100644
--- a/kernel/SortCollect.st
+++ b/kernel/SortCollect.st
@@ -300,7 +300,7 @@ above criteria -- actually any object which responds to #value:value:.'>
 	 count repetitions of 'anObject', if there are."
 
 	<category: 'searching'>
-	| upper lower max count |
+	| upper lower |
 	self beConsistent.
 	upper := self 
 		    binarySearch: anObject
@@ -308,10 +308,10 @@ above criteria -- actually any object which responds to #value:value:.'>
 		    high: lastIndex.
 	upper isNil ifTrue: [^0].
 	lower := upper - 1.
-	max := self size.
-	[lower > 1 and: [(self at: lower) = anObject]] 
+	upper := upper + 1.
+	[lower >= firstIndex and: [(self basicAt: lower) = anObject]] 
 	    whileTrue: [lower := lower - 1].
-	[upper < max and: [(self at: upper) = anObject]] 
+	[upper <= lastIndex and: [(self basicAt: upper) = anObject]] 
 	    whileTrue: [upper := upper + 1].
 	^upper - lower - 1
     ]
-- 
2.43.0


From 6ab671aac1b506588b609c57d37e81e2ee581df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:22 +0000
Subject: [PATCH 13/43] fix: search a SortedCollection past unequal elements
 that sort equally

---
 kernel/SortCollect.st | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/kernel/SortCollect.st b/kernel/SortCollect.st
index eeed3e7..56d0ca9 100644
--- a/kernel/SortCollect.st
+++ b/kernel/SortCollect.st
@@ -258,7 +258,7 @@ above criteria -- actually any object which responds to #value:value:.'>
 	 Invoke exceptionBlock and answer its result if no item is found"
 
 	<category: 'searching'>
-	| i j |
+	| i j element |
 	index < 1 | (index > self size) 
 	    ifTrue: 
 		["If index is just past the end of the collection, don't raise
@@ -274,10 +274,16 @@ above criteria -- actually any object which responds to #value:value:.'>
 		    low: index + firstIndex - 1
 		    high: lastIndex.
 	i isNil ifTrue: [^aBlock value].
+
+	"Elements that are not equal to anObject can sort equally to it, and
+	 be in between those that are."
 	j := i - firstIndex + 1.
-	[j ~= index and: [(self basicAt: i - 1) = anObject]] whileTrue: 
+	[i > (index + firstIndex - 1) and: 
+		[element := self basicAt: i - 1.
+		(self compare: anObject with: element) = 0]] 
+	    whileTrue: 
 		[i := i - 1.
-		j := j - 1].
+		anObject = element ifTrue: [j := i - firstIndex + 1]].
 	^j
     ]
 
@@ -300,20 +306,32 @@ above criteria -- actually any object which responds to #value:value:.'>
 	 count repetitions of 'anObject', if there are."
 
 	<category: 'searching'>
-	| upper lower |
+	| upper lower count element |
 	self beConsistent.
 	upper := self 
 		    binarySearch: anObject
 		    low: firstIndex
 		    high: lastIndex.
 	upper isNil ifTrue: [^0].
+
+	"Elements that are not equal to anObject can sort equally to it, and
+	 be in between those that are."
+	count := 1.
 	lower := upper - 1.
+	[lower >= firstIndex and: 
+		[element := self basicAt: lower.
+		(self compare: anObject with: element) = 0]] 
+	    whileTrue: 
+		[anObject = element ifTrue: [count := count + 1].
+		lower := lower - 1].
 	upper := upper + 1.
-	[lower >= firstIndex and: [(self basicAt: lower) = anObject]] 
-	    whileTrue: [lower := lower - 1].
-	[upper <= lastIndex and: [(self basicAt: upper) = anObject]] 
-	    whileTrue: [upper := upper + 1].
-	^upper - lower - 1
+	[upper <= lastIndex and: 
+		[element := self basicAt: upper.
+		(self compare: anObject with: element) = 0]] 
+	    whileTrue: 
+		[anObject = element ifTrue: [count := count + 1].
+		upper := upper + 1].
+	^count
     ]
 
     copyEmpty: newSize [
-- 
2.43.0


From 9222d76eeb322c2e4a31c8b15e701fe34b6dba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:57 +0000
Subject: [PATCH 14/43] fix: check the bounds of indexed accesses to empty
 objects

---
 libgst/dict.inl | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index 528f870..4f8c501 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -992,14 +992,13 @@ index_oop_spec (OOP oop,
       maxByte -= (oop->flags & EMPTY_BYTES);				\
 									\
     base = (instanceSpec >> ISP_NUMFIXEDFIELDS) * sizeof (PTR);		\
-    index = base + index * sizeof(type);				\
 									\
-    /* Check that we're on bounds.  */					\
-    base += sizeof(type);						\
-    if UNCOMMON (index - base > maxByte - base)				\
+    /* Check that we're on bounds.  Divide, so that neither an empty	\
+       object nor a huge index wrap around.  */				\
+    if UNCOMMON (index > (maxByte - base) / sizeof (type))		\
       return (NULL);							\
 									\
-    index -= sizeof(type);						\
+    index = base + (index - 1) * sizeof(type);				\
 									\
     /* Use a cast if unaligned accesses are supported, else memcpy.  */	\
     src = ((char *) object->data) + index;				\
@@ -1085,11 +1084,11 @@ index_oop_spec (OOP oop,
       case GST_ISP_POINTER:
         maxIndex = NUM_WORDS (object);
         base = instanceSpec >> ISP_NUMFIXEDFIELDS;
-        index += base;
-        base++;
-        if UNCOMMON (index - base > maxIndex - base)
+        if UNCOMMON (index > maxIndex - base)
 	  return (NULL);
 
+        index += base;
+
         return (object->data[index - 1]);
     }
 #undef DO_INDEX_OOP
@@ -1127,15 +1126,14 @@ index_oop_put_spec (OOP oop,
         if (sizeof (type) <= sizeof (PTR))				\
           maxByte -= (oop->flags & EMPTY_BYTES);			\
 									\
-          base = (instanceSpec >> ISP_NUMFIXEDFIELDS) * sizeof (PTR);	\
-          index = base + index * sizeof(type);				\
+        base = (instanceSpec >> ISP_NUMFIXEDFIELDS) * sizeof (PTR);	\
 									\
-        /* Check that we're on bounds.  */				\
-        base += sizeof(type);						\
-        if UNCOMMON (index - base > maxByte - base)			\
+        /* Check that we're on bounds.  Divide, so that neither an	\
+           empty object nor a huge index wrap around.  */		\
+        if UNCOMMON (index > (maxByte - base) / sizeof (type))		\
           return (false);						\
 									\
-        index -= sizeof(type);						\
+        index = base + (index - 1) * sizeof(type);			\
 									\
         /* Use a cast if unaligned accesses are ok, else memcpy.  */	\
         if (sizeof (type) <= sizeof (PTR))				\
@@ -1253,11 +1251,11 @@ index_oop_put_spec (OOP oop,
       case GST_ISP_POINTER:
         maxIndex = NUM_WORDS (object);
         base = instanceSpec >> ISP_NUMFIXEDFIELDS;
-        index += base;
-        base++;
-        if UNCOMMON (index - base > maxIndex - base)
+        if UNCOMMON (index > maxIndex - base)
 	  return (false);
 
+        index += base;
+
         object->data[index - 1] = value;
         return (true);
     }
-- 
2.43.0


From ab45f8898e6c9a1550f6e13ee9b2b50b63b4f4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:57 +0000
Subject: [PATCH 15/43] fix: answer negative elements of arrays of signed
 shorts

---
 libgst/dict.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index 4f8c501..fac1ff9 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -1028,7 +1028,7 @@ index_oop_spec (OOP oop,
       }
 
       case GST_ISP_SHORT: {
-        uint16_t i;
+        int16_t i;
         DO_INDEX_OOP (int16_t, i);
         return FROM_INT (i);
       }
-- 
2.43.0


From 716f25fe9b576701d3d13f01e1f97036930a8dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:57 +0000
Subject: [PATCH 16/43] fix: accept the greatest 32-bit C integers

---
 libgst/dict.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index fac1ff9..05aa0b3 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -1295,7 +1295,7 @@ is_c_int_32 (OOP oop)
 #if SIZEOF_OOP == 4
     return (true);
 #else
-    return (TO_INT (oop) >= INT_MIN && TO_INT (oop) < INT_MAX);
+    return (TO_INT (oop) >= INT_MIN && TO_INT (oop) <= INT_MAX);
 #endif
 
   ba = (gst_byte_array) OOP_TO_OBJ (oop);
@@ -1315,7 +1315,7 @@ is_c_uint_32 (OOP oop)
 #if SIZEOF_OOP == 4
     return (TO_INT (oop) >= 0);
 #else
-    return (TO_INT (oop) >= 0 && TO_INT (oop) < UINT_MAX);
+    return (TO_INT (oop) >= 0 && TO_INT (oop) <= UINT_MAX);
 #endif
 
   ba = (gst_byte_array) OOP_TO_OBJ (oop);
-- 
2.43.0


From 45a43da0302dd40f2ef38ccec4ced161f2bc38c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 17/43] fix: CharacterArray>>isNumeric answers false for a
 trailing period

---
 kernel/CharArray.st | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernel/CharArray.st b/kernel/CharArray.st
index 9527dc3..6240fe3 100644
--- a/kernel/CharArray.st
+++ b/kernel/CharArray.st
@@ -653,7 +653,8 @@ accessing and manipulation methods for strings.'>
 	(ch := stream next) isDigit] whileTrue: [].
 	ch = $. ifFalse: [^false].
 	
-	[ch := stream next.
+	[stream atEnd ifTrue: [^false].
+	ch := stream next.
 	ch isDigit ifFalse: [^false].
 	stream atEnd] 
 		whileFalse.
-- 
2.43.0


From 72d619c600ca54b4745d1323eb037bee3b514974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:55 +0000
Subject: [PATCH 18/43] fix: escape tabs in withUnixShellEscapes

---
 kernel/CharArray.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/CharArray.st b/kernel/CharArray.st
index 6240fe3..5667ed1 100644
--- a/kernel/CharArray.st
+++ b/kernel/CharArray.st
@@ -501,7 +501,7 @@ accessing and manipulation methods for strings.'>
         table := ##(
             | t |
             t := ByteArray new: 256.
-            #($  $' $" $` $| $^ $> $[ $= $< $; $( $) $*
+            #($  $	 $' $" $` $| $^ $> $[ $= $< $; $( $) $*
               $& $$ $" $! $# $~ ${ $} $? $\) do: [ :each |
                 t at: each codePoint put: 1 ].
             t).
-- 
2.43.0


From b9db7ede7f19edf4696c1d90a756b74db7ea55b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:44 +0000
Subject: [PATCH 19/43] fix: equal UnicodeCharacters have the same hash

---
 kernel/UniChar.st | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kernel/UniChar.st b/kernel/UniChar.st
index 0b48eed..18156ee 100644
--- a/kernel/UniChar.st
+++ b/kernel/UniChar.st
@@ -62,6 +62,14 @@ or with Character class>>#codePoint:.'>
 		    and: 1114111]
     ]
 
+    hash [
+	"Answer an hash value for the receiver.  Unlike Characters, two
+	 UnicodeCharacters can be equal without being the same object."
+
+	<category: 'built ins'>
+	^codePoint
+    ]
+
     * aNumber [
 	"Returns a String with aNumber occurrences of the receiver."
 
-- 
2.43.0


From 8bffadf70fb77933c22d2505e70993b46c3e9228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:09 +0000
Subject: [PATCH 20/43] fix: at:put: through the bytecode cache respects
 read-only objects

---
 libgst/interp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/interp.c b/libgst/interp.c
index ab67daf..d69cefb 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -2718,7 +2718,7 @@ cached_index_oop_primitive (OOP rec, OOP idx, intptr_t spec)
 static inline mst_Boolean
 cached_index_oop_put_primitive (OOP rec, OOP idx, OOP val, intptr_t spec)
 {
-  if (!IS_INT (idx))
+  if (!IS_INT (idx) || IS_OOP_READONLY (rec))
     return (true);
 
   if UNCOMMON (!index_oop_put_spec (rec, OOP_TO_OBJ (rec), TO_INT (idx),
-- 
2.43.0


From c93155d7e71ac8b61eaec8c2b337b86a98147f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:38 +0000
Subject: [PATCH 21/43] fix: PositionableStream>>upTo: does not look past the
 end of the stream

---
 kernel/PosStream.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/PosStream.st b/kernel/PosStream.st
index 770e8e7..43c78bc 100644
--- a/kernel/PosStream.st
+++ b/kernel/PosStream.st
@@ -350,7 +350,7 @@ or ReadWriteStream instead of me to create and use streams.'>
 	<category: 'accessing-reading'>
 	| result r ws |
 	r := collection indexOf: anObject startingAt: ptr ifAbsent: [0].
-	^r = 0
+	^(r = 0 or: [r > endPtr])
 	    ifTrue: [self upToEnd]
 	    ifFalse: [result := self next: r - ptr. self next. ^result].
     ]
-- 
2.43.0


From 236a996fcc876697bba8a83664caa7020f1f9acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:38 +0000
Subject: [PATCH 22/43] fix: ReadWriteStream class>>on:from:to: respects the
 last index

---
 kernel/RWStream.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/RWStream.st b/kernel/RWStream.st
index f65d473..ec350b5 100644
--- a/kernel/RWStream.st
+++ b/kernel/RWStream.st
@@ -89,7 +89,7 @@ In some sense, I am the best of both ReadStream and WriteStream.'>
 	 so far."
 
 	<category: 'private'>
-	endPtr := collection size
+	endPtr := anInteger
     ]
 ]
 
-- 
2.43.0


From 2a469deb911415e9f4d39b4dafe38a1a50033de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:38 +0000
Subject: [PATCH 23/43] fix: WriteStream>>reverseContents after moving back

---
 kernel/WriteStream.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/WriteStream.st b/kernel/WriteStream.st
index a4a17ba..da74fa6 100644
--- a/kernel/WriteStream.st
+++ b/kernel/WriteStream.st
@@ -128,7 +128,7 @@ my instances; reading is strictly forbidden.'>
 	<category: 'accessing-writing'>
 	| newCollection |
 	newCollection := self species new: ptr - 1.
-	1 to: endPtr do: [:i | newCollection at: i put: (collection at: ptr - i)].
+	1 to: ptr - 1 do: [:i | newCollection at: i put: (collection at: ptr - i)].
 	^newCollection
     ]
 
-- 
2.43.0


From ec44802d90371135724222312bb2c3667bc800d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:45 +0000
Subject: [PATCH 24/43] fix: a failing WriteStream>>nextPut: does not add an
 element

---
 kernel/WriteStream.st | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kernel/WriteStream.st b/kernel/WriteStream.st
index da74fa6..089928c 100644
--- a/kernel/WriteStream.st
+++ b/kernel/WriteStream.st
@@ -85,11 +85,9 @@ my instances; reading is strictly forbidden.'>
 	 ifTrue: [ ^self shouldNotImplement ]."
 
 	<category: 'accessing-writing'>
-	ptr > endPtr 
-	    ifTrue: 
-		[ptr > collection size ifTrue: [self growCollection].
-		endPtr := ptr].
+	ptr > collection size ifTrue: [self growCollection].
 	collection at: ptr put: anObject.
+	ptr > endPtr ifTrue: [endPtr := ptr].
 	ptr := ptr + 1.
 	^anObject
     ]
-- 
2.43.0


From e25f135c8607b96ca994b0fcb53017483c688185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:57 +0000
Subject: [PATCH 25/43] fix: CollectingStream>>peekFor: compares with its
 argument

---
 kernel/StreamOps.st | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/StreamOps.st b/kernel/StreamOps.st
index 348c5bf..3ceffc1 100644
--- a/kernel/StreamOps.st
+++ b/kernel/StreamOps.st
@@ -334,8 +334,8 @@ Stream subclass: CollectingStream [
 	    ifTrue: 
 		[stream pastEnd.
 		^false].
-	result := (block value: stream peek) = anObject result 
-		    ifTrue: [stream next].
+	result := (block value: stream peek) = anObject.
+	result ifTrue: [stream next].
 	^result
     ]
 
-- 
2.43.0


From a8a540493c4ca4dcce5a2f4b1575f3a843a6ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:57 +0000
Subject: [PATCH 26/43] fix: OneOfEachStream>>peekFor: advances the streams

---
 kernel/StreamOps.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/StreamOps.st b/kernel/StreamOps.st
index 3ceffc1..a644dc7 100644
--- a/kernel/StreamOps.st
+++ b/kernel/StreamOps.st
@@ -584,7 +584,7 @@ Stream subclass: OneOfEachStream [
     peekFor: anObject [
 	<category: 'all'>
 	^self peek = anObject
-	    ifTrue: [ streams do: [ :each | streams next ] ];
+	    ifTrue: [ streams do: [ :each | each next ] ];
 	    yourself
     ]
 
-- 
2.43.0


From 2cf0ff2185c5b3013188df9addec624be9f8f739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:57 +0000
Subject: [PATCH 27/43] fix: FilteringStream>>peekFor: uses equality

---
 kernel/StreamOps.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/StreamOps.st b/kernel/StreamOps.st
index a644dc7..a4112e8 100644
--- a/kernel/StreamOps.st
+++ b/kernel/StreamOps.st
@@ -257,7 +257,7 @@ Stream subclass: FilteringStream [
 	    ifTrue: 
 		[self pastEnd.
 		^false].
-	next == aCharacter 
+	next = aCharacter 
 	    ifTrue: 
 		[self lookahead.
 		^true].
-- 
2.43.0


From ec5f13a5540ec685d4794e254d04a1e41413d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:20 +0000
Subject: [PATCH 28/43] fix: Stream>>upToAll: and skipToAll: find every
 occurrence

---
 kernel/Stream.st | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/kernel/Stream.st b/kernel/Stream.st
index 74e7a93..91bf38c 100644
--- a/kernel/Stream.st
+++ b/kernel/Stream.st
@@ -598,17 +598,15 @@ provide for writing collections sequentially.'>
 	prefix := aCollection size < 256 
 		    ifTrue: [ByteArray new: aCollection size]
 		    ifFalse: [Array new: aCollection size].
-	prefix
-	    at: 1 put: 0;
-	    at: 2 put: 1.
+	prefix at: 1 put: 0.
 	aCollection 
-	    from: 2
+	    from: 1
 	    to: aCollection size - 1
 	    keysAndValuesDo: 
 		[:i :ch | 
 		j := prefix at: i.
-		[j <= 1 or: [ch = (aCollection at: j)]] whileFalse: [j := prefix at: j].
-		prefix at: i + 1 put: j].
+		[j = 0 or: [ch = (aCollection at: j)]] whileFalse: [j := prefix at: j].
+		prefix at: i + 1 put: j + 1].
 	^prefix
     ]
 
-- 
2.43.0


From 7194438d13d5ee14081db1b520d1b7c051b6a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:34 +0000
Subject: [PATCH 29/43] fix: upToEnd on a ConcatenatedStream that is at its end

---
 kernel/StreamOps.st | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kernel/StreamOps.st b/kernel/StreamOps.st
index a4112e8..d7095a5 100644
--- a/kernel/StreamOps.st
+++ b/kernel/StreamOps.st
@@ -139,6 +139,11 @@ Stream subclass: ConcatenatedStream [
 	^s peek
     ]
 
+    upToEnd [
+	<category: 'all'>
+	^self atEnd ifTrue: [streams last upToEnd] ifFalse: [super upToEnd]
+    ]
+
     position [
 	<category: 'all'>
 	self stream.
-- 
2.43.0


From 3184c68c77810f34bfc5d3030323d8bba414a901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:10 +0000
Subject: [PATCH 30/43] fix: adding a Duration to a Date keeps hours and
 minutes

---
 kernel/Date.st | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kernel/Date.st b/kernel/Date.st
index 29bcd02..f473c1d 100644
--- a/kernel/Date.st
+++ b/kernel/Date.st
@@ -402,11 +402,13 @@ method.'>
     + aDuration [
         "Answer a new Date or DateTime pointing aDuration time past the
          receiver."
-        aDuration seconds = 0
+	| secs |
+	secs := aDuration asSeconds rem: 86400.
+        secs = 0
             ifTrue: [ ^Date fromDays: self days + aDuration days ].
 	^DateTime 
 	    fromDays: self days + aDuration days
-	    seconds: aDuration seconds
+	    seconds: secs
 	    offset: Duration zero
     ]
 
-- 
2.43.0


From 48aca93d872980ee3014c51f8c6700cec9c78b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:10 +0000
Subject: [PATCH 31/43] fix: equal DateTimes with different offsets have the
 same hash

---
 kernel/AnsiDates.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/AnsiDates.st b/kernel/AnsiDates.st
index 9c72cdb..3ffa7e0 100644
--- a/kernel/AnsiDates.st
+++ b/kernel/AnsiDates.st
@@ -230,7 +230,7 @@ Date subclass: DateTime [
 	"Answer an hash value for the receievr"
 
 	<category: 'testing'>
-	^super hash * 37 + (self seconds - self offset seconds)
+	^(self asSeconds - self offset asSeconds) hash
     ]
 
     + aDuration [
-- 
2.43.0


From 4ef4c688be602efa22e463ea4b407e1af40c2114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:10 +0000
Subject: [PATCH 32/43] fix: DateTime printing of the years 0 and 1000

---
 kernel/AnsiDates.st | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kernel/AnsiDates.st b/kernel/AnsiDates.st
index 3ffa7e0..8a453e9 100644
--- a/kernel/AnsiDates.st
+++ b/kernel/AnsiDates.st
@@ -446,8 +446,7 @@ Date subclass: DateTime [
 	<category: 'printing'>
 	aStream
 	    nextPut: (self year < 0 ifTrue: [$-] ifFalse: [Character space]);
-	    next: 3 - (self year abs log: 10) floor put: $0;
-	    print: self year abs;
+	    nextPutAll: (self year abs printPaddedWith: $0 to: 4);
 	    nextPut: $-;
 	    next: (self month < 10 ifTrue: [1] ifFalse: [0]) put: $0;
 	    print: self month;
-- 
2.43.0


From cd8e41cb2ef5fb628359f5438886ba0c25882d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:10 +0000
Subject: [PATCH 33/43] fix: DateTime>>timeZoneAbbreviation fails, and is wrong
 for negative offsets

---
 kernel/AnsiDates.st | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kernel/AnsiDates.st b/kernel/AnsiDates.st
index 8a453e9..89d550c 100644
--- a/kernel/AnsiDates.st
+++ b/kernel/AnsiDates.st
@@ -425,10 +425,10 @@ Date subclass: DateTime [
 	<category: 'time zones'>
 	^String 
 	    with: (self offset positive ifTrue: [$+] ifFalse: [$-])
-	    with: (self offset hour // 10) digitValue
-	    with: (self offset hour \\ 10) digitValue
-	    with: (self offset minute // 10) digitValue
-	    with: (self offset minute \\ 10) digitValue
+	    with: (Character digitValue: self offset hours abs // 10)
+	    with: (Character digitValue: self offset hours abs \\ 10)
+	    with: (Character digitValue: self offset minutes abs // 10)
+	    with: (Character digitValue: self offset minutes abs \\ 10)
     ]
 
     timeZoneName [
-- 
2.43.0


From 967561cd45a6da41f9c759a370aa7b0fb8b04dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:24 +0000
Subject: [PATCH 34/43] fix: Rectangle>>normalize makes origin the upper left
 corner

---
 kernel/Rectangle.st | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/Rectangle.st b/kernel/Rectangle.st
index 6d316f0..0b968ef 100644
--- a/kernel/Rectangle.st
+++ b/kernel/Rectangle.st
@@ -544,12 +544,12 @@ Object subclass: Rectangle [
 	"Normalize the receiver (make origin < corner)"
 
 	| temp |
-	self right > self left 
+	self right < self left 
 	    ifTrue: 
 		[temp := self left.
 		origin x: corner x.
 		corner x: temp].
-	self bottom > self top 
+	self bottom < self top 
 	    ifTrue: 
 		[temp := self top.
 		origin y: corner y.
-- 
2.43.0


From cbff06dc20f0828c58ba897a6a69f0848424e3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:24 +0000
Subject: [PATCH 35/43] fix: Rectangle>>areasOutside: of rectangles that do not
 overlap

---
 kernel/Rectangle.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Rectangle.st b/kernel/Rectangle.st
index 0b968ef..501c8eb 100644
--- a/kernel/Rectangle.st
+++ b/kernel/Rectangle.st
@@ -413,7 +413,7 @@ Object subclass: Rectangle [
 	<category: 'rectangle functions'>
 	| ansSet l t r b xsect |
 	xsect := self intersect: aRectangle.
-	xsect area = 0 ifTrue: [^{self copy}].
+	xsect isNil ifTrue: [^{self copy}].
 	ansSet := Set new: 8.
 	l := self left min: self right.
 	r := self left max: self right.
-- 
2.43.0


From 90da58482b0df11f02dc0f6e4ddf032da4bcfa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:21 +0000
Subject: [PATCH 36/43] fix: exact floored division of LargeIntegers of
 opposite sign answers one too little

---
 libgst/mpz.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libgst/mpz.c b/libgst/mpz.c
index 824295a..156e3b8 100644
--- a/libgst/mpz.c
+++ b/libgst/mpz.c
@@ -416,6 +416,8 @@ _gst_mpz_tdiv_qr (gst_mpz *quot, gst_mpz *rem, const gst_mpz *num, const gst_mpz
   mpn_tdiv_qr (qp, rp, 0L, np, nsize, dp, dsize);
 
   qsize -=  qp[qsize - 1] == 0;
+  while (dsize > 0 && rp[dsize - 1] == 0)
+    dsize--;
 
   quot->size = sign_quotient >= 0 ? qsize : -qsize;
   rem->size = sign_remainder >= 0 ? dsize : -dsize;
-- 
2.43.0


From 5981d658a3c95ccff5f51fda5298241b24e8d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:34 +0000
Subject: [PATCH 37/43] fix: symbols that differ only after a null byte are not
 the same symbol

---
 libgst/sym.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/sym.c b/libgst/sym.c
index 57f62e7..0dd832e 100644
--- a/libgst/sym.c
+++ b/libgst/sym.c
@@ -1450,7 +1450,7 @@ is_same_string (const char *str,
 		int len)
 {
   if (_gst_string_oop_len (oop) == len)
-    return (strncmp
+    return (memcmp
 	    (str, ((gst_symbol) OOP_TO_OBJ (oop))->symString,
 	     len) == 0);
 
-- 
2.43.0


From 629acb907e81c68378902905f250d8c5dcf28d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:33 +0000
Subject: [PATCH 38/43] fix: growing an identity dictionary counts a key that
 is not there

---
 libgst/dict.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/dict.c b/libgst/dict.c
index 8b37f0f..7d77aa4 100644
--- a/libgst/dict.c
+++ b/libgst/dict.c
@@ -1628,7 +1628,7 @@ grow_identity_dictionary (OOP oldIdentityDictionaryOOP)
   oldIdentityDictionary = OOP_TO_OBJ (oldIdentityDictionaryOOP);
   oldIdentDict = (gst_identity_dictionary) oldIdentityDictionary;
   identDict = (gst_identity_dictionary) identityDictionary;
-  identDict->tally = INCR_INT (oldIdentDict->tally);
+  identDict->tally = oldIdentDict->tally;
 
   /* rehash all associations from old dictionary into new one */
   for (i = 0; i < oldNumFields; i++)
-- 
2.43.0


From 6748bc63d9ea9933c416f866a31e72f9418a0da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:35 +0000
Subject: [PATCH 39/43] fix: indexOf: on strings and byte arrays finds objects
 that are not there

---
 libgst/prims.def | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 6440b37..c322160 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -3309,7 +3309,7 @@ primitive VMpr_ArrayedCollection_equal [succeed,fail]
 primitive VMpr_ArrayedCollection_indexOfStartingAt [succeed,fail]
 {
   OOP srcIndexOOP, srcOOP, targetOOP;
-  int srcIndex, srcLen, target;
+  intptr_t srcIndex, srcLen, target;
   gst_uchar *srcBase, *srcTarget;
   _gst_primitives_executed++;
 
@@ -3328,11 +3328,20 @@ primitive VMpr_ArrayedCollection_indexOfStartingAt [succeed,fail]
       if (_gst_log2_sizes[srcSpec & ISP_SHAPE] != 0)
 	goto bad;
 
+      /* Only look for objects that can be in the collection.  */
+      if (((srcSpec & ISP_INDEXEDVARS) == GST_ISP_CHARACTER) == IS_INT (targetOOP))
+	goto bad;
+
       target = IS_INT (targetOOP) ? TO_INT (targetOOP) : CHAR_OOP_VALUE (targetOOP);
+      if ((srcSpec & ISP_INDEXEDVARS) == GST_ISP_SCHAR
+	  ? target < -128 || target > 127
+	  : target < 0 || target > 255)
+	goto bad;
+
       srcIndex = TO_INT (srcIndexOOP);
-      srcLen = NUM_INDEXABLE_FIELDS (srcOOP) - srcIndex + 1;
+      srcLen = (intptr_t) NUM_INDEXABLE_FIELDS (srcOOP) - srcIndex + 1;
 
-      if UNCOMMON (srcLen < 0)
+      if UNCOMMON (srcIndex <= 0 || srcLen < 0)
 	goto bad;
 
       srcBase = (gst_uchar *) OOP_TO_OBJ (srcOOP)->data;
-- 
2.43.0


From 25a146fcfaf844b9a61a043b15df2537e96380e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:31 +0000
Subject: [PATCH 40/43] fix: replaceFrom:to:with:startingAt: ignores read-only
 receivers and the high bits of indices

---
 libgst/prims.def | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index c322160..955f315 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -3365,7 +3365,7 @@ primitive VMpr_ArrayedCollection_indexOfStartingAt [succeed,fail]
 primitive VMpr_ArrayedCollection_replaceFromToWithStartingAt [succeed,fail]
 {
   OOP srcIndexOOP, srcOOP, dstEndIndexOOP, dstStartIndexOOP, dstOOP;
-  int dstEndIndex, dstStartIndex, srcIndex, dstLen, srcLen, dstRangeLen;
+  intptr_t dstEndIndex, dstStartIndex, srcIndex, dstLen, srcLen, dstRangeLen;
   gst_uchar *dstBase, *srcBase;
   _gst_primitives_executed++;
 
@@ -3375,7 +3375,8 @@ primitive VMpr_ArrayedCollection_replaceFromToWithStartingAt [succeed,fail]
   dstStartIndexOOP = POP_OOP ();
   dstOOP = STACKTOP ();
   if COMMON (IS_INT (srcIndexOOP) && IS_INT (dstStartIndexOOP)
-             && IS_INT (dstEndIndexOOP) && !IS_INT (srcOOP))
+             && IS_INT (dstEndIndexOOP) && !IS_INT (srcOOP)
+             && !IS_OOP_READONLY (dstOOP))
     {
       uintptr_t srcSpec = OOP_INSTANCE_SPEC (srcOOP);
       uintptr_t dstSpec = OOP_INSTANCE_SPEC (dstOOP);
-- 
2.43.0


From 30af67a1c38a188809b1b978a8e6c6156ce2dae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:23 +0000
Subject: [PATCH 41/43] fix: waitAfterSignalling: makes the process that waits
 for the signal wait

---
 libgst/prims.def | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 955f315..18b7308 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2910,13 +2910,17 @@ primitive VMpr_Semaphore_wait [succeed,check_interrupt]
 /* Semaphore waitAfterSignalling: aSemaphore */
 primitive VMpr_Semaphore_waitAfterSignalling [succeed,check_interrupt]
 {
-  OOP oop1, oop2;
+  OOP oop1, oop2, processOOP;
   _gst_primitives_executed++;
 
   oop2 = POP_OOP ();
   oop1 = STACKTOP ();
+
+  /* The signal may already pick another process as the active one, but
+     it is the current one that has to wait.  */
+  processOOP = get_active_process ();
   _gst_sync_signal (oop2, true);
-  _gst_sync_wait (oop1);
+  sync_wait_process (oop1, processOOP);
   PRIM_SUCCEEDED;
 }
 
-- 
2.43.0


From 21b17fb758b8a18b57b489a6ab97111eebc018d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:23 +0000
Subject: [PATCH 42/43] fix: a request queued by an interrupt handler is lost
 when another handler interrupts it

---
 libgst/interp.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libgst/interp.c b/libgst/interp.c
index d69cefb..8adf122 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -1576,10 +1576,13 @@ _gst_async_call_internal (async_queue_entry *e)
   /* For async-signal safety, we need to check that the entry is not
      already in the list.  Checking that atomically with CAS is the
      simplest way.  */
-  do
-    if (__sync_val_compare_and_swap(&e->next, NULL, queued_async_signals_sig))
-      return;
-  while (!__sync_bool_compare_and_swap (&queued_async_signals_sig, e->next, e));
+  if (__sync_val_compare_and_swap(&e->next, NULL, queued_async_signals_sig))
+    return;
+
+  /* From here on the entry is ours.  If another entry is added in the
+     meanwhile, just try again to put this one in front of it.  */
+  while (!__sync_bool_compare_and_swap (&queued_async_signals_sig, e->next, e))
+    e->next = queued_async_signals_sig;
   SET_EXCEPT_FLAG (true);
 }
 
-- 
2.43.0


From 5cbfeda7b0c528d889bfd008bfa6c2ccae8e1d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:23 +0000
Subject: [PATCH 43/43] fix: become: makes weak objects strong

---
 libgst/oop.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libgst/oop.c b/libgst/oop.c
index 71e837a..21df181 100644
--- a/libgst/oop.c
+++ b/libgst/oop.c
@@ -664,15 +664,19 @@ _gst_swap_objects (OOP oop1,
 {
   struct oop_s tempOOP;
   inc_ptr incPtr;
+  mst_Boolean weak1, weak2;
 
   incPtr = INC_SAVE_POINTER ();
   INC_ADD_OOP (oop1);
   INC_ADD_OOP (oop2);
 
-  if (oop2->flags & F_WEAK)
+  /* Forget about weak objects for now; weakness follows the object.  */
+  weak1 = (oop1->flags & F_WEAK) != 0;
+  weak2 = (oop2->flags & F_WEAK) != 0;
+  if (weak2)
     _gst_make_oop_non_weak (oop2);
 
-  if (oop1->flags & F_WEAK)
+  if (weak1)
     _gst_make_oop_non_weak (oop1);
 
   /* Put the two objects in the same generation.  FIXME: this can be
@@ -705,10 +709,10 @@ _gst_swap_objects (OOP oop1,
       oop2->flags ^= F_REACHABLE;
     }
 
-  if (oop2->flags & F_WEAK)
+  if (weak1)
     _gst_make_oop_weak (oop2);
 
-  if (oop1->flags & F_WEAK)
+  if (weak2)
     _gst_make_oop_weak (oop1);
 
   INC_RESTORE_POINTER (incPtr);
-- 
2.43.0

