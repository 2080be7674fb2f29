From 473f86a5d1a91c47c143b136d278d5447c4321de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:24 +0000
Subject: [PATCH 01/31] fix: UnicodeSet range operations ignored one-code-point
 ranges

removeRange, retainRange and complementRange (and so remove, retain and
complement of a single code point) did nothing when start == end. ICU
compares with <=.
---
 UnicodeData/UnicodeSet.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index e81737e..a981830 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -472,7 +472,7 @@ class UnicodeSet(object):
         :param end: the last code point in the range to remove.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if _pinCodePoint(start) <= _pinCodePoint(end):
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 2) # polarity == 2 means set minus
 
@@ -504,7 +504,7 @@ class UnicodeSet(object):
         :param end: the last code point in the range to intersect.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if _pinCodePoint(start) <= _pinCodePoint(end):
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 0) # polarity == 0: intersect
 
@@ -539,7 +539,7 @@ class UnicodeSet(object):
         :param end: the last code point in the range.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if _pinCodePoint(start) <= _pinCodePoint(end):
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._exclusiveOrList(other)
 
-- 
2.43.0


From 8d1fc1c28272a9f19fd6d9472323fc1bc939541c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 02/31] fix: UnicodeSet union left adjacent ranges unmerged

_addList compared with < where ICU compares with <=, so the union of
[0-1] and [0 2] kept 0-1 and 2 as two ranges and compared unequal to
the same set built another way.
---
 UnicodeData/UnicodeSet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index a981830..624db11 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -252,7 +252,7 @@ class UnicodeSet(object):
                     i += 1
                     polarity ^= 1
                 elif b < a: # take b
-                    if len(buffer) > 0 and b < buffer[-1]:
+                    if len(buffer) > 0 and b <= buffer[-1]:
                         b = max(other[j], buffer.pop())
                     else:
                         buffer.append(b)
@@ -263,7 +263,7 @@ class UnicodeSet(object):
                 else: # a == b: take a, drop b
                     if a == UNICODE_SET_HIGH:
                         break
-                    if len(buffer) > 0 and a < buffer[-1]:
+                    if len(buffer) > 0 and a <= buffer[-1]:
                         a = max(self.list[i], buffer.pop())
                     else:
                         buffer.append(a)
-- 
2.43.0


From deb5d5a375c77fc37d6346f197a842bb3ad27b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 03/31] fix: UnicodeSet range operations used unpinned
 arguments

Arguments outside the code point range were pinned for the comparison only,
so the list was built from the raw values; addRange could also return None.
---
 UnicodeData/UnicodeSet.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 624db11..6cd21ec 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -397,7 +397,8 @@ class UnicodeSet(object):
         :param cp: the code point to add.
         :return: self, to support chaining.
         """
-        i = self._findCodePoint(_pinCodePoint(cp))
+        cp = _pinCodePoint(cp)
+        i = self._findCodePoint(cp)
 
         if (i & 1) != 0:
             return self
@@ -426,7 +427,13 @@ class UnicodeSet(object):
         :param end: the last code point in the range to add.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        if start > end:
+            return self
+
+        start = _pinCodePoint(start)
+        end = _pinCodePoint(end)
+
+        if start < end:
             length = len(self.list)
             limit = end + 1
 
@@ -444,14 +451,13 @@ class UnicodeSet(object):
                             self.list.extend([limit, UNICODE_SET_HIGH])
                         else:
                             self.list.append(UNICODE_SET_HIGH)
-                    return
+                    return self
 
             # This is slow. Could be much faster using findCodePoint(start)
             # and modifying the list, dealing with adjacent & overlapping ranges.
             self._addList([start, limit, UNICODE_SET_HIGH])
         else:
-            if start == end:
-                self.add(start)
+            self.add(start)
 
         return self
 
@@ -472,8 +478,8 @@ class UnicodeSet(object):
         :param end: the last code point in the range to remove.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) <= _pinCodePoint(end):
-            other = [start, end + 1, UNICODE_SET_HIGH]
+        if start <= end:
+            other = [_pinCodePoint(start), _pinCodePoint(end) + 1, UNICODE_SET_HIGH]
             self._retainList(other, 2) # polarity == 2 means set minus
 
         return self
@@ -504,8 +510,8 @@ class UnicodeSet(object):
         :param end: the last code point in the range to intersect.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) <= _pinCodePoint(end):
-            other = [start, end + 1, UNICODE_SET_HIGH]
+        if start <= end:
+            other = [_pinCodePoint(start), _pinCodePoint(end) + 1, UNICODE_SET_HIGH]
             self._retainList(other, 0) # polarity == 0: intersect
 
         return self
@@ -539,8 +545,8 @@ class UnicodeSet(object):
         :param end: the last code point in the range.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) <= _pinCodePoint(end):
-            other = [start, end + 1, UNICODE_SET_HIGH]
+        if start <= end:
+            other = [_pinCodePoint(start), _pinCodePoint(end) + 1, UNICODE_SET_HIGH]
             self._exclusiveOrList(other)
 
         return self
-- 
2.43.0


From 100cbd9e47d5d4b4e930e75bd8ed5bb4d043c56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 04/31] fix: UnicodeSet.retainRange kept everything for an
 empty range

---
 UnicodeData/UnicodeSet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 6cd21ec..c132bc2 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -513,6 +513,8 @@ class UnicodeSet(object):
         if start <= end:
             other = [_pinCodePoint(start), _pinCodePoint(end) + 1, UNICODE_SET_HIGH]
             self._retainList(other, 0) # polarity == 0: intersect
+        else:
+            self.clear()
 
         return self
 
-- 
2.43.0


From d5cb5884f19965e63c87cdd22d12272bbba0d9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 05/31] fix: UnicodeSet constructor built malformed lists for
 empty ranges and U+10FFFF

---
 UnicodeData/UnicodeSet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index c132bc2..83c3a12 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -709,9 +709,11 @@ class UnicodeSet(object):
         elif type(arg) is UnicodeSet:
             self.list = arg.list.copy()
         elif type(arg) is int:
-            self.list = [arg, arg + 1, UNICODE_SET_HIGH]
+            self.list = [UNICODE_SET_HIGH]
+            self.add(arg)
         elif type(arg) is range:
-            self.list = [arg.start, arg.stop, UNICODE_SET_HIGH]
+            self.list = [UNICODE_SET_HIGH]
+            self.addRange(arg.start, arg.stop - 1)
         else:
             raise(TypeError("Argument type must be UnicodeSet, int or range."))
 
-- 
2.43.0


From 4c0139861cc62c29f3d2f1588d04cc64ca95075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 06/31] fix: UnicodeSet.contains said values above U+10FFFF
 were members

---
 UnicodeData/UnicodeSet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 83c3a12..ca6af4c 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -603,6 +603,9 @@ class UnicodeSet(object):
         :return: True if the set contans the code point(s), False otherwise.
         """
         if type(arg) is int:
+            if arg >= UNICODE_SET_HIGH:
+                return False
+
             i = self._findCodePoint(arg)
             return (i & 1) != 0
         elif type(arg) is range:
-- 
2.43.0


From 66de7808c7cbb16cd64f4c189a785eafb4a78e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 07/31] fix: comparing a UnicodeSet with another type raised
 AttributeError

---
 UnicodeData/UnicodeSet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index ca6af4c..44a47da 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -658,8 +658,10 @@ class UnicodeSet(object):
         return result.complementAll(other)
 
     def __eq__(self, other: object):
-        otherSet = typing.cast(UnicodeSet, other)
-        return self.list == otherSet.list
+        if not isinstance(other, UnicodeSet):
+            return NotImplemented
+
+        return self.list == other.list
 
     def __ne__(self, other: object):
         return not self == other
-- 
2.43.0


From 3c326e6ea3ba4de4269a7c7dbfdba8c0e270af75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:46 +0000
Subject: [PATCH 08/31] fix: UTrie2.get returned the error value for U+10FFFF

---
 UnicodeData/Utrie2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/Utrie2.py b/UnicodeData/Utrie2.py
index 54846cc..fbd3a86 100644
--- a/UnicodeData/Utrie2.py
+++ b/UnicodeData/Utrie2.py
@@ -86,7 +86,7 @@ class UTrie2(object):
             offset = 0 if c >= 0xDC00 else self.LSCP_INDEX_2_OFFSET - (0xD800 >> self.SHIFT_2)
             return self.indexRaw(offset, c)
 
-        if c >= 0x10FFFF:
+        if c > 0x10FFFF:
             return asciiOffset + self.BAD_UTF8_DATA_OFFSET
 
         return self.highValueIndex if c >= self.highStart else self.indexFromSupp(c)
-- 
2.43.0


From 44f780d47daa06028f3688bc3d8a4051beb9d46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 09/31] fix: UTrie2.enumerator misread blocks for unaligned
 starts, surrogates and supplementary index-2 blocks

It read one index-2 entry too many (IndexError or wrong values), read lead
surrogates from the first entry of their block only, and stepped past data when
the start was not at a block boundary.
---
 UnicodeData/Utrie2.py | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/UnicodeData/Utrie2.py b/UnicodeData/Utrie2.py
index fbd3a86..b2ca8ed 100644
--- a/UnicodeData/Utrie2.py
+++ b/UnicodeData/Utrie2.py
@@ -109,16 +109,14 @@ class UTrie2(object):
         # enumerate index-2 blocks
         c = start
         while c < limit and c < self.highStart:
-            tempLimit = min(c + self.CP_PER_INDEX_1_ENTRY, limit)
+            # c may not be at the start of its index-1 entry
+            nextI2Block = (c | (self.CP_PER_INDEX_1_ENTRY - 1)) + 1
+            tempLimit = min(nextI2Block, limit)
 
             if c <= 0xFFFF:
                 # We're in the BMP
                 if not isSurrogate(c):
-                    i2Block = (c >> self.SHIFT_2)
-
-                    # if tempLimit is above the BMP, limit it to the BMP
-                    if tempLimit > 0x10000:
-                        tempLimit = 0x10000
+                    i2Block = (c >> self.SHIFT_2) & ~self.INDEX_2_MASK
                 elif isSurrogateLead(c):
                     # Enumerate values for lead surrogate code points, not code units:
                     # This special block has half the normal length.
@@ -127,7 +125,7 @@ class UTrie2(object):
                 else:
                     # Switch back to the normal part of the index-2 table.
                     # Enumerate the second half of the surrogates block.
-                    i2Block = 0xDC00 >> self.SHIFT_2
+                    i2Block = 0xD800 >> self.SHIFT_2
                     tempLimit = min(0xE000, limit)
             else:
                 # supplementary code point
@@ -151,23 +149,11 @@ class UTrie2(object):
                     prev = c
                     prevValue = initialValue
 
-                c += self.CP_PER_INDEX_1_ENTRY
+                c = nextI2Block
             else:
                 # enumerate data blocks for one index-2 block
-                if c <= 0xFFFF:
-                    # We're in the BMP
-                    i2Start = 0
-                    i2Limit = (tempLimit >> self.SHIFT_2) - i2Block
-
-                    # if we're in the high surrogate range, i2Limit will be negative,
-                    # so we want to just do the high surroaget block
-                    if i2Limit < 0: i2Limit = 0
-                else:
-                    i2Start = (c >> self.SHIFT_2) & self.INDEX_2_MASK
-                    i2Limit = (tempLimit >> self.SHIFT_2) & self.INDEX_2_MASK
-
-                    if (c >> self.SHIFT_1) != (tempLimit >> self.SHIFT_1):
-                        i2Limit = self.INDEX_2_BLOCK_LENGTH
+                i2Start = (c >> self.SHIFT_2) & self.INDEX_2_MASK
+                i2Limit = ((tempLimit - 1) >> self.SHIFT_2) & self.INDEX_2_MASK
 
                 for i2 in range(i2Start, i2Limit + 1):
                     block = self.index[i2Block + i2] << self.INDEX_SHIFT
@@ -186,7 +172,7 @@ class UTrie2(object):
                             prev = c
                             prevValue = initialValue
 
-                        c += self.DATA_BLOCK_LENGTH
+                        c = (c | self.DATA_MASK) + 1
                     else:
                         jStart = c & self.DATA_MASK
                         jLimit = min(self.DATA_BLOCK_LENGTH, jStart + tempLimit - c)
-- 
2.43.0


From b64ca16a50dfbd3215443f80937eb4859b87622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:27 +0000
Subject: [PATCH 10/31] fix: UTrie2.enumerator skipped a data block repeated
 after a null index-2 block

---
 UnicodeData/Utrie2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/Utrie2.py b/UnicodeData/Utrie2.py
index b2ca8ed..46ca9d2 100644
--- a/UnicodeData/Utrie2.py
+++ b/UnicodeData/Utrie2.py
@@ -145,10 +145,10 @@ class UTrie2(object):
                 if prevValue != initialValue:
                     if prev < c: yield range(prev, c), prevValue
 
-                    prevBlock = self.dataNullOffset
                     prev = c
                     prevValue = initialValue
 
+                prevBlock = self.dataNullOffset
                 c = nextI2Block
             else:
                 # enumerate data blocks for one index-2 block
-- 
2.43.0


From f717d2855f4a15918406dd3b9858c86ad2500232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 11/31] fix: CPTrie.enumerator used the data block length as
 the length of index-3 blocks

---
 UnicodeData/CPTrie.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/UnicodeData/CPTrie.py b/UnicodeData/CPTrie.py
index 646e0d3..559ebaa 100644
--- a/UnicodeData/CPTrie.py
+++ b/UnicodeData/CPTrie.py
@@ -258,7 +258,7 @@ class CPTrie(object):
             if c <= 0xFFFF and (self.trieType == UCPTRIE_TYPE_FAST or c <= UCPTRIE_SMALL_MAX):
                 i3Block = 0
                 i3Start = c >> UCPTRIE_FAST_SHIFT
-                # i3BlockLength = UCPTRIE_BMP_INDEX_LENGTH if self.trieType == UCPTRIE_TYPE_FAST else UCPTRIE_SMALL_INDEX_LENGTH
+                i3BlockLength = UCPTRIE_BMP_INDEX_LENGTH if self.trieType == UCPTRIE_TYPE_FAST else UCPTRIE_SMALL_INDEX_LENGTH
                 dataBlockLength = UCPTRIE_FAST_DATA_BLOCK_LENGTH
             else:
                 # use the multi-stage index
@@ -290,11 +290,11 @@ class CPTrie(object):
                     continue
 
                 i3Start = (c >> UCPTRIE_SHIFT_3) & UCPTRIE_INDEX_3_MASK
-                # i3BlockLength = UCPTRIE_INDEX_3_BLOCK_LENGTH
+                i3BlockLength = UCPTRIE_INDEX_3_BLOCK_LENGTH
                 dataBlockLength = UCPTRIE_SMALL_DATA_BLOCK_LENGTH
 
             # Enumerate data blocks for one index-3 block.
-            for i3 in range(i3Start, dataBlockLength):
+            for i3 in range(i3Start, i3BlockLength):
                 if c >= limit: break
                 if (i3Block & 0x8000) == 0:
                     block = self.index[i3Block + i3]
-- 
2.43.0


From 82ff48c8f355ae62a370406fe10052f208711f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 12/31] fix: CPTrie.enumerator skipped repeated blocks not
 filled with the previous value

---
 UnicodeData/CPTrie.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/CPTrie.py b/UnicodeData/CPTrie.py
index 559ebaa..9c1160f 100644
--- a/UnicodeData/CPTrie.py
+++ b/UnicodeData/CPTrie.py
@@ -271,7 +271,7 @@ class CPTrie(object):
                     i1 += UCPTRIE_SMALL_INDEX_LENGTH
 
                 i3Block = self.index[self.index[i1] + ((c >> UCPTRIE_SHIFT_2) & UCPTRIE_INDEX_2_MASK)]
-                if i3Block == prevI3Block and (c - start) >= UCPTRIE_CP_PER_INDEX_2_ENTRY:
+                if i3Block == prevI3Block and (c - prev) >= UCPTRIE_CP_PER_INDEX_2_ENTRY:
                     # The index-3 block is the same as the previous one, and filled with value.
                     assert (c & (UCPTRIE_CP_PER_INDEX_2_ENTRY - 1)) == 0
                     c += UCPTRIE_CP_PER_INDEX_2_ENTRY
@@ -305,7 +305,7 @@ class CPTrie(object):
                     block = (self.index[group] << (2 + (2 * gi))) & 0x30000
                     block |= self.index[group + gi + 1]  # C++ code indexes by group++ in previous line
 
-                if block == prevBlock and (c - start) >= dataBlockLength:
+                if block == prevBlock and (c - prev) >= dataBlockLength:
                     # The block is the same as the previous one, and filled with value.
                     assert (c & (dataBlockLength - 1)) == 0
                     c += dataBlockLength
-- 
2.43.0


From 90a0bd4295e63a8fc11f3e25f070d0355b6cd35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 13/31] fix: CPTrie.enumerator left out the code points from
 highStart on

---
 UnicodeData/CPTrie.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/UnicodeData/CPTrie.py b/UnicodeData/CPTrie.py
index 9c1160f..bb976e4 100644
--- a/UnicodeData/CPTrie.py
+++ b/UnicodeData/CPTrie.py
@@ -244,7 +244,7 @@ class CPTrie(object):
         return self.data[dataIndex]
 
     def enumerator(self, start: int = 0, limit: int = 0x110000) -> typing.Iterator[tuple[range, typing.Any]]:
-        if start >= 0x110000 or start >= self.highStart:
+        if start >= 0x110000:
             return
 
         prevI3Block = -1
@@ -346,6 +346,10 @@ class CPTrie(object):
             highValue = self.data[di]
             if highValue != prevValue:
                 if prev < c: yield range(prev, c), prevValue
+                prev = c
+                prevValue = highValue
+
+            c = limit
 
         # deliver last range
         if prev < c: yield range(prev, c), prevValue
-- 
2.43.0


From ea4940cb3a64c84e3c49c72ec89842ed1637bc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 14/31] fix: CPTrie.enumerator raised IndexError for a trie
 without a null data block

---
 UnicodeData/CPTrie.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/UnicodeData/CPTrie.py b/UnicodeData/CPTrie.py
index bb976e4..db34b52 100644
--- a/UnicodeData/CPTrie.py
+++ b/UnicodeData/CPTrie.py
@@ -250,7 +250,11 @@ class CPTrie(object):
         prevI3Block = -1
         prevBlock = -1
         prev = start
-        nullValue = self.data[self.dataNullOffset]
+        nullOffset = self.dataNullOffset
+        if nullOffset >= self.dataLength:
+            # there is no null data block
+            nullOffset = self.dataLength - UCPTRIE_HIGH_VALUE_NEG_DATA_OFFSET
+        nullValue = self.data[nullOffset]
         prevValue = nullValue  # or 0?
 
         c = start
-- 
2.43.0


From 08b20e1365ec6ba0cf26cad0b854068ebc7edf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 15/31] fix: CPTrie.enumerator took a small data block for the
 longer fast block at the same offset

---
 UnicodeData/CPTrie.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/UnicodeData/CPTrie.py b/UnicodeData/CPTrie.py
index db34b52..8015f40 100644
--- a/UnicodeData/CPTrie.py
+++ b/UnicodeData/CPTrie.py
@@ -281,6 +281,10 @@ class CPTrie(object):
                     c += UCPTRIE_CP_PER_INDEX_2_ENTRY
                     continue
 
+                if prevI3Block < 0:
+                    # prevBlock may be a longer block from the fast range
+                    prevBlock = -1
+
                 prevI3Block = i3Block
                 if i3Block == self.index3NullOffset:
                     # This is the index-3 null block.
-- 
2.43.0


From 9ca8111838f0f003ab57f6afa0b6b1c037d8d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 16/31] fix: isIDIgnorable ignored the ISO controls

---
 UnicodeData/CharProps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index fa061fe..6271d32 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -152,8 +152,8 @@ def isIDPart(c: int) -> bool:
     return (gcMask(gc) & ( GC_ND_MASK | GC_NL_MASK | GC_L_MASK | GC_PC_MASK | GC_MC_MASK | GC_MN_MASK)) != 0 or isIDIgnorable(c)
 
 def isIDIgnorable(c: int) -> bool:
-    if c < 0x009F:
-        isISOControl(c) and not isThatASCIIControlSpace(c)
+    if c <= 0x009F:
+        return isISOControl(c) and not isThatASCIIControlSpace(c)
 
     gc = getGeneralCategory(c)
     return gc == GC_FORMAT_CHAR
-- 
2.43.0


From 45a08d55ad455504d1d2be82ad3efcf2c8cbea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 17/31] fix: getNumericType returned the general category

---
 UnicodeData/CharProps.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index 6271d32..ca597fc 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -2,6 +2,7 @@ import typing
 
 from .Utrie2 import UTrie2
 from .CharPropsData import *
+from .uchar_h import U_NT_NONE, U_NT_DECIMAL, U_NT_DIGIT, U_NT_NUMERIC
 from .uprops_h import *
 from .uscript_h import *
 # from .UCDTypeDictionaries import generalCategoryNames as generalCategories
@@ -171,7 +172,18 @@ def digitValue(c: int) -> int:
     return value if value <= 9 else -1
 
 def numericTypeFromProps(props: int) -> int:
-    return props & 0x1F
+    ntv = numericTypeValueFromProps(props)
+
+    if ntv == UPROPS_NTV_NONE:
+        return U_NT_NONE
+
+    if ntv < UPROPS_NTV_DIGIT_START:
+        return U_NT_DECIMAL
+
+    if ntv < UPROPS_NTV_NUMERIC_START:
+        return U_NT_DIGIT
+
+    return U_NT_NUMERIC
 
 def getNumericType(c: int) -> int:
     props = propsTrie.get(c)
-- 
2.43.0


From d8c35a584f94e4f8e7c81ac63bf1956520b02793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:03 +0000
Subject: [PATCH 18/31] fix: getUnicodeProperties read the next row for the
 column after the last

---
 UnicodeData/CharProps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index ca597fc..68fd6ba 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -21,7 +21,7 @@ def unicodePropertiesFromVecIndex(vecIndex: int, column: int):
     return propsVectors[vecIndex + column]
 
 def getUnicodeProperties(c: int, column: int):
-    if column > propsVectorsColumns:
+    if column >= propsVectorsColumns:
         return 0
 
     vecIndex = propsVectorTrie.get(c)
-- 
2.43.0


From 56388259c4540f2af145960bfa972af2e03d324a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:19 +0000
Subject: [PATCH 19/31] fix: CharNames.nameIterator skipped algorithmic ranges
 that share or fall between 32-code-point steps

It then never reached any later algorithmic range either, so charFromName
did not find their names, and it raised IndexError without any range.
---
 UnicodeData/CharNames.py | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/UnicodeData/CharNames.py b/UnicodeData/CharNames.py
index 59100b4..5b6c8b6 100644
--- a/UnicodeData/CharNames.py
+++ b/UnicodeData/CharNames.py
@@ -8,6 +8,7 @@ Created on May 15, 2020
 
 import typing
 
+import heapq
 import struct
 from fontTools.misc import sstruct  # type: ignore
 
@@ -456,27 +457,16 @@ class CharNames(object):
 
         return CharNames._getName(code, nameChoice)
 
+    @classmethod
+    def _rangeNames(cls, ranges: typing.Iterable[typing.Union[Group, AlgorithmicRange]], nameChoice: int) -> typing.Iterator[tuple[int, str]]:
+        for nameRange in ranges:
+            for (code, name) in nameRange.nameIterator(nameChoice):
+                if name: yield (code, name)
+
     @classmethod
     def nameIterator(cls, nameChoice: int =U_UNICODE_CHAR_NAME) -> typing.Iterator[tuple[int, str]]:
-        charLimit = max(cls._groups[-1].charRange.stop, cls._algorithmicRanges[-1].charRange.stop)
-        char = 0
-        algRange = 0
-        while char < charLimit:
-            group = cls.getGroup(char)
-            if group and char in group.charRange:
-                # group.nameChoice = self.nameChoice
-                for (code, name) in group.nameIterator(nameChoice):
-                    if name: yield (code, name)
-                char = group.charRange.stop
-            elif algRange < len(cls._algorithmicRanges) and cls._algorithmicRanges[algRange].charInRange(char):
-                algorithmicRange = cls._algorithmicRanges[algRange]
-                # algorithmicRange.nameChoice = self.nameChoice
-                for (code, name) in algorithmicRange.nameIterator(nameChoice):
-                    if name: yield (code, name)
-                char = algorithmicRange.charRange.stop
-                algRange += 1
-            else:
-                char += LINES_PER_GROUP
+        # The groups and the algorithmic ranges are both in ascending order, but they can meet anywhere.
+        return heapq.merge(cls._rangeNames(cls._groups, nameChoice), cls._rangeNames(cls._algorithmicRanges, nameChoice))
 
     @classmethod
     def charFromName(cls, theName: str, nameChoice:int=U_UNICODE_CHAR_NAME) -> int:
-- 
2.43.0


From 8f796538f0dcecd7f9ebfe8f45ae78b0887b6b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 20/31] fix: trailing commas made aliases of blocks, scripts
 and an index into tuples

UBLOCK_PRIVATE_USE, USCRIPT_UCAS etc. were 1-tuples, so that e.g.
scriptCodes had no entry for the scripts 40, 84, 86, 92 and 145 by alias.
---
 UnicodeData/BidiProps.py |  2 +-
 UnicodeData/Blocks.py    |  4 ++--
 UnicodeData/Scripts.py   | 10 +++++-----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/UnicodeData/BidiProps.py b/UnicodeData/BidiProps.py
index 57fb1e4..48ecf49 100644
--- a/UnicodeData/BidiProps.py
+++ b/UnicodeData/BidiProps.py
@@ -25,7 +25,7 @@ UBIDI_IX_JG_LIMIT = 5
 UBIDI_IX_JG_START2 = 6  # *new in format version 2.2, ICU 54
 UBIDI_IX_JG_LIMIT2 = 7
 
-UBIDI_MAX_VALUES_INDEX = 15,
+UBIDI_MAX_VALUES_INDEX = 15
 UBIDI_IX_TOP = 16
 
 # definitions for 16-bit bidi/shaping properties word
diff --git a/UnicodeData/Blocks.py b/UnicodeData/Blocks.py
index e3f2af4..b53dfcd 100644
--- a/UnicodeData/Blocks.py
+++ b/UnicodeData/Blocks.py
@@ -261,7 +261,7 @@ UBLOCK_PRIVATE_USE_AREA = 78  # [E000]
 #
 #* @ stable ICU 2.0
 
-UBLOCK_PRIVATE_USE = UBLOCK_PRIVATE_USE_AREA,
+UBLOCK_PRIVATE_USE = UBLOCK_PRIVATE_USE_AREA
 
 # @stable ICU 2.0
 UBLOCK_CJK_COMPATIBILITY_IDEOGRAPHS = 79  # [F900]
@@ -319,7 +319,7 @@ UBLOCK_CYRILLIC_SUPPLEMENT = 97  # [0500]
 # Unicode 4.0.1 renames the "Cyrillic Supary" block to "Cyrillic Sup".
 # @ stable ICU 2.2
 
-UBLOCK_CYRILLIC_SUPPLEMENTARY = UBLOCK_CYRILLIC_SUPPLEMENT,
+UBLOCK_CYRILLIC_SUPPLEMENTARY = UBLOCK_CYRILLIC_SUPPLEMENT
 # @stable ICU 2.2
 UBLOCK_TAGALOG = 98  # [1700]
 # @stable ICU 2.2
diff --git a/UnicodeData/Scripts.py b/UnicodeData/Scripts.py
index e3a4649..7093e90 100644
--- a/UnicodeData/Scripts.py
+++ b/UnicodeData/Scripts.py
@@ -48,7 +48,7 @@ USCRIPT_THAANA       = 37  # 'Thaa'
 USCRIPT_THAI         = 38  # 'Thai'
 USCRIPT_TIBETAN      = 39  # 'Tibt'
 USCRIPT_CANADIAN_ABORIGINAL = 40  # 'Cans'
-USCRIPT_UCAS         = USCRIPT_CANADIAN_ABORIGINAL,
+USCRIPT_UCAS         = USCRIPT_CANADIAN_ABORIGINAL
 USCRIPT_YI           = 41  # 'Yiii'
 
 # New scripts in Unicode 3.2
@@ -103,17 +103,17 @@ USCRIPT_LATIN_GAELIC                  = 81  # 'Latg'
 USCRIPT_LEPCHA                        = 82  # 'Lepc'
 USCRIPT_LINEAR_A                      = 83  # 'Lina'
 USCRIPT_MANDAIC                       = 84  # 'Mand'
-USCRIPT_MANDAEAN                      = USCRIPT_MANDAIC,
+USCRIPT_MANDAEAN                      = USCRIPT_MANDAIC
 USCRIPT_MAYAN_HIEROGLYPHS             = 85  # 'Maya'
 USCRIPT_MEROITIC_HIEROGLYPHS          = 86  # 'Mero'
-USCRIPT_MEROITIC                      = USCRIPT_MEROITIC_HIEROGLYPHS,
+USCRIPT_MEROITIC                      = USCRIPT_MEROITIC_HIEROGLYPHS
 USCRIPT_NKO                           = 87  # 'Nkoo'
 USCRIPT_ORKHON                        = 88  # 'Orkh'
 USCRIPT_OLD_PERMIC                    = 89  # 'Perm'
 USCRIPT_PHAGS_PA                      = 90  # 'Phag'
 USCRIPT_PHOENICIAN                    = 91  # 'Phnx'
 USCRIPT_MIAO                          = 92  # 'Plrd'
-USCRIPT_PHONETIC_POLLARD              = USCRIPT_MIAO,
+USCRIPT_PHONETIC_POLLARD              = USCRIPT_MIAO
 USCRIPT_RONGORONGO                    = 93  # 'Roro'
 USCRIPT_SARATI                        = 94  # 'Sara'
 USCRIPT_ESTRANGELO_SYRIAC             = 95  # 'Syre'
@@ -167,7 +167,7 @@ USCRIPT_OLD_NORTH_ARABIAN             = 142  # 'Narb'
 USCRIPT_NABATAEAN                     = 143  # 'Nbat'
 USCRIPT_PALMYRENE                     = 144  # 'Palm'
 USCRIPT_KHUDAWADI                     = 145  # 'Sind'
-USCRIPT_SINDHI                        = USCRIPT_KHUDAWADI,
+USCRIPT_SINDHI                        = USCRIPT_KHUDAWADI
 USCRIPT_WARANG_CITI                   = 146  # 'Wara'
 USCRIPT_AFAKA                         = 147  # 'Afak'
 USCRIPT_JURCHEN                       = 148  # 'Jurc'
-- 
2.43.0


From 0ef3cace437bf6fb1f05cf9ff9451841ef7de488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 21/31] fix: names of the supplementary private use blocks were
 garbled

---
 UnicodeData/Blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/Blocks.py b/UnicodeData/Blocks.py
index b53dfcd..96d3e1f 100644
--- a/UnicodeData/Blocks.py
+++ b/UnicodeData/Blocks.py
@@ -895,8 +895,8 @@ blockNames = {
     UBLOCK_SUPPLEMENTAL_MATHEMATICAL_OPERATORS: "Sup Math Operators",
     UBLOCK_KATAKANA_PHONETIC_EXTENSIONS: "Katakana Ext",
     UBLOCK_VARIATION_SELECTORS: "VS",
-    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_A: "Supary Private Use Area A",
-    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_B: "Supary Private Use Area B",
+    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_A: "Supplementary Private Use Area A",
+    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_B: "Supplementary Private Use Area B",
     UBLOCK_LIMBU: "Limbu",
     UBLOCK_TAI_LE: "Tai Le",
     UBLOCK_KHMER_SYMBOLS: "Khmer Symbols",
-- 
2.43.0


From 70a81ba4fc8daec9721eccc22facebaa1c8ee340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 22/31] fix: simpleTitleCase was the text of the attribute, not
 the character

---
 UnicodeData/CaseProperties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CaseProperties.py b/UnicodeData/CaseProperties.py
index 3def9bc..42a807d 100644
--- a/UnicodeData/CaseProperties.py
+++ b/UnicodeData/CaseProperties.py
@@ -21,7 +21,7 @@ class CaseProperties(UCDProperties):
 
         self.simpleUpperCase = self.getCodePointsProperty("suc")
         self.simpleLowerCase = self.getCodePointsProperty("slc")
-        self.simpleTitleCase = self.getCharProperty("stc")
+        self.simpleTitleCase = self.getCodePointsProperty("stc")
 
         self.upperCase = self.getCodePointsProperty("uc")
         self.lowerCase = self.getCodePointsProperty("lc")
-- 
2.43.0


From 5805050926934bf067d487394843a84ed0534a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 23/31] fix: characters that NFKC_Casefold removes were said to
 fold to themselves

---
 UnicodeData/CaseProperties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/UnicodeData/CaseProperties.py b/UnicodeData/CaseProperties.py
index 42a807d..5428d1c 100644
--- a/UnicodeData/CaseProperties.py
+++ b/UnicodeData/CaseProperties.py
@@ -38,7 +38,8 @@ class CaseProperties(UCDProperties):
         self.changesWhenNFKCCaseFolded = self.getBooleanProperty("CWKCF")
         self.changesWhenTitlecased = self.getBooleanProperty("CWT")
         self.changesWhenUppercased = self.getBooleanProperty("CWU")
-        self.nkfcCasefold = self.getCodePointsProperty("NFKC_CF")
+        # an empty NFKC_CF means that the character folds to nothing
+        self.nkfcCasefold = self.getCodePointsProperty("NFKC_CF") if self.getCharProperty("NFKC_CF") else ""
 
         del self._char
         del self._group
\ No newline at end of file
-- 
2.43.0


From abe216238c578bd68c22c2e6aec2eb7eeb548f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:16 +0000
Subject: [PATCH 24/31] fix: end of line comments that are empty or contain a
 dollar sign were left in the value

---
 module_builder/HeaderToPtyhon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index 2bbc0b7..35eff6d 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -15,7 +15,7 @@ from pathlib import Path
 
 firstTokenRE = re.compile(r"([^\s]+)")  # first token on a line
 cCommentRE = re.compile(r"/\*\*?(.+?)\*/")  # a /*...*/ comment
-eolCommentRE = re.compile(r"//\s*([^$]+)$")  # //... to end of line comment
+eolCommentRE = re.compile(r"//\s*(.*)$")  # //... to end of line comment
 macroDefineRE = re.compile(r"#define (\w+(?:\(\w+(?:,\s*\w+)?\))?)(?:\s+(.+))?")  # #define with optional arguments and optional value
 typedefEnumRE = re.compile(r"typedef\s+enum\s*\w*\s*\{?")
 endOfEnumRE = re.compile(r"\}\s*\w*\s*;")  # } name ;  with optional name
-- 
2.43.0


From 9e9cd3bd5f694bf4f03f56fb0d5526eb93e85c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 25/31] fix: the module builder took a declaration whose name
 ends with the requested name

---
 module_builder/ModuleBuilder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/module_builder/ModuleBuilder.py b/module_builder/ModuleBuilder.py
index a3f48d4..445099f 100644
--- a/module_builder/ModuleBuilder.py
+++ b/module_builder/ModuleBuilder.py
@@ -110,15 +110,15 @@ class ModuleBuilder(object):
 
     def getScalarDeclaration(self, name: str) -> str:
         # pattern = name + r"=([0-9]+);"
-        pattern = name + r"=(.+);"
+        pattern = r"\b" + name + r"=(.+);"
         return re.findall(pattern, self.source)[0]
 
     def getArrayDeclaration(self, arrayName: str) -> str:
-        pattern = arrayName + r"\[.+?\]=\{(.+?)\};"
+        pattern = r"\b" + arrayName + r"\[.+?\]=\{(.+?)\};"
         return re.findall(pattern, self.source, re.DOTALL)[0]
 
     def getPropsDeclaration(self, name: str) -> str:
-        pattern = name + r"=\{\n(.+?)\n\};"
+        pattern = r"\b" + name + r"=\{\n(.+?)\n\};"
         return re.findall(pattern, self.source, re.DOTALL)[0]
 
     def scalarToPython(self, name: str):
-- 
2.43.0


From bd4a91b83ff8b0348c28ed24c62d290f3d8e9982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:36 +0000
Subject: [PATCH 26/31] fix: comment markers in string constants cut the
 constant short

---
 module_builder/HeaderToPtyhon.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index 35eff6d..914d3a7 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -16,6 +16,7 @@ from pathlib import Path
 firstTokenRE = re.compile(r"([^\s]+)")  # first token on a line
 cCommentRE = re.compile(r"/\*\*?(.+?)\*/")  # a /*...*/ comment
 eolCommentRE = re.compile(r"//\s*(.*)$")  # //... to end of line comment
+stringRE = re.compile(r'"(?:[^"\\]|\\.)*"')  # a string constant
 macroDefineRE = re.compile(r"#define (\w+(?:\(\w+(?:,\s*\w+)?\))?)(?:\s+(.+))?")  # #define with optional arguments and optional value
 typedefEnumRE = re.compile(r"typedef\s+enum\s*\w*\s*\{?")
 endOfEnumRE = re.compile(r"\}\s*\w*\s*;")  # } name ;  with optional name
@@ -55,7 +56,9 @@ class HeaderFile(object):
     @classmethod
     def getTrailingComment(cls, line: str) -> tuple[str, str]:
         comment = ""
-        if (m := cCommentRE.search(line)) or (m := eolCommentRE.search(line)):
+        # what looks like a comment in a string constant is part of the string
+        masked = stringRE.sub(lambda m: "_" * len(m.group()), line)
+        if (m := cCommentRE.search(masked)) or (m := eolCommentRE.search(masked)):
             comment = line[m.start(1):m.end(1)]
             line = line[:m.start()].strip()
 
-- 
2.43.0


From 661947eab7d8f6085518420d09d1205a09422a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 27/31] fix: characters outside the BMP in full case mappings
 came out as surrogate pairs

---
 UnicodeData/CaseProps.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/CaseProps.py b/UnicodeData/CaseProps.py
index dbc5abb..9f326e7 100644
--- a/UnicodeData/CaseProps.py
+++ b/UnicodeData/CaseProps.py
@@ -206,6 +206,10 @@ def toTitle(c: int) -> int:
 
     return c
 
+def stringFromUTF16(units: list[str]) -> str:
+    # characters outside the BMP are stored as surrogate pairs
+    return "".join(units).encode("utf-16-le", "surrogatepass").decode("utf-16-le", "surrogatepass")
+
 # locale?
 def toFullLower(c: int) -> str:
     result = chr(c)
@@ -233,7 +237,7 @@ def toFullLower(c: int) -> str:
                 for i in range(full):
                     chars.append(chr(ucase_props_exceptions[exceptionIndex + i]))
 
-                return "".join(chars)
+                return stringFromUTF16(chars)
 
         if hasSlot(excWord, UCASE_EXC_DELTA) and isUpperOrTitle(props):
             (delta, _) = getSlotValue(excWord, UCASE_EXC_DELTA, exceptionIndex2)
@@ -286,7 +290,7 @@ def toUpperOrTitle(c: int, upperNotTitle: bool) -> str:
                 for i in range(full):
                     chars.append(chr(ucase_props_exceptions[exceptionIndex + i]))
 
-                return "".join(chars)
+                return stringFromUTF16(chars)
 
         if hasSlot(excWord, UCASE_EXC_DELTA) and getTypeFromProps(props) == UCASE_LOWER:
             (delta, _) = getSlotValue(excWord, UCASE_EXC_DELTA, exceptionIndex2)
-- 
2.43.0


From d19e5ef63a713f99e20da34feb9edcb04187aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:10 +0000
Subject: [PATCH 28/31] fix: copy.copy of a UnicodeSet shares no list with the
 original

---
 UnicodeData/UnicodeSet.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 44a47da..efee043 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -722,6 +722,13 @@ class UnicodeSet(object):
         else:
             raise(TypeError("Argument type must be UnicodeSet, int or range."))
 
+    def __copy__(self):
+        """Return a copy of this set that does not share its list, for copy.copy()."""
+        result = self.__class__.__new__(self.__class__)
+        result.__dict__.update(self.__dict__)
+        result.list = self.list.copy()
+        return result
+
     def size(self):
         """Return the number of code points in this set."""
         s = 0
-- 
2.43.0


From f9b79a7b10c8c7d907323f6827db6c612ed6c4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:22 +0000
Subject: [PATCH 29/31] fix: ranges with a step other than 1 stand for their
 own code points only

---
 UnicodeData/UnicodeSet.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index efee043..82c9f32 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -571,6 +571,9 @@ class UnicodeSet(object):
                 self.list[0:0] = [UNICODE_SET_LOW]
         elif type(arg) is int:
             self.complementRange(arg, arg)
+        elif type(arg) is range and arg.step != 1:
+            for cp in arg:
+                self.complementRange(cp, cp)
         elif type(arg) is range:
             self.complementRange(arg.start, arg.stop - 1)
         else:
@@ -608,6 +611,8 @@ class UnicodeSet(object):
 
             i = self._findCodePoint(arg)
             return (i & 1) != 0
+        elif type(arg) is range and arg.step != 1:
+            return all(self.contains(cp) for cp in arg)
         elif type(arg) is range:
             start = arg.start
             end = arg.stop - 1
@@ -716,6 +721,10 @@ class UnicodeSet(object):
         elif type(arg) is int:
             self.list = [UNICODE_SET_HIGH]
             self.add(arg)
+        elif type(arg) is range and arg.step != 1:
+            self.list = [UNICODE_SET_HIGH]
+            for cp in arg:
+                self.add(cp)
         elif type(arg) is range:
             self.list = [UNICODE_SET_HIGH]
             self.addRange(arg.start, arg.stop - 1)
-- 
2.43.0


From 0ab8b091a85002bb1af002839abbbe2f2490abcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:04 +0000
Subject: [PATCH 30/31] fix: enumerators could not refer to constants defined
 earlier in the header

---
 module_builder/HeaderToPtyhon.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index 914d3a7..ef82376 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -44,6 +44,7 @@ class HeaderFile(object):
         self.outputLines.append(f"Generated by {toolName} on {todayString}")
         self.outputLines.append('"""\n')
 
+        self.extraCode = extraCode
         for code in extraCode:
             self.outputLines.append(code)
 
@@ -113,6 +114,11 @@ class HeaderFile(object):
             return self.getTrailingComment(line)
 
     def translate(self):
+        # enumerators can refer to everything defined before them in the header
+        variables: dict[str, typing.Any] = {}
+        for code in self.extraCode:
+            exec(code, variables)
+
         while (nl := self.nextLine()):
             line, comment = nl
             token = self.firstToken(line)
@@ -129,9 +135,13 @@ class HeaderFile(object):
                         self.outputLines.append(f"{name} = {value}  # {comment}")
                     else:
                         self.outputLines.append(f"{name} = {value}")
+
+                    try:
+                        variables[name] = eval(value, variables)
+                    except Exception:
+                        pass  # no constant, so no enumerator can refer to it
             elif token == "enum" or (token == "typedef" and typedefEnumRE.fullmatch(line)):
                 nextValue = 0
-                variables: dict[str, typing.Any] = {}
                 _prevName = None
                 while (elc := self.nextLine()):
                     eline, comment = elc
-- 
2.43.0


From a99d633a85b3102f8243b0a6713caebecec8a924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:35 +0000
Subject: [PATCH 31/31] fix: the rest of a conditional part with another inside
 it was translated

---
 module_builder/HeaderToPtyhon.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/module_builder/HeaderToPtyhon.py b/module_builder/HeaderToPtyhon.py
index ef82376..e69b511 100644
--- a/module_builder/HeaderToPtyhon.py
+++ b/module_builder/HeaderToPtyhon.py
@@ -68,6 +68,7 @@ class HeaderFile(object):
     def nextLine(self):
         inComment = False
         inConditional = False
+        conditionalDepth = 0
         inMacro = False
         macroLine = ""
         while (line := self.sourceFile.readline()):
@@ -87,13 +88,15 @@ class HeaderFile(object):
                 continue
 
             if line.startswith("#if"):
-                if not self.guardMatch.search(line):
+                if inConditional or not self.guardMatch.search(line):
+                    conditionalDepth += 1
                     inConditional = True
                 continue
 
             if inConditional:
                 if line.startswith("#endif"):
-                    inConditional = False
+                    conditionalDepth -= 1  # conditionals can be nested
+                    inConditional = conditionalDepth > 0
                 continue
 
             if line.startswith("#endif"): continue  # ignore "endif for __HEADER_H__
-- 
2.43.0

