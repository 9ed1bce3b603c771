From bb5761e6b1b46899e42f272e5daaaaf555b563e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 001/195] fix: negative and out-of-range indexes into
 BitMaskedArray consult the right mask bit

---
 awkward0/array/masked.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 38cfaf0..df6d14f 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -613,6 +613,10 @@ class BitMaskedArray(MaskedArray):
 
     def _maskwhere(self, where):
         if self._util_isinteger(where):
+            if not -len(self._content) <= where < len(self._content):
+                raise IndexError("index {0} is out of bounds for BitMaskedArray of length {1}".format(where, len(self._content)))
+            if where < 0:
+                where += len(self._content)
             bytepos, bitmask = self._maskat(where)
             return self.numpy.bitwise_and(self._mask[bytepos], bitmask) != 0
 
@@ -623,7 +627,7 @@ class BitMaskedArray(MaskedArray):
         else:
             where = self.numpy.array(where, copy=False)
             if len(where.shape) == 1 and self._util_isintegertype(where.dtype.type):
-                byteposes, bitmasks = self._maskat(where)
+                byteposes, bitmasks = self._maskat(self.numpy.where(where < 0, where + len(self._content), where))
                 self.numpy.bitwise_and(bitmasks, self._mask[byteposes], bitmasks)
                 return bitmasks.astype(self.numpy.bool_)
 
-- 
2.43.0


From 357434366e206b7ebcafa7ae27a13b3e6b0d0eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 002/195] fix: JaggedArray with more stops than starts
 validates and indexes only the stops in use

---
 awkward0/array/jagged.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index ff7bf52..1234832 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -479,15 +479,16 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             else:
                 if self.check_whole_valid:
                     self._validstartsstops(self._starts, self._stops)
-                nonempty = (self._starts != self._stops)
+                stops = self._stops[:len(self._starts)]
+                nonempty = (self._starts != stops)
                 starts = self._starts[nonempty].reshape(-1)
                 if self.check_whole_valid:
                     if len(starts) != 0 and starts.reshape(-1).max() >= len(self._content):
                         raise ValueError("maximum start ({0}) is at or beyond the length of the content ({1})".format(starts.reshape(-1).max(), len(self._content)))
-                stops = self._stops[nonempty].reshape(-1)
+                stops = stops[nonempty].reshape(-1)
                 if self.check_whole_valid:
                     if len(stops) != 0 and stops.reshape(-1).max() > len(self._content):
-                        raise ValueError("maximum stop ({0}) is beyond the length of the content ({1})".format(self._stops.reshape(-1).max(), len(self._content)))
+                        raise ValueError("maximum stop ({0}) is beyond the length of the content ({1})".format(stops.reshape(-1).max(), len(self._content)))
 
             self._isvalid = True
 
@@ -598,7 +599,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         else:
             starts = self._starts[head]
-            stops = self._stops[head]
+            stops = self._stops[:len(self._starts)][head]
             if len(starts.shape) == len(stops.shape) == 0:
                 return self._content[starts:stops][tail]
             else:
-- 
2.43.0


From c30d747446bba1406662b1efd0ad0b18c2d8f36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 003/195] fix: VirtualArray of a union has a length

---
 awkward0/array/virtual.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index ae2da96..4ff21c3 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -264,7 +264,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             self._nbytes = value
 
     def __len__(self):
-        return self.shape[0]
+        return self.type.takes
 
     def _valid(self):
         if self.check_whole_valid:
-- 
2.43.0


From 4966ab19203644d6f4f916f95af9bac81580586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:00 +0000
Subject: [PATCH 004/195] fix: ChunkedArray.copy with new chunks forgets the
 old chunk offsets

---
 awkward0/array/chunked.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 38a5572..24c9f2c 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -25,6 +25,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if chunks is not None:
             out.chunks = chunks
             out._chunksizes = []
+            out._offsets = None
         if chunksizes is not None:
             out.chunksizes = chunksizes
         return out
-- 
2.43.0


From 949a2c2a42ec89f42c9115d3226d2f5caacd0701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 005/195] fix: AppendableArray slices cover only the appended
 elements

---
 awkward0/array/chunked.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 24c9f2c..9521cc9 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -828,16 +828,26 @@ class AppendableArray(ChunkedArray):
         out._chunkshape = self._chunkshape
         out._dtype = self._dtype
         out._chunks = list(self._chunks)
+        out._chunksizes = list(self._chunksizes)
+        out._types = list(self._types)
         if chunkshape is not None:
             out._chunkshape = chunkshape
         if dtype is not None:
             out._dtype = dtype
         if chunks is not None:
             out.chunks = chunks
-        out._chunksizes = list(self._chunksizes)
-        out._types = list(self._types)
         return out
 
+    def _filled(self):
+        # without the unused space at the end of the last chunk
+        return self.copy(chunks=[x[:c] for c, x in zip(self._chunksizes, self._chunks)])
+
+    def __getitem__(self, where):
+        if any(c != len(x) for c, x in zip(self._chunksizes, self._chunks)):
+            return self._filled()[where]
+        else:
+            return super(AppendableArray, self).__getitem__(where)
+
     def _mine(self, overrides):
         mine = {}
         mine["chunkshape"] = overrides.pop("chunkshape", self._chunkshape)
@@ -979,12 +989,12 @@ class AppendableArray(ChunkedArray):
 
     def astype(self, dtype):
         chunks = []
-        for chunk in self._chunks:
+        for chunk in self._filled()._chunks:
             chunks.append(chunk.astype(dtype))
         return self.copy(dtype=self.numpy.dtype(dtype), chunks=chunks)
 
     def fillna(self, value):
         chunks = []
-        for chunk in self._chunks:
+        for chunk in self._filled()._chunks:
             chunks.append(self._util_fillna(chunk, value))
         return self.copy(chunks=chunks)
-- 
2.43.0


From 6e0a8bf5d412f8fd8f5eebf6c096830731c0a4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:42 +0000
Subject: [PATCH 006/195] fix: empty selections of an IndexedArray keep the
 type of its content

---
 awkward0/array/indexed.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 6c7b3ba..b553977 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -156,10 +156,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
         head, tail = where[:len(self._index.shape)], where[len(self._index.shape):]
 
         head = self._index[head]
-        if len(head.shape) != 0 and len(head) == 0:
-            return self.numpy.empty(0, dtype=self._content.dtype)[tail]
-        else:
-            return self._content[(head,) + tail]
+        return self._content[(head,) + tail]
 
     def _invert(self, what):
         if self._inverse is None:
-- 
2.43.0


From cadb9150267a01f5dd2e42afdc3adebcc8600bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:45 +0000
Subject: [PATCH 007/195] fix: SparseArray fancy indexing leaves the caller's
 index alone and allows an empty index

---
 awkward0/array/indexed.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index b553977..6fb4591 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -601,13 +601,17 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
                 mask = (head < 0)
                 if mask.any():
+                    head = head.astype(self.INDEXTYPE)
                     head[mask] += self._length
                 if (head < 0).any() or (head >= self._length).any():
                     raise IndexError("indexes out of bounds for size {0}".format(self._length))
 
                 match = self.numpy.searchsorted(self._index, head, side="left")
-                match[match >= len(self._index)] = len(self._index) - 1
-                explicit = (self._index[match] == head)
+                if len(self._index) == 0:
+                    explicit = self.numpy.zeros(len(head), dtype=self.BOOLTYPE)
+                else:
+                    match[match >= len(self._index)] = len(self._index) - 1
+                    explicit = (self._index[match] == head)
 
                 tags = self.numpy.zeros(len(head), dtype=self.TAGTYPE)
                 index = self.numpy.zeros(len(head), dtype=self.INDEXTYPE)
-- 
2.43.0


From 831d6a36da9d8494a044ea9186f10ff310830279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 008/195] fix: Table fancy indexing leaves the caller's index
 alone

---
 awkward0/array/table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 075c03c..c20235b 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -527,6 +527,7 @@ class Table(awkward0.array.base.AwkwardArray):
                 length = self._length()
                 negative = (head < 0)
                 if negative.any():
+                    head = head.astype(self.INDEXTYPE)
                     head[negative] += length
                 if not self.numpy.bitwise_and(0 <= head, head < length).all():
                     raise IndexError("some indexes out of bounds for length {0}".format(length))
-- 
2.43.0


From dd84347a48a54347e5f468392fd5ca58f94e4d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 009/195] fix: an empty list selects nothing from ChunkedArray
 and BitMaskedArray

---
 awkward0/array/chunked.py | 2 +-
 awkward0/array/masked.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 9521cc9..31cbef4 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -438,7 +438,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             return self.copy(chunks=chunks)
 
         else:
-            head = self.numpy.array(head, copy=False)
+            head = self._util_toarray(head, self.INDEXTYPE, self.numpy.ndarray)
             if len(head.shape) == 1 and self._util_isintegertype(head.dtype.type):
                 if len(head) == 0 and len(self._chunks) == 0:
                     return self.copy(chunks=[])[tail]
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index df6d14f..bcd1e37 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -625,7 +625,7 @@ class BitMaskedArray(MaskedArray):
             return self._maskwhere(self.numpy.arange(*where.indices(len(self._content))))
 
         else:
-            where = self.numpy.array(where, copy=False)
+            where = self._util_toarray(where, self.INDEXTYPE, self.numpy.ndarray)
             if len(where.shape) == 1 and self._util_isintegertype(where.dtype.type):
                 byteposes, bitmasks = self._maskat(self.numpy.where(where < 0, where + len(self._content), where))
                 self.numpy.bitwise_and(bitmasks, self._mask[byteposes], bitmasks)
-- 
2.43.0


From f5351c7e9326caf99724369be1cd12a4490e8110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 010/195] fix: ChunkedArray fancy indexing in any order for
 chunks that are not plain Numpy

---
 awkward0/array/chunked.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 31cbef4..5b51a0e 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -460,7 +460,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                         chunks.append(self._chunks[cid][localindex])
                     return self.copy(chunks=chunks)
 
-                elif self._util_isnumpy(self.type):
+                elif self._onlynumpy(self.type):
                     out = self.numpy.empty((len(head),) + self.type.shape[1:], dtype=self.type.dtype)
                     self.knowchunksizes(chunkid.max() + 1)
                     offsets = self.offsets
@@ -497,6 +497,11 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             else:
                 raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(head.shape, head.dtype))
 
+    def _onlynumpy(self, tpe):
+        while isinstance(tpe, awkward0.type.ArrayType) and tpe.takes != self.numpy.inf:
+            tpe = tpe.to
+        return isinstance(tpe, self.numpy.dtype)
+
     def _aligned(self, what):
         self.knowchunksizes()
         what.knowchunksizes()
-- 
2.43.0


From 56c260174d074845347f23113ce5e1e927f96cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 011/195] fix: ChunkedArray fancy indexing with indexes in
 order applies the remaining dimensions

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 5b51a0e..69900dc 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -457,7 +457,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     chunks = []
                     for i, cid in enumerate(chunkid[mask]):
                         localindex = head[offsets[i]:offsets[i + 1]] - self.offsets[cid]
-                        chunks.append(self._chunks[cid][localindex])
+                        chunks.append(self._chunks[cid][(localindex,) + tail])
                     return self.copy(chunks=chunks)
 
                 elif self._onlynumpy(self.type):
-- 
2.43.0


From 715afbba91a0e0d8f044d738a520792d71cfd482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 012/195] fix: out-of-range index into a SparseArray raises
 IndexError

---
 awkward0/array/indexed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 6fb4591..8766de1 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -524,7 +524,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if head < 0:
                 head += self._length
             if not 0 <= head < self._length:
-                raise IndexError("index {0} is out of bounds for size {1}".format(original_head, length))
+                raise IndexError("index {0} is out of bounds for size {1}".format(original_head, self._length))
 
             match = self.numpy.searchsorted(self._index, head, side="left")
 
-- 
2.43.0


From f91c5beae76bc79060e410a370cc2913dec2e986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:41 +0000
Subject: [PATCH 013/195] fix: an empty index selects nothing from a
 SparseArray

---
 awkward0/array/indexed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 8766de1..bfc4c90 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -613,6 +613,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                     match[match >= len(self._index)] = len(self._index) - 1
                     explicit = (self._index[match] == head)
 
+                if len(head) == 0:
+                    return self._content[match][tail]
                 tags = self.numpy.zeros(len(head), dtype=self.TAGTYPE)
                 index = self.numpy.zeros(len(head), dtype=self.INDEXTYPE)
                 tags[explicit] = 1
-- 
2.43.0


From 2fe4511ce65a3f1f48958db98066e59dee0143df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 014/195] fix: column of a UnionArray keeps contents in step
 with their tags

---
 awkward0/array/union.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 9a47d67..dd5333f 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -294,9 +294,9 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         self._valid()
 
         if self._util_isstringslice(where):
-            contents = []
+            contents = list(self._contents)
             for tag in self.numpy.unique(self._tags):
-                contents.append(self._contents[tag][where])
+                contents[tag] = self._contents[tag][where]
             # TODO: think about inheriting methods from contents[where]; all satisfying tags would have to have the same methods before promoting the output (generalized maybemixin?)
             if len(contents) == 0:
                 return self.copy(contents=[self._contents[0][where]])
-- 
2.43.0


From 0b74ea22116e6c659dcc20a5544f584c0e3091aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 015/195] fix: slices and masks of a heterogeneous UnionArray
 apply the remaining dimensions

---
 awkward0/array/union.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index dd5333f..ee9b8c6 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -319,8 +319,10 @@ class UnionArray(awkward0.array.base.AwkwardArray):
                 return self._contents[0][(index,) + tail]
             elif (tags == tags[0]).all():
                 return self._contents[tags[0]][(index,) + tail]
-            else:
+            elif tail == ():
                 return self.copy(tags=tags, index=index)
+            else:
+                return self.copy(tags=tags, index=index, contents=[x[(slice(None),) + tail] for x in self._contents])
 
     def __setitem__(self, where, what):
         if what.shape[:len(self._tags.shape)] != self._tags.shape:
-- 
2.43.0


From 40ca5d6ec6ae8259f7e170f5def54d7232c063d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 016/195] fix: JaggedArray offsets, parents, flatten and
 regular ignore stops beyond the last list

---
 awkward0/array/jagged.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 1234832..d6d4751 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -291,7 +291,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return serializer.encode_call(
                 ["awkward0", "JaggedArray", "fromcounts"],
                 serializer(self.counts, "JaggedArray.counts"),
-                serializer(self._content[self._starts[0]:self._stops[-1]], "JaggedArray.content"),
+                serializer(self._content[self._starts[0]:self.stops[-1]], "JaggedArray.content"),
             )
         else:
             return serializer.encode_call(
@@ -355,11 +355,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             self._valid()
             if self.offsetsaliased(self._starts, self._stops):
                 self._offsets = self._starts.base
-            elif len(self._starts.shape) == 1 and self.numpy.array_equal(self._starts[1:], self._stops[:-1]):
-                if len(self._stops) == 0:
+            elif len(self._starts.shape) == 1 and self.numpy.array_equal(self._starts[1:], self.stops[:-1]):
+                if len(self._starts) == 0:
                     return self.numpy.array([0], dtype=self.INDEXTYPE)
                 else:
-                    self._offsets = self.numpy.append(self._starts, self._stops[-1])
+                    self._offsets = self.numpy.append(self._starts, self.stops[-1])
             else:
                 raise ValueError("starts and stops are not compatible with a single offsets array")
         return self._offsets
@@ -412,7 +412,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if self._canuseoffset():
                 self._parents = self.offsets2parents(self.offsets)
             else:
-                self._parents = self.startsstops2parents(self._starts, self._stops)
+                self._parents = self.startsstops2parents(self._starts, self.stops)
         return self._parents
 
     @parents.setter
@@ -1060,7 +1060,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         content = self._util_regular(self._content)
 
         if self._canuseoffset():
-            out = content[self._starts[0]:self._stops[-1]]
+            out = content[self._starts[0]:self.stops[-1]]
             return out.reshape(self._starts.shape + (count,) + content.shape[1:])
 
         else:
@@ -1420,13 +1420,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if len(self) == 0:
                 return self._content[0:0]
             elif self._canuseoffset():
-                return self._content[self._starts[0]:self._stops[-1]]
+                return self._content[self._starts[0]:self.stops[-1]]
             else:
                 offsets = self.counts2offsets(self.counts.reshape(-1))
                 if len(self._starts.shape) == 1:
                     out = self
                 else:
-                    out = self.JaggedArray(self._starts.reshape(-1), self._stops.reshape(-1), self._content)
+                    out = self.JaggedArray(self._starts.reshape(-1), self.stops.reshape(-1), self._content)
                 return out._tojagged(offsets[:-1], offsets[1:], copy=False)._content
 
     def structure1d(self, levellimit=None):
-- 
2.43.0


From 6dfedfa9b74047ee8d23168412e29a334919ceee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 017/195] fix: JaggedArray with nothing in its lists can be
 moved to other starts and stops

---
 awkward0/array/jagged.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index d6d4751..a68b7a7 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -59,7 +59,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         starts = starts.reshape(-1)  # flatten in case multi-d jagged
         stops = stops.reshape(-1)
         dtype = cls.JaggedArray.fget(None).INDEXTYPE
-        out = cls.numpy.full(stops.max(), -1, dtype=dtype)
+        out = cls.numpy.full(stops.max() if len(stops) != 0 else 0, -1, dtype=dtype)
         indices = cls.numpy.arange(len(starts), dtype=dtype)
         counts = stops - starts
         parents = cls.numpy.repeat(indices, awkward0.util.windows_safe(counts))
@@ -933,10 +933,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 parents = self.startsstops2parents(starts, stops)
 
             good = (parents >= 0)
-            increase = self.numpy.arange(len(parents), dtype=self.INDEXTYPE)
-            increase[good] -= increase[starts[parents[good]]]
-            index = self._starts[parents]
-            index += increase
+            if len(self._content) == 0:
+                # only empty lists, which can be anywhere
+                return self.copy(starts=self.numpy.zeros_like(starts), stops=self.numpy.zeros_like(stops))
+            index = self.numpy.arange(len(parents), dtype=self.INDEXTYPE)
+            index -= starts.reshape(-1)[parents]
+            index += self._starts.reshape(-1)[parents]
             index *= good
             out = self.copy(starts=starts, stops=stops, content=self._content[index])
             out._parents = parents
-- 
2.43.0


From 460d22e06ec9f632d3ddb141129cb976f177e5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 018/195] fix: tojagged of a JaggedArray works for any
 arrangement of its starts and stops

---
 awkward0/array/jagged.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index a68b7a7..cfba783 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -847,13 +847,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if len(self._starts) == 0:
                 return self.copy(content=data._content)
 
-            tmp = self.compact()
-            tmpparents = self.offsets2parents(tmp.offsets)
-
-            index = self.JaggedArray(tmp._starts, tmp._stops, (self.numpy.arange(tmp._stops[-1], dtype=self.INDEXTYPE) - tmp._starts[tmpparents]))
-
-            data = data.compact()
-            return self.copy(content=data._content[self.IndexedArray.invert((index + self._starts)._content)])
+            data = data._tojagged(self._starts, self.stops, copy=False)
+            return self.copy(starts=data._starts, stops=data._stops, content=data._content)
 
         elif isinstance(data, awkward0.array.base.AwkwardArray):
             if len(self._starts) != len(data):
-- 
2.43.0


From d07169395f03809720c3ee24670d5c903b591a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 019/195] fix: jagged boolean masks select the right elements
 for any layout of mask and array

---
 awkward0/array/jagged.py | 30 +++++-------------------------
 1 file changed, 5 insertions(+), 25 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index cfba783..2f4dbcf 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -561,33 +561,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 return self.copy(starts=head._starts, stops=head._stops, content=self._content[indexes])
 
             elif len(head.shape) == 1 and issubclass(head._content.dtype.type, (self.numpy.bool, self.numpy.bool_)):
-                try:
-                    offsets = self.offsets
-                    thyself = self
-
-                except ValueError:
-                    offsets = self.counts2offsets(self.counts.reshape(-1))
-                    thyself = self._tojagged(offsets[:-1], offsets[1:], copy=False)
-                    thyself._starts.shape = self._starts.shape
-                    thyself._stops.shape = self._stops.shape
-
-                head = head._tojagged(thyself._starts, thyself._stops, copy=False)
-                inthead = head.copy(content=head._content.astype(self.INDEXTYPE))
-                intheadsum = inthead.sum()
-
-                offsets = self.counts2offsets(intheadsum)
-
-                headcontent = self.numpy.array(head._content, dtype=self.BOOLTYPE)
-
-                headcontent_indices_to_ignore = self.numpy.resize(head.parents < 0, headcontent.shape)
-                headcontent_indices_to_ignore[len(head.parents):] = True
-                headcontent[headcontent_indices_to_ignore] = False
+                if not self.numpy.array_equal(self.counts, head.counts):
+                    raise ValueError("jagged array used as a mask has different counts from the jagged array it is selecting from")
 
-                original_headcontent_length = len(headcontent)
-                headcontent = self.numpy.resize(headcontent, thyself._content.shape)
-                headcontent[original_headcontent_length:] = False
+                headcontent = self.numpy.array(head.flatten(), dtype=self.BOOLTYPE)
+                offsets = self.counts2offsets(headcontent)[self.counts2offsets(self.counts)]
 
-                return self.copy(starts=offsets[:-1].reshape(intheadsum.shape), stops=offsets[1:].reshape(intheadsum.shape), content=thyself._content[headcontent])
+                return self.copy(starts=offsets[:-1], stops=offsets[1:], content=self.flatten()[headcontent])
 
             elif head.shape == self.shape and issubclass(head._content.dtype.type, (self.numpy.bool, self.numpy.bool_)):
                 index = self.localindex + self.starts
-- 
2.43.0


From cfe2d86456d554dd9213a810c0f17c9a67262a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:49 +0000
Subject: [PATCH 020/195] fix: doubly jagged masks and indexes follow the
 structure, not the memory layout, of the array

---
 awkward0/array/jagged.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 2f4dbcf..c57a15c 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -537,7 +537,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             head = head[0]
 
             if isinstance(self._content, JaggedArray) and isinstance(head._content, JaggedArray):
-                return self.copy(content=self._content[head._content])
+                if not self.numpy.array_equal(self.counts, head.counts):
+                    raise ValueError("doubly jagged array used as index has different counts from the jagged array it is selecting from")
+                return type(self).fromcounts(self.counts, self.flatten()[head.flatten()])
 
             elif self._util_isintegertype(head._content.dtype.type):
                 if len(head.shape) == 1 and head._starts.shape != self._starts.shape:
-- 
2.43.0


From 41bdadf40cb39be5e75ce73770d2f027de01aa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 021/195] fix: lists of positions and masks in a jagged
 subdimension

---
 awkward0/array/jagged.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index c57a15c..30d3177 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -703,15 +703,15 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                         if mask.any():
                             pluscounts = (index.reshape(-1, len(head)) + node.counts.reshape(-1, 1)).reshape(-1)
                             index[mask] = pluscounts[mask]
-                        if (index < 0).any() or (index.reshape(-1, len(head)) >= node.counts.reshape(-1, 1)).any():
+                        if (index < 0).any() or (index.reshape(len(node), len(head)) >= node.counts.reshape(-1, 1)).any():
                             raise IndexError("index in jagged subdimension is out of bounds")
-                        index = (index.reshape(-1, len(head)) + node._starts.reshape(-1, 1)).reshape(-1)
+                        index = (index.reshape(len(node), len(head)) + node._starts.reshape(-1, 1)).reshape(-1)
+                        shape = (len(node), len(head))
                         node = node._content[index]
                         if isinstance(node, JaggedArray):
-                            node._starts = node._starts.reshape(-1, len(head))
-                            node._stops = node._stops.reshape(-1, len(head))
+                            node = node.copy(starts=node._starts.reshape(shape), stops=node.stops.reshape(shape))
                         elif isinstance(node, self.numpy.ndarray):
-                            node = node.reshape(-1, len(head))
+                            node = node.reshape(shape + node.shape[1:])
                         else:
                             raise NotImplementedError
 
@@ -721,10 +721,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     else:
                         if len(node) != len(head):
                             raise IndexError("shape mismatch: indexing arrays could not be broadcast together with shapes {0} {1}".format(len(node), len(head)))
-                        index = head.copy() if head is original_head else head
+                        index = head.astype(self.INDEXTYPE)
                         mask = (index < 0)
                         if mask.any():
-                            index[mask] += head.counts
+                            index[mask] += node.counts[mask]
                         if (index < 0).any() or (index >= node.counts).any():
                             raise IndexError("index in jagged subdimension is out of bounds")
                         index += node._starts
@@ -741,13 +741,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                             raise IndexError("jagged subdimension is not regular and cannot match boolean shape {0}".format(len(head)))
                         head = self.numpy.nonzero(head)[0]
                         index = self.numpy.tile(head, len(node))
-                        index = (index.reshape(-1, len(node)) + node._starts.reshape(-1, 1)).reshape(-1)
+                        index = (index.reshape(len(node), len(head)) + node._starts.reshape(-1, 1)).reshape(-1)
+                        shape = (len(node), len(head))
                         node = node._content[index]
                         if isinstance(node, JaggedArray):
-                            node._starts = node._starts.reshape(-1, len(head))
-                            node._stops = node._stops.reshape(-1, len(head))
+                            node = node.copy(starts=node._starts.reshape(shape), stops=node.stops.reshape(shape))
                         elif isinstance(node, self.numpy.ndarray):
-                            node = node.reshape(-1, len(head))
+                            node = node.reshape(shape + node.shape[1:])
                         else:
                             raise NotImplementedError
 
-- 
2.43.0


From a225a4b8a6f2668bc88369ebd41a0bd0282ddbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 022/195] fix: backward slices of jagged dimensions with
 unsigned starts and stops

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 30d3177..5e7726e 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -623,7 +623,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if len(node) == 0:
                     return node
 
-                counts = node.stops - node._starts
+                counts = (node.stops - node._starts).astype(self.INDEXTYPE)
                 step = 1 if head.step is None else head.step
 
                 if step == 0:
-- 
2.43.0


From 046fd3bd96f042c20490629389e411a0c35ad640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 023/195] fix: no operation of an AppendableArray sees the
 unused end of its last chunk

---
 awkward0/array/chunked.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 69900dc..c03a734 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -853,6 +853,32 @@ class AppendableArray(ChunkedArray):
         else:
             return super(AppendableArray, self).__getitem__(where)
 
+    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
+        inputs = [x._filled() if isinstance(x, AppendableArray) else x for x in inputs]
+        return super(AppendableArray, self).__array_ufunc__(ufunc, method, *inputs, **kwargs)
+
+    @property
+    def counts(self):
+        return super(AppendableArray, self._filled()).counts
+
+    def boolmask(self, maskedwhen=True):
+        return super(AppendableArray, self._filled()).boolmask(maskedwhen=maskedwhen)
+
+    def flatten(self, axis=0):
+        return self.ChunkedArray(self._filled()._chunks).flatten(axis=axis)
+
+    def pad(self, length, maskedwhen=True, clip=False, axis=0):
+        return self.ChunkedArray(self._filled()._chunks).pad(length, maskedwhen=maskedwhen, clip=clip, axis=axis)
+
+    def regular(self):
+        return super(AppendableArray, self._filled()).regular()
+
+    def argmin(self):
+        return super(AppendableArray, self._filled()).argmin()
+
+    def argmax(self):
+        return super(AppendableArray, self._filled()).argmax()
+
     def _mine(self, overrides):
         mine = {}
         mine["chunkshape"] = overrides.pop("chunkshape", self._chunkshape)
-- 
2.43.0


From 6af3142ddaf6602a20ae3aaf49290c4e975028be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 024/195] fix: universal functions of a ChunkedArray without
 chunks, and with zero-dimensional arrays

---
 awkward0/array/chunked.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index c03a734..6f972ab 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -549,13 +549,19 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             # perhaps split at the largest possible slices such that all of them are one chunk each, and then unpack the single chunk after slicing
             raise ValueError("ChunkedArrays can only be combined if they have the same chunk sizes")
 
+        if len(first._chunks) == 0:
+            # a single empty chunk, so that the result is an empty array
+            empty = self.numpy.empty((0,) + first.shape[1:], dtype=first.dtype)
+            inputs = [self.ChunkedArray([empty]) if isinstance(x, ChunkedArray) else x for x in inputs]
+            first = self.ChunkedArray([empty])
+
         batches = []
         for i, slc in enumerate(first._slices()):
             batch = []
             for x in inputs:
                 if isinstance(x, ChunkedArray):
                     batch.append(x._chunks[i])
-                elif isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
+                elif isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)) and x.shape != ():
                     batch.append(x[slc])
                 else:
                     batch.append(x)
-- 
2.43.0


From 04e330c8a2a0c8315f97aeaef424198e99236e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:23 +0000
Subject: [PATCH 025/195] fix: type of an AppendableArray includes its inner
 dimensions

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 6f972ab..451091d 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -976,7 +976,7 @@ class AppendableArray(ChunkedArray):
         return self.JaggedArray.counts2offsets(self._chunksizes)
 
     def _gettype(self, seen):
-        return self._dtype
+        return awkward0.type._fromarray(self.numpy.empty((0,) + self._chunkshape[1:], dtype=self._dtype), {})
 
     def _util_layout(self, position, seen, lookup):
         positions = []
-- 
2.43.0


From 26f0d26a72290ac0d939c1f4ee8f5a578419844c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 026/195] fix: universal functions refuse to combine a
 ChunkedArray with an array of another length

---
 awkward0/array/chunked.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 451091d..a52fd9a 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -555,6 +555,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             inputs = [self.ChunkedArray([empty]) if isinstance(x, ChunkedArray) else x for x in inputs]
             first = self.ChunkedArray([empty])
 
+        for x in inputs:
+            if isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)) and x.shape != () and len(x) != len(first):
+                raise ValueError("cannot combine ChunkedArray of length {0} with array of length {1}".format(len(first), len(x)))
+
         batches = []
         for i, slc in enumerate(first._slices()):
             batch = []
-- 
2.43.0


From c56574d6b234afcb14c51792f429e6ba5e461c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:33 +0000
Subject: [PATCH 027/195] fix: universal functions of a MaskedArray whose
 content is longer than its mask

---
 awkward0/array/masked.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index bcd1e37..65a4c68 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -226,9 +226,10 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             if isinstance(inputs[i], IndexedMaskedArray):
                 inputs[i] = inputs[i]._content[inputs[i]._mask[tokeep]]
             elif isinstance(inputs[i], MaskedArray):
-                inputs[i] = inputs[i]._content[tokeep]
+                inputs[i] = inputs[i]._content[:len(tokeep)][tokeep]
             elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
-                inputs[i] = inputs[i][tokeep]
+                if inputs[i].shape != ():
+                    inputs[i] = inputs[i][tokeep]
             else:
                 try:
                     for first in inputs[i]:
-- 
2.43.0


From 578e53e521e9aa12d6c052a992eb33a481395da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:39 +0000
Subject: [PATCH 028/195] fix: universal functions of a JaggedArray and a
 zero-dimensional array

---
 awkward0/array/jagged.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 5e7726e..7645df8 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -977,6 +977,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         for i in range(len(inputs)):
             if isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)) and not isinstance(inputs[i], JaggedArray):
                 data = self._util_toarray(inputs[i], inputs[i].dtype)
+                if data.shape == ():
+                    continue
                 if starts.shape != data.shape:
                     raise ValueError("cannot broadcast JaggedArray of shape {0} with array of shape {1}".format(starts.shape, data.shape))
 
-- 
2.43.0


From 53d0a9b830c3af768b92d2ed4ca716c3fea95a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 029/195] fix: universal functions of a UnionArray and another
 array combine corresponding elements

---
 awkward0/array/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index ee9b8c6..ec4c162 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -388,7 +388,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             outtags[mask] = outtag
             outindex[mask] = self.numpy.arange(self.numpy.count_nonzero(mask))
 
-            result = getattr(ufunc, method)(*[x[mask] if isinstance(x, UnionArray) else x for x in inputs], **kwargs)
+            result = getattr(ufunc, method)(*[x[mask] if isinstance(x, awkward0.array.base.AwkwardArray) or (isinstance(x, self.numpy.ndarray) and len(x.shape) != 0) else x for x in inputs], **kwargs)
 
             if isinstance(result, tuple):
                 if out is None:
-- 
2.43.0


From 64a92bd9b0958015d8e4a4ae24fa258d6f9a508b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 030/195] fix: zero-dimensional arrays are recognised without
 asking other arrays for their shape

---
 awkward0/array/chunked.py | 4 ++--
 awkward0/array/jagged.py  | 2 +-
 awkward0/array/masked.py  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index a52fd9a..1f74e80 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -556,7 +556,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             first = self.ChunkedArray([empty])
 
         for x in inputs:
-            if isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)) and x.shape != () and len(x) != len(first):
+            if (isinstance(x, awkward0.array.base.AwkwardArray) or (isinstance(x, self.numpy.ndarray) and x.shape != ())) and len(x) != len(first):
                 raise ValueError("cannot combine ChunkedArray of length {0} with array of length {1}".format(len(first), len(x)))
 
         batches = []
@@ -565,7 +565,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             for x in inputs:
                 if isinstance(x, ChunkedArray):
                     batch.append(x._chunks[i])
-                elif isinstance(x, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)) and x.shape != ():
+                elif isinstance(x, awkward0.array.base.AwkwardArray) or (isinstance(x, self.numpy.ndarray) and x.shape != ()):
                     batch.append(x[slc])
                 else:
                     batch.append(x)
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 7645df8..c7f9533 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -977,7 +977,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         for i in range(len(inputs)):
             if isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)) and not isinstance(inputs[i], JaggedArray):
                 data = self._util_toarray(inputs[i], inputs[i].dtype)
-                if data.shape == ():
+                if isinstance(data, self.numpy.ndarray) and data.shape == ():
                     continue
                 if starts.shape != data.shape:
                     raise ValueError("cannot broadcast JaggedArray of shape {0} with array of shape {1}".format(starts.shape, data.shape))
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 65a4c68..d5ad26c 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -228,7 +228,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif isinstance(inputs[i], MaskedArray):
                 inputs[i] = inputs[i]._content[:len(tokeep)][tokeep]
             elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
-                if inputs[i].shape != ():
+                if not isinstance(inputs[i], self.numpy.ndarray) or inputs[i].shape != ():
                     inputs[i] = inputs[i][tokeep]
             else:
                 try:
-- 
2.43.0


From 98f9cc9140332281c09de58abe8a8b402278800b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 031/195] fix: ChunkedArray fancy indexing in any order gathers
 runs of chunks

---
 awkward0/array/chunked.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 1f74e80..8e1e24d 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -448,11 +448,11 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 chunkid, head = self.global2chunkid(head, return_normalized=True)
 
                 diff = (chunkid[1:] - chunkid[:-1])
-                if (diff >= 0).all():
+                if (diff >= 0).all() or not self._onlynumpy(self.type):
                     diff2 = self.numpy.empty(len(chunkid), dtype=self.INDEXTYPE)
                     diff2[0] = 1
                     diff2[1:] = diff
-                    mask = (diff2 > 0)
+                    mask = (diff2 != 0)
                     offsets = list(self.numpy.nonzero(mask)[0]) + [len(chunkid)]
                     chunks = []
                     for i, cid in enumerate(chunkid[mask]):
@@ -460,7 +460,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                         chunks.append(self._chunks[cid][(localindex,) + tail])
                     return self.copy(chunks=chunks)
 
-                elif self._onlynumpy(self.type):
+                else:
                     out = self.numpy.empty((len(head),) + self.type.shape[1:], dtype=self.type.dtype)
                     self.knowchunksizes(chunkid.max() + 1)
                     offsets = self.offsets
@@ -474,12 +474,6 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                     else:
                         return out[(slice(None),) + tail]
 
-                elif tail == ():
-                    return self.IndexedArray(head, self)
-
-                else:
-                    raise NotImplementedError
-
             elif len(head.shape) == 1 and issubclass(head.dtype.type, (self.numpy.bool, self.numpy.bool_)):
                 if len(self) != len(head):
                     raise IndexError("boolean index did not match indexed array along dimension 0; dimension is {0} but corresponding boolean dimension is {1}".format(len(self), len(head)))
-- 
2.43.0


From 1b90d275fbdd9229dc6f71f08284788dbc49ac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 032/195] fix: boolean masks that select nothing from a
 ChunkedArray keep its type

---
 awkward0/array/chunked.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 8e1e24d..99a97fe 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -486,6 +486,9 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                         if len(x) > 0:
                             chunks.append(x)
 
+                if len(chunks) == 0 and len(self._chunks) > 0:
+                    chunks.append(self._chunks[0][(slice(0, 0),) + tail])   # so that masked.type == self.type
+
                 return self.copy(chunks=chunks)
 
             else:
-- 
2.43.0


From b5eb970b4ffe041a85b03e87a31fb03e10246db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:21 +0000
Subject: [PATCH 033/195] fix: universal functions of jagged arrays and tables
 with virtual, indexed or sparse arrays

---
 awkward0/array/base.py    | 4 ++++
 awkward0/array/jagged.py  | 2 +-
 awkward0/array/objects.py | 2 +-
 awkward0/array/table.py   | 2 +-
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 477e5d0..63c262f 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -373,6 +373,10 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         import awkward0.array.virtual
         return awkward0.array.virtual.VirtualArray
 
+    def _util_deferufunc(self, inputs):
+        # these know how to replace themselves by the array they represent
+        return any(isinstance(x, (self.VirtualArray, self.IndexedArray, self.SparseArray)) for x in inputs)
+
     @classmethod
     def _util_isinteger(cls, x):
         return isinstance(x, (numbers.Integral, cls.numpy.integer)) and not isinstance(x, (bool, cls.numpy.bool_, cls.numpy.bool))
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index c7f9533..01b9400 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -928,7 +928,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if "out" in kwargs:
             raise NotImplementedError("in-place operations not supported")
 
-        if method != "__call__":
+        if method != "__call__" or self._util_deferufunc(inputs):
             return NotImplemented
 
         starts, stops = None, None
diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 826f410..b9e63ad 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -204,7 +204,7 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
         if "out" in kwargs:
             raise NotImplementedError("in-place operations not supported")
 
-        if method != "__call__":
+        if method != "__call__" or self._util_deferufunc(inputs):
             return NotImplemented
 
         contents = []
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index c20235b..21af903 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -670,7 +670,7 @@ class Table(awkward0.array.base.AwkwardArray):
         if "out" in kwargs:
             raise NotImplementedError("in-place operations not supported")
 
-        if method != "__call__":
+        if method != "__call__" or self._util_deferufunc(inputs):
             return NotImplemented
 
         inputsdict = None
-- 
2.43.0


From b420adfc74d99721c9304cbc23634ea7536fae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 034/195] fix: masked and union arrays combine with virtual,
 indexed and sparse arrays by what they represent

---
 awkward0/array/masked.py | 2 +-
 awkward0/array/union.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index d5ad26c..0a80a7b 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -207,7 +207,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         if "out" in kwargs:
             raise NotImplementedError("in-place operations not supported")
 
-        if method != "__call__":
+        if method != "__call__" or self._util_deferufunc(inputs):
             return NotImplemented
 
         tokeep = None
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index ec4c162..40931dc 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -362,7 +362,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         if "out" in kwargs:
             raise NotImplementedError("in-place operations not supported")
 
-        if method != "__call__":
+        if method != "__call__" or self._util_deferufunc(inputs):
             return NotImplemented
 
         tags = []
-- 
2.43.0


From 33a426482d99e40677210d1407ce70a20735ee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 035/195] fix: elementwise functions of arrays in chunks don't
 depend on the order of the operands

---
 awkward0/array/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 63c262f..ac89e67 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -374,8 +374,8 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         return awkward0.array.virtual.VirtualArray
 
     def _util_deferufunc(self, inputs):
-        # these know how to replace themselves by the array they represent
-        return any(isinstance(x, (self.VirtualArray, self.IndexedArray, self.SparseArray)) for x in inputs)
+        # these know how to replace themselves by the array they represent (or to split the others)
+        return any(isinstance(x, (self.VirtualArray, self.IndexedArray, self.SparseArray, self.ChunkedArray)) for x in inputs)
 
     @classmethod
     def _util_isinteger(cls, x):
-- 
2.43.0


From cc27e0992f3aa09cb980ce8763012a2627c090ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 036/195] fix: elementwise functions with several results give
 several Tables

---
 awkward0/array/table.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 21af903..38dc857 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -700,11 +700,11 @@ class Table(awkward0.array.base.AwkwardArray):
             newcolumns[n] = getattr(ufunc, method)(*x, **kwargs)
 
             if tuplelen is None:
-                if isinstance(x, tuple):
-                    tuplelen = len(x)
+                if isinstance(newcolumns[n], tuple):
+                    tuplelen = len(newcolumns[n])
                 else:
                     tuplelen = False
-            elif isinstance(x, tuple) != tuplelen:
+            elif (len(newcolumns[n]) if isinstance(newcolumns[n], tuple) else False) != tuplelen:
                 raise AssertionError("ufuncs return tuples of different lengths or some tuples and some non-tuples")
 
         assert len(newcolumns) != 0
@@ -735,7 +735,7 @@ class Table(awkward0.array.base.AwkwardArray):
             out = [table.empty_like() for i in range(tuplelen)]
             for n in inputsdict:
                 for i in range(tuplelen):
-                    out[i][n] = newcolumns[n]
+                    out[i][n] = newcolumns[n][i]
             return tuple(out)
 
     @property
-- 
2.43.0


From 55dc171e994a6d284ad26aeae626d84a796ff2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 037/195] fix: flat Tables are broadcast into lists of records
 on either side of an operator

---
 awkward0/array/table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 38dc857..145a2ed 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -673,6 +673,10 @@ class Table(awkward0.array.base.AwkwardArray):
         if method != "__call__" or self._util_deferufunc(inputs):
             return NotImplemented
 
+        if any(isinstance(x, self.JaggedArray) and len(x.columns) != 0 for x in inputs) and not any(isinstance(y, self.JaggedArray) for x in inputs if isinstance(x, Table) for y in x._contents.values()):
+            # the rows of the Table are broadcast into the lists of records
+            return NotImplemented
+
         inputsdict = None
         for x in inputs:
             if isinstance(x, Table):
-- 
2.43.0


From 9659ea38c3d986d5ad0ef147d5ae5624eb56eada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:20 +0000
Subject: [PATCH 038/195] fix: virtual and other non-Numpy columns of flat
 Tables are broadcast into lists

---
 awkward0/array/jagged.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 01b9400..6ce8570 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -999,6 +999,14 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                             content[n] = recurse(x[n])
                         return content
 
+                    elif isinstance(x, awkward0.array.base.AwkwardArray):
+                        if len(x) == 0:
+                            return x
+                        elif good is None:
+                            return x[parents]
+                        else:
+                            return x[self.numpy.where(good, parents, 0)]
+
                     elif good is None:
                         if len(x.shape) == 0:
                             content = self.numpy.full(len(parents), x, dtype=x.dtype)
-- 
2.43.0


From 53d32ab05d8123f38fcac7be9af757cc878a46fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:59 +0000
Subject: [PATCH 039/195] fix: elementwise functions of unions don't depend on
 the order of the operands

---
 awkward0/array/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index ac89e67..96c949a 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -375,7 +375,10 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
 
     def _util_deferufunc(self, inputs):
         # these know how to replace themselves by the array they represent (or to split the others)
-        return any(isinstance(x, (self.VirtualArray, self.IndexedArray, self.SparseArray, self.ChunkedArray)) for x in inputs)
+        classes = (self.VirtualArray, self.IndexedArray, self.SparseArray, self.ChunkedArray)
+        if not isinstance(self, (self.UnionArray, self.MaskedArray)):
+            classes += (self.UnionArray,)
+        return any(isinstance(x, classes) for x in inputs)
 
     @classmethod
     def _util_isinteger(cls, x):
-- 
2.43.0


From 98c991d1f5d01c7f8fe5c9cb9acf1b043b41254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:49 +0000
Subject: [PATCH 040/195] fix: empty views of a Table have empty columns

---
 awkward0/array/table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 145a2ed..11d2aed 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -460,6 +460,8 @@ class Table(awkward0.array.base.AwkwardArray):
 
         elif isinstance(self._view, tuple):
             start, step, length = self._view
+            if length == 0:
+                return slice(0, 0)
             stop = start + step*length
             if stop < 0:
                 stop = None
-- 
2.43.0


From 133a5aca8433f4e46c29400bda3167c7268ad81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:14 +0000
Subject: [PATCH 041/195] fix: Python lists combine with chunked and union
 arrays element by element

---
 awkward0/array/base.py    | 4 ++++
 awkward0/array/chunked.py | 2 ++
 awkward0/array/union.py   | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 96c949a..561c213 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -373,6 +373,10 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         import awkward0.array.virtual
         return awkward0.array.virtual.VirtualArray
 
+    def _util_ufunclists(self, inputs):
+        # Python lists are arrays, too
+        return [self.numpy.array(x) if isinstance(x, (list, tuple)) else x for x in inputs]
+
     def _util_deferufunc(self, inputs):
         # these know how to replace themselves by the array they represent (or to split the others)
         classes = (self.VirtualArray, self.IndexedArray, self.SparseArray, self.ChunkedArray)
diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 99a97fe..dd31bee 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -530,6 +530,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if method != "__call__":
             return NotImplemented
 
+        inputs = self._util_ufunclists(inputs)
+
         first = None
         rest = []
         for x in inputs:
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 40931dc..fc1b48a 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -365,6 +365,8 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         if method != "__call__" or self._util_deferufunc(inputs):
             return NotImplemented
 
+        inputs = self._util_ufunclists(inputs)
+
         tags = []
         for x in inputs:
             if isinstance(x, UnionArray):
-- 
2.43.0


From 4d1c0cb18445a12ca706071d1a7a9973e5383728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 042/195] fix: reductions skip missing values and NaN for every
 function, layout and view

---
 awkward0/array/base.py    |  73 +++++++++++++++++++++------
 awkward0/array/chunked.py |  64 ++++++++---------------
 awkward0/array/indexed.py |  33 +++---------
 awkward0/array/jagged.py  |  34 ++++++-------
 awkward0/array/masked.py  | 103 +++++++-------------------------------
 awkward0/array/table.py   |  28 +++++------
 awkward0/array/union.py   |  28 +++--------
 awkward0/array/virtual.py |  11 +---
 8 files changed, 138 insertions(+), 236 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 561c213..481dcda 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -219,7 +219,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
             if weight is None:
                 return self.numpy.true_divide((self**n).sum(), self.count())
             else:
-                return self.numpy.true_divide(((self * weight)**n).sum(), (self * 0 + weight).sum())
+                return self.numpy.true_divide((self**n * weight).sum(), (self * 0 + weight).sum())
 
     def mean(self, weight=None):
         with self.numpy.errstate(invalid="ignore"):
@@ -235,9 +235,9 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
                 one = self.numpy.true_divide(self.sum(), denom)
                 two = self.numpy.true_divide((self**2).sum(), denom)
             else:
-                denom (self * 0 + weight).sum()
+                denom = (self * 0 + weight).sum()
                 one = self.numpy.true_divide((self * weight).sum(), denom)
-                two = self.numpy.true_divide(((self * weight)**2).sum(), denom)
+                two = self.numpy.true_divide((self**2 * weight).sum(), denom)
             if ddof != 0:
                 return (two - one**2) * denom / (denom - ddof)
             else:
@@ -551,23 +551,64 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         if isinstance(array, AwkwardArray):
             return array._reduce(ufunc, identity, dtype)
 
-        elif len(array) == 0:
-            if dtype is None:
-                dtype = array.dtype
-            return ufunc.reduce(cls.numpy.full((1,) + array.shape[1:], identity, dtype=dtype), axis=-1)
-
+        array = cls._util_counted(array, ufunc)
+        if ufunc is None:
+            return cls.numpy.count_nonzero(~cls.numpy.isnan(array))
+        elif ufunc is cls.numpy.count_nonzero:
+            return cls.numpy.count_nonzero(array)
         else:
-            original = array
+            array = cls._util_nonan(array, identity)
             if dtype is not None:
-                array = cls.numpy.array(array, dtype=dtype, copy=False)
-            if issubclass(array.dtype.type, (cls.numpy.floating, cls.numpy.complexfloating)):
-                mask = cls.numpy.isnan(array)
-                if mask.any():
-                    if array is original or not array.flags.owndata:
-                        array = array.copy()
-                    array[mask] = identity
+                array = array.astype(dtype)
+            if len(array) == 0:
+                array = cls.numpy.full((1,) + array.shape[1:], cls._util_identity(identity, array.dtype), dtype=array.dtype)
             return ufunc.reduce(array, axis=None)
 
+    @classmethod
+    def _util_nonan(cls, array, identity):
+        if issubclass(array.dtype.type, (cls.numpy.floating, cls.numpy.complexfloating)):
+            mask = cls.numpy.isnan(array)
+            if mask.any():
+                return cls.numpy.where(mask, array.dtype.type(identity), array)
+        return array
+
+    @classmethod
+    def _util_counted(cls, array, ufunc):
+        # counting doesn't depend on the type of the numbers: only on which are NaN (to be skipped) and which are zero
+        if ufunc is None:
+            out = cls.numpy.zeros(array.shape, dtype=cls.numpy.float32)
+            out[cls.numpy.isnan(array)] = cls.numpy.nan
+            return out
+        elif ufunc is cls.numpy.count_nonzero:
+            return ((array != 0) & ~cls.numpy.isnan(array)).astype(cls.numpy.int8)
+        else:
+            return array
+
+    @classmethod
+    def _util_identity(cls, identity, dtype):
+        if identity == cls.numpy.inf:
+            if issubclass(dtype.type, (cls.numpy.bool_, cls.numpy.bool)):
+                return True
+            elif cls._util_isintegertype(dtype.type):
+                return cls.numpy.iinfo(dtype.type).max
+        elif identity == -cls.numpy.inf:
+            if issubclass(dtype.type, (cls.numpy.bool_, cls.numpy.bool)):
+                return False
+            elif cls._util_isintegertype(dtype.type):
+                return cls.numpy.iinfo(dtype.type).min
+        return identity
+
+    @classmethod
+    def _util_prepare(cls, array, ufunc, identity, dtype):
+        if isinstance(array, AwkwardArray):
+            return array._prepare(ufunc, identity, dtype)
+        if dtype is None and issubclass(array.dtype.type, (cls.numpy.bool_, cls.numpy.bool)):
+            dtype = cls.numpy.dtype(type(identity))
+        if dtype is None:
+            return array
+        else:
+            return cls._util_nonan(array, identity).astype(dtype)
+
     @classmethod
     def _util_concatenate(cls, arrays):
         if all(isinstance(x, cls.numpy.ndarray) for x in arrays):
diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index dd31bee..5046b4a 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -693,36 +693,22 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             if self._chunksizes[chunkid] > 0:
                 return self._util_hasjagged(self._chunks[chunkid])
         else:
-            return False
+            return len(self._chunks) != 0 and self._util_hasjagged(self._chunks[0])
 
     def _reduce(self, ufunc, identity, dtype):
         self.knowchunksizes()
         self._valid()
 
         if self._util_hasjagged(self):
-            chunks = []
-            for chunkid, chunk in enumerate(self._chunks):
-                this = chunk._reduce(ufunc, identity, dtype)
-                if len(this) > 0:
-                    chunks.append(this)
-            return self.copy(chunks=chunks)
-
-        out = None
-        for chunkid, chunk in enumerate(self._chunks):
-            if self._chunksizes[chunkid] > 0:
-                this = self._util_reduce(chunk[:self._chunksizes[chunkid]], ufunc, identity, dtype)
-                if out is None:
-                    out = this
-                else:
-                    out = ufunc(out, this)
-
-        if out is None:
-            if dtype is None:
-                return identity
-            else:
-                return dtype.type(identity)
+            return self.copy(chunks=[self._util_reduce(chunk[:chunksize], ufunc, identity, dtype) for chunk, chunksize in zip(self._chunks, self._chunksizes)])
         else:
-            return out
+            results = [self._util_reduce(chunk[:chunksize], ufunc, identity, dtype) for chunk, chunksize in zip(self._chunks, self._chunksizes) if chunksize > 0]
+            if len(results) != 0 and all(isinstance(x, (self.numpy.generic, int, float)) for x in results):
+                if ufunc is None or ufunc is self.numpy.count_nonzero:
+                    ufunc = self.numpy.add
+                return ufunc.reduce(self.numpy.array(results))
+            else:
+                return self._util_reduce(self._prepare(ufunc, identity, dtype), ufunc, identity, dtype)
 
     def argmin(self):
         if self._util_hasjagged(self):
@@ -744,28 +730,18 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def _prepare(self, ufunc, identity, dtype):
         self.knowchunksizes()
-        out = None
-        pos = 0
-        for chunkid, chunk in enumerate(self._chunks):
-            if self._chunksizes[chunkid] > 0:
-                this = chunk[:self._chunksizes[chunkid]]
-                if out is None:
-                    if dtype is None and issubclass(this.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                        dtype = self.numpy.dtype(type(identity))
-                    if dtype is None:
-                        dtype = this.dtype
-                    out = self.numpy.empty((sum(self._chunksizes),) + this.shape[1:], dtype=dtype)
-
-                newpos = pos + this.shape[0]
-                out[pos:newpos] = this
-                pos = newpos
-
-        if out is None:
-            if dtype is None:
-                dtype = self.DEFAULTTYPE
-            return self.numpy.array([identity], dtype=dtype)
+        if len(self._chunks) == 0:
+            return self.numpy.empty(0, dtype=(self.DEFAULTTYPE if dtype is None else dtype))
+        chunks = [chunk[:chunksize] for chunk, chunksize in zip(self._chunks, self._chunksizes) if chunksize > 0]
+        if len(chunks) == 0:
+            chunks = [self._chunks[0][:0]]
+        prepared = [self._util_prepare(chunk, ufunc, identity, dtype) for chunk in chunks]
+        if len(prepared) == 1:
+            return prepared[0]
+        elif all(isinstance(x, self.numpy.ndarray) for x in prepared):
+            return self.numpy.concatenate(prepared)
         else:
-            return out
+            return awkward0.array.base.AwkwardArray.concatenate(prepared)
 
     def _util_columns(self, seen):
         if id(self) in seen:
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index bfc4c90..424a5b4 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -256,26 +256,14 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)
-            return out._reduce(ufunc, identity, dtype)
+            return self._content._mapcolumns(lambda x: self.copy(content=x))._reduce(ufunc, identity, dtype)
 
         else:
             prepared = self._prepare(ufunc, identity, dtype)
-            if ufunc is None:
-                return (1 - self.numpy.isnan(prepared)).sum()
-            elif ufunc is self.numpy.count_nonzero:
-                return (1 - (prepared == 0)).sum()
-            if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
-            return ufunc.reduce(prepared)
+            return self._util_reduce(prepared, ufunc, identity, dtype)
 
     def _prepare(self, ufunc, identity, dtype):
-        if isinstance(self._content, self.numpy.ndarray):
-            return self._content[self._index]
-        else:
-            return self._content._prepare(ufunc, identity, dtype)[self._index]
+        return self._util_prepare(self._content, ufunc, identity, dtype)[self._index]
 
     def argmin(self):
         return self._content[self._index].argmin()
@@ -745,24 +733,15 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)
-            return out._reduce(ufunc, identity, dtype)
+            return self._content._mapcolumns(lambda x: self.copy(content=x))._reduce(ufunc, identity, dtype)
 
         else:
             prepared = self._prepare(ufunc, identity, dtype)
-            if ufunc is None:
-                return (1 - self.numpy.isnan(prepared)).sum()
-            elif ufunc is self.numpy.count_nonzero:
-                return (1 - (prepared == 0)).sum()
-            if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
-            return ufunc.reduce(prepared)
+            return self._util_reduce(prepared, ufunc, identity, dtype)
 
     def _prepare(self, ufunc, identity, dtype):
         if isinstance(self._content, self.numpy.ndarray):
-            return self.dense
+            return self._util_prepare(self.dense, ufunc, identity, dtype)
         else:
             return self.copy(content=self._content._prepare(ufunc, identity, dtype)).dense
 
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 6ce8570..c3f3f52 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1454,43 +1454,37 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents=[])
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)._reduce(ufunc, identity, dtype)
-            return out
+            return self._content._mapcolumns(lambda x: self.copy(content=x)._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.base.AwkwardArray):
             thyself = self.copy(content=self._content._prepare(ufunc, identity, dtype))
 
-        elif len(self._content.shape) > 1:
+        else:
+            thyself = self.copy()
+
+        if isinstance(thyself._content, awkward0.array.table.Table):
+            return thyself._content._mapcolumns(lambda x: thyself.copy(content=x)._reduce(ufunc, identity, dtype))
+
+        if len(thyself._content.shape) > 1:
             if ufunc is None:
                 ufunc = self.numpy.add
-                if issubclass(self._content.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                    content = 1 - self.numpy.isnan(self._content).astype(self.INDEXTYPE)
+                if issubclass(thyself._content.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
+                    content = 1 - self.numpy.isnan(thyself._content).astype(self.INDEXTYPE)
                 else:
-                    content = self.numpy.ones(self._content.shape, dtype=self.INDEXTYPE)
+                    content = self.numpy.ones(thyself._content.shape, dtype=self.INDEXTYPE)
 
             elif ufunc is self.numpy.count_nonzero:
+                content = self._util_counted(thyself._content, ufunc).astype(self.INDEXTYPE)
                 ufunc = self.numpy.add
-                content = 1 - (self._content == 0).astype(self.INDEXTYPE)
 
             else:
-                content = self._content
+                content = self._util_nonan(thyself._content, identity)
 
             if dtype is not None:
                 content = content.astype(dtype)
 
             return self.copy(content=ufunc.reduce(content, axis=-1))
 
-        else:
-            thyself = self.copy()
-
-        if isinstance(thyself._content, awkward0.array.table.Table):
-            out = thyself._content.copy(contents=[])
-            for n, x in thyself._content._contents.items():
-                out[n] = thyself.copy(content=x)._reduce(ufunc, identity, dtype)
-            return out
-
         if len(thyself._starts.shape) > 1:
             thyself._starts = thyself._starts.reshape(-1)
             thyself._stops = thyself._stops.reshape(-1)
@@ -1508,8 +1502,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 content = self.numpy.ones(content.shape, dtype=self.INDEXTYPE)
 
         elif ufunc is self.numpy.count_nonzero:
+            content = self._util_counted(content, ufunc).astype(self.INDEXTYPE)
             ufunc = self.numpy.add
-            content = 1 - (content == 0).astype(self.INDEXTYPE)
 
         elif issubclass(content.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
             mask = self.numpy.isnan(content)
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 0a80a7b..aba475d 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -322,68 +322,33 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._content._reduce(ufunc, identity, dtype))
 
         elif isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)
-            return out._reduce(ufunc, identity, dtype)
+            return self._content._mapcolumns(lambda x: self.copy(content=x))._reduce(ufunc, identity, dtype)
 
         else:
             prepared = self._prepare(ufunc, identity, dtype)
-            if ufunc is None:
-                return (1 - self.numpy.isnan(prepared)).sum()
-            elif ufunc is self.numpy.count_nonzero:
-                return (1 - (prepared == 0)).sum()
-            if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-                prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
-            return ufunc.reduce(prepared)
+            return self._util_reduce(prepared, ufunc, identity, dtype)
 
     def _prepare(self, ufunc, identity, dtype):
-        if isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)._prepare(ufunc, identity, dtype)
-            return out
-
-        if isinstance(self._content, self.numpy.ndarray):
-            if dtype is None and issubclass(self._content.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                dtype = self.numpy.dtype(type(identity))
-            if ufunc is None:
-                content = self.numpy.zeros(self._content.shape, dtype=self.numpy.float32)
-                content[self.numpy.isnan(self._content)] = self.numpy.nan
-            elif ufunc is self.numpy.count_nonzero:
-                content = self.numpy.ones(self._content.shape, dtype=self.numpy.int8)
-                content[self.numpy.isnan(self._content)] = 0
-                content[self._content == 0] = 0
-            elif dtype is None:
-                content = self._content
-            else:
-                content = self._content.astype(dtype)
-        else:
-            content = self._content._prepare(ufunc, identity, dtype)
-
-        if content is self._content or not content.flags.owndata:
-            content = content.copy()
+        content = self._util_prepare(self._content, ufunc, identity, dtype)
+        if isinstance(content, awkward0.array.table.Table):
+            return content._mapcolumns(lambda x: self.copy(content=x)._prepare(ufunc, identity, dtype))
 
+        content = self._util_counted(content, ufunc)
         if ufunc is None:
-            content[self.ismasked] = self.numpy.nan
-
+            identity = self.numpy.nan
+        elif ufunc is self.numpy.count_nonzero:
+            identity = 0
         else:
-            dtype = content.dtype
-
-            if identity == self.numpy.inf:
-                if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                    identity = True
-                elif self._util_isintegertype(dtype.type):
-                    identity = self.numpy.iinfo(dtype.type).max
-            elif identity == -self.numpy.inf:
-                if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                    identity = False
-                elif self._util_isintegertype(dtype.type):
-                    identity = self.numpy.iinfo(dtype.type).min
+            identity = self._util_identity(identity, content.dtype)
 
-            content[self.ismasked] = identity
+        unmasked = self.boolmask(maskedwhen=False)
+        out = self.numpy.full((len(self),) + content.shape[1:], identity, dtype=content.dtype)
+        out[unmasked] = content[self._where(unmasked)]
+        return out
 
-        return content
+    def _where(self, selection):
+        # where the selected elements are in the content
+        return self.numpy.nonzero(selection)[0]
 
     def argmin(self):
         if self._util_hasjagged(self):
@@ -865,38 +830,8 @@ class IndexedMaskedArray(MaskedArray):
     def indexed(self):
         return self
 
-    def _prepare(self, ufunc, identity, dtype):
-        if isinstance(self._content, awkward0.array.table.Table):
-            out = self._content.copy(contents={})
-            for n, x in self._content._contents.items():
-                out[n] = self.copy(content=x)._prepare(ufunc, identity, dtype)
-            return out
-
-        if isinstance(self._content, self.numpy.ndarray):
-            if dtype is None and issubclass(self._content.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                dtype = self.numpy.dtype(type(identity))
-            if dtype is None:
-                content = self._content
-            else:
-                content = self._content.astype(dtype)
-        else:
-            content = self._content._prepare(ufunc, identity, dtype)
-
-        if identity == self.numpy.inf:
-            if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                identity = True
-            elif self._util_isintegertype(dtype.type):
-                identity = self.numpy.iinfo(dtype.type).max
-
-        elif identity == -self.numpy.inf:
-            if issubclass(dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                identity = False
-            elif self._util_isintegertype(dtype.type):
-                identity = self.numpy.iinfo(dtype.type).min
-
-        out = self.numpy.full(self._mask.shape + content.shape[1:], identity, dtype=content.dtype)
-        out[self.isunmasked] = content[self.mask[self.mask >= 0]]
-        return out
+    def _where(self, selection):
+        return self._mask[selection]
 
     def argmin(self):
         if self._util_hasjagged(self):
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 11d2aed..b617e01 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -334,6 +334,17 @@ class Table(awkward0.array.base.AwkwardArray):
             out._contents = OrderedDict(self._contents.items())
         return out
 
+    def _mapcolumns(self, fcn):
+        # the same kind of Table (not a view) with new columns, made from the rows that this Table shows
+        out = self.copy(contents={})
+        out._view = None
+        out._base = None
+        out._rowstart = None
+        index = self._index()
+        for n, x in self._contents.items():
+            out[n] = fcn(x[index])
+        return out
+
     def deepcopy(self, contents=None):
         out = self.copy(contents=contents)
         out._contents = OrderedDict([(n, self._util_deepcopy(x[out._index()])) for n, x in out._contents.items()])
@@ -837,10 +848,7 @@ class Table(awkward0.array.base.AwkwardArray):
 
     def _reduce(self, ufunc, identity, dtype):
         if self._hasjagged():
-            out = self.copy(contents={})
-            for n, x in self._contents.items():
-                out[n] = self._util_reduce(x, ufunc, identity, dtype)
-            return out
+            return self._mapcolumns(lambda x: self._util_reduce(x, ufunc, identity, dtype))
 
         else:
             out = self.Table.named({
@@ -860,17 +868,7 @@ class Table(awkward0.array.base.AwkwardArray):
             return out.Row(out, 0)
 
     def _prepare(self, ufunc, identity, dtype):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
-            if isinstance(x, self.numpy.ndarray):
-                if dtype is None and issubclass(x.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                    dtype = self.numpy.dtype(type(identity))
-                if dtype is not None:
-                    x = x.astype(dtype)
-            else:
-                x = x._prepare(ufunc, identity, dtype)
-            out[n] = x
-        return out
+        return self._mapcolumns(lambda x: self._util_prepare(x, ufunc, identity, dtype))
 
     def argmin(self):
         raise TypeError("cannot call argmin on Table")
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index fc1b48a..04ff4c7 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -496,34 +496,22 @@ class UnionArray(awkward0.array.base.AwkwardArray):
 
     def _reduce(self, ufunc, identity, dtype):
         prepared = self._prepare(ufunc, identity, dtype)
-        if ufunc is None:
-            return (1 - self.numpy.isnan(prepared)).sum()
-        elif ufunc is self.numpy.count_nonzero:
-            return (1 - (prepared == 0)).sum()
-        if issubclass(prepared.dtype.type, (self.numpy.floating, self.numpy.complexfloating)):
-            prepared = self.numpy.where(self.numpy.isnan(prepared), identity, prepared)
-        return ufunc.reduce(prepared)
+        return self._util_reduce(prepared, ufunc, identity, dtype)
 
     def _prepare(self, ufunc, identity, dtype):
-        if dtype is None and issubclass(self.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-            dtype = self.numpy.dtype(type(identity))
-        if dtype is None:
-            dtype = self.dtype
+        contents = [self._util_prepare(content, ufunc, identity, dtype) for content in self._contents]
+        if not all(isinstance(content, self.numpy.ndarray) for content in contents):
+            raise TypeError("cannot reduce a UnionArray of non-primitive type")
 
-        out = None
+        contents = [self._util_counted(content, ufunc) for content in contents]
         index = self._index[:len(self._tags)]
-        for tag, content in enumerate(self._contents):
-            if not isinstance(content, self.numpy.ndarray):
-                content = content._prepare(ufunc, identity, dtype)
-
-            if not isinstance(content, self.numpy.ndarray):
-                raise TypeError("cannot reduce a UnionArray of non-primitive type")
-
+        out = None
+        for tag, content in enumerate(contents):
             mask = (self._tags == tag)
             c = content[index[mask]]
 
             if out is None:
-                out = self.numpy.full(self._tags.shape[:1] + c.shape[1:], identity, dtype=dtype)
+                out = self.numpy.empty(self._tags.shape[:1] + c.shape[1:], dtype=self.numpy.result_type(*contents))
             out[mask] = c
 
         return out
diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 4ff21c3..9af135d 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -452,16 +452,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         return self._util_reduce(self.array, ufunc, identity, dtype)
 
     def _prepare(self, ufunc, identity, dtype):
-        array = self.array
-        if isinstance(array, self.numpy.ndarray):
-            if dtype is None and issubclass(array.dtype.type, (self.numpy.bool_, self.numpy.bool)):
-                dtype = self.numpy.dtype(type(identity))
-            if dtype is None:
-                return array
-            else:
-                return array.astype(dtype)
-        else:
-            return array._prepare(ufunc, identity, dtype)
+        return self._util_prepare(self.array, ufunc, identity, dtype)
 
     def argmin(self):
         return self.array.argmin()
-- 
2.43.0


From c12b273e83890aa30f13de1b61e5d0a9484fd323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:36 +0000
Subject: [PATCH 043/195] fix: parents2startsstops of no elements and with a
 given length

---
 awkward0/array/jagged.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index c3f3f52..c664d4a 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -72,7 +72,6 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def parents2startsstops(cls, parents, length=None):
-        # FIXME for 1.0: use length to add empty lists at the end of the jagged array or truncate
         # assumes that children are contiguous, but not necessarily in order or fully covering (allows empty lists)
         tmp = cls.numpy.nonzero(parents[1:] != parents[:-1])[0] + 1
         changes = cls.numpy.empty(len(tmp) + 2, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
@@ -80,15 +79,17 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         changes[-1] = len(parents)
         changes[1:-1] = tmp
 
-        length = parents.max() + 1 if len(parents) > 0 else 0
+        if length is None:
+            length = max(int(parents.max()) + 1, 0) if len(parents) > 0 else 0
         starts = cls.numpy.zeros(length, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
         counts = cls.numpy.zeros(length, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
 
-        where = parents[changes[:-1]]
-        real = (where >= 0)
+        if len(parents) > 0:
+            where = parents[changes[:-1]]
+            real = (where >= 0) & (where < length)
 
-        starts[where[real]] = (changes[:-1])[real]
-        counts[where[real]] = (changes[1:] - changes[:-1])[real]
+            starts[where[real]] = (changes[:-1])[real]
+            counts[where[real]] = (changes[1:] - changes[:-1])[real]
 
         return starts, starts + counts
 
@@ -174,7 +175,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise ValueError("parents array must be one-dimensional with the same length as content")
         starts, stops = cls.parents2startsstops(parents, length=length)
         out = cls(starts, stops, content)
-        out._parents = parents
+        if length is None:
+            out._parents = parents
         return out
 
     @classmethod
-- 
2.43.0


From 09b19351c39908bfed04558a5048b5774cdba6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:41 +0000
Subject: [PATCH 044/195] fix: jagged arrays with fixed outer dimensions are
 not described by offsets

---
 awkward0/array/jagged.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index c664d4a..3639d39 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -33,6 +33,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         else:
             stops_base = cls._util_toarray(stops.base, cls.INDEXTYPE)
         return (isinstance(starts, cls.numpy.ndarray) and isinstance(stops, cls.numpy.ndarray) and
+                len(starts.shape) == 1 and len(stops.shape) == 1 and
                 starts_base is not None and stops_base is not None and starts_base is stops_base and
                 starts.ctypes.data == starts_base.ctypes.data and
                 stops.ctypes.data == stops_base.ctypes.data + stops.dtype.itemsize and
@@ -1381,13 +1382,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         else:
             offsets = self.counts2offsets(self.counts.reshape(-1))
             if len(self._starts.shape) == 1:
-                tmp = self
-            else:                                                # no underscore!
-                tmp = self.JaggedArray(self._starts.reshape(-1), self.stops.reshape(-1), self._content)
-            out = tmp._tojagged(offsets[:-1], offsets[1:], copy=False)
-            out.starts.shape = self._starts.shape
-            out.stops.shape = self._starts.shape  # intentional: self._stops can too long
-            return out
+                return self._tojagged(offsets[:-1], offsets[1:], copy=False)
+            else:
+                return self.copy(starts=offsets[:-1].reshape(self._starts.shape), stops=offsets[1:].reshape(self._starts.shape), content=self.flatten())
 
     def flattentuple(self):
         return self.copy(content=self._util_flattentuple(self._content))
@@ -1418,7 +1415,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     out = self
                 else:
                     out = self.JaggedArray(self._starts.reshape(-1), self.stops.reshape(-1), self._content)
-                return out._tojagged(offsets[:-1], offsets[1:], copy=False)._content
+                return out._tojagged(offsets[:-1], offsets[1:], copy=False)._content[:offsets[-1]]
 
     def structure1d(self, levellimit=None):
         if len(self._starts) > len(self._stops):
-- 
2.43.0


From 2e286241121ee34e4ffa1014d928d6fafc96f3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 045/195] fix: regular() of an empty array, and of arrays with
 elements that no list refers to

---
 awkward0/array/jagged.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 3639d39..669d741 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1046,19 +1046,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def regular(self):
         self._valid()
 
-        if len(self) > 0 and not (self.counts.reshape(-1)[0] == self.counts).all():
+        counts = self.counts.reshape(-1)
+        if not (counts[:1] == counts).all():
             raise ValueError("jagged array is not regular: different elements have different counts")
-        count = self.counts.reshape(-1)[0]
-        content = self._util_regular(self._content)
-
-        if self._canuseoffset():
-            out = content[self._starts[0]:self.stops[-1]]
-            return out.reshape(self._starts.shape + (count,) + content.shape[1:])
-
-        else:
-            indexes = self.numpy.repeat(self._starts, awkward0.util.windows_safe(count)).reshape(self._starts.shape + (count,))
-            indexes += self.numpy.arange(count)
-            return content[indexes]
+        count = int(counts[0]) if len(counts) > 0 else 0
+        content = self._util_regular(self.flatten())
+        return content.reshape(self._starts.shape + (count,) + content.shape[1:])
 
     def _argpairs(self):
         self._valid()
-- 
2.43.0


From 08f9e6903187102bd84aa6ee7d6e322d3d8b6613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:51 +0000
Subject: [PATCH 046/195] fix: flatten(axis=1) of lists that don't start at the
 beginning of their content

---
 awkward0/array/jagged.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 669d741..ecd5dd7 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1390,12 +1390,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=self._util_flatten(self._content, axis - 1))
 
         elif axis == 1:
-            self = self.compact()
-            innercounts = self._util_counts(self._content)
+            content = self.flatten()
+            innercounts = self._util_counts(content)
             if (innercounts < 0).any():
                 raise ValueError("cannot flatten an array containing scalar values")
             counts = self.JaggedArray.fromcounts(self.counts, innercounts).sum()
-            return type(self).fromcounts(counts, self._util_flatten(self._content, axis - 1))
+            return type(self).fromcounts(counts, self._util_flatten(content, axis - 1))
 
         else:
             if len(self) == 0:
-- 
2.43.0


From e50047dfd6d7cc14deca23d90f47b59a0f5a908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:56 +0000
Subject: [PATCH 047/195] fix: structure1d of lists of records, of no lists,
 and with spare stops

---
 awkward0/array/jagged.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index ecd5dd7..6607ba6 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1420,17 +1420,17 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             levellimit = -1
 
         out = self
-        if levellimit != 0 and isinstance(self._content, awkward0.array.base.AwkwardArray):
+        if levellimit != 0 and isinstance(self._content, JaggedArray):
             out = self.copy(content=self._content.structure1d(levellimit - 1))
 
         while len(out._starts.shape) > 1:
             last = out._starts.shape[-1]
             length = functools.reduce(operator.mul, out._starts.shape[:-1], 1)
-            offsets = self.numpy.arange(0, (length + 1)*last, last)
-            outerstarts = offsets[:-1].reshape(out._starts.shape[:-2] + (-1,))
-            outerstops = offsets[1:].reshape(out._stops.shape[:-2] + (-1,))
+            offsets = self.numpy.arange(length + 1, dtype=self.INDEXTYPE) * last
+            outerstarts = offsets[:-1].reshape(out._starts.shape[:-1])
+            outerstops = offsets[1:].reshape(out._starts.shape[:-1])
             innerstarts = out._starts.reshape(-1)
-            innerstops = out._stops.reshape(-1)
+            innerstops = out.stops.reshape(-1)
             out = self.copy(starts=outerstarts, stops=outerstops, content=self.copy(starts=innerstarts, stops=innerstops, content=out._content))
 
         return out
-- 
2.43.0


From 8919d4f6d10e6e94da9409be3314b6be929d887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 048/195] fix: refuse an empty array of offsets

---
 awkward0/array/jagged.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 6607ba6..1e04203 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -152,6 +152,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             # If offsets is already a view, the base will not be offsets but its underlying base.
             # Make a copy to prevent that
             offsets = offsets.copy()
+        if len(offsets) == 0:
+            raise ValueError("offsets must be a non-empty array")
         return cls(offsets[:-1], offsets[1:], content)
 
     @classmethod
-- 
2.43.0


From 7608153065766e69d8dd4549b4eb6ffec177194d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:20 +0000
Subject: [PATCH 049/195] fix: count combinations in INDEXTYPE, whatever the
 type of the starts and stops

---
 awkward0/array/jagged.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 1e04203..8324dd7 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1058,13 +1058,14 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _argpairs(self):
         self._valid()
 
-        counts = self.counts * (self.counts + 1) >> 1    # N * (N + 1) // 2
+        listcounts = self.counts.astype(self.INDEXTYPE)
+        counts = listcounts * (listcounts + 1) >> 1    # N * (N + 1) // 2
 
         offsets = self.counts2offsets(counts)
         indexes = self.numpy.arange(offsets[-1])
         parents = self.offsets2parents(offsets)
 
-        n = self.counts[parents]
+        n = listcounts[parents]
         k = indexes - offsets[parents]
         two_n_1 = (2*n + 1)
         i = self.numpy.floor((two_n_1 - self.numpy.sqrt(two_n_1*two_n_1 - 8*k)) / 2).astype(self.INDEXTYPE)
@@ -1079,7 +1080,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         return out
 
     def _argdistincts(self, absolute):
-        counts_comb = self.counts*(self.counts - 1) // 2
+        listcounts = self.counts.astype(self.INDEXTYPE)
+        counts_comb = listcounts*(listcounts - 1) // 2
         offsets_comb = self.counts2offsets(counts_comb)
         parents_comb = self.offsets2parents(offsets_comb)
         local_indices = self.numpy.arange(offsets_comb[-1]) - offsets_comb[parents_comb]
@@ -1099,7 +1101,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         # To find j, we can subtract L from our local indices to get the index
         # from zero of the inner loop, then add i + 1.
 
-        n = self.counts[parents_comb]
+        n = listcounts[parents_comb]
         b = 2*n - 1
         i = self.numpy.floor((b - self.numpy.sqrt(b*b - 8*local_indices)) / 2).astype(counts_comb.dtype)
         j = local_indices + i*(i - b + 2) // 2 + 1
@@ -1115,6 +1117,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def _argchoose(self, n, absolute):
         np = self.numpy
+        listcounts = self.counts.astype(self.INDEXTYPE)
 
         def root2(a):
             return np.floor((1+np.sqrt(8*a+1))/2).astype(self.INDEXTYPE)
@@ -1138,13 +1141,13 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             # I think the next levels should be too, but could not quite make it work...
             raise NotImplementedError
         elif n == 5:
-            counts = self.counts*(self.counts - 1)*(self.counts - 2)*(self.counts - 3)*(self.counts - 4)//120
+            counts = listcounts*(listcounts - 1)*(listcounts - 2)*(listcounts - 3)*(listcounts - 4)//120
         elif n == 4:
-            counts = self.counts*(self.counts - 1)*(self.counts - 2)*(self.counts - 3)//24
+            counts = listcounts*(listcounts - 1)*(listcounts - 2)*(listcounts - 3)//24
         elif n == 3:
-            counts = self.counts*(self.counts - 1)*(self.counts - 2)//6
+            counts = listcounts*(listcounts - 1)*(listcounts - 2)//6
         elif n == 2:
-            counts = self.counts*(self.counts - 1)//2
+            counts = listcounts*(listcounts - 1)//2
         elif n <= 1:
             raise ValueError("Choosing 0 or 1 items is trivial")
 
@@ -1240,7 +1243,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         out = self._argdistincts(absolute=False)
 
         if nested:
-            out = self.JaggedArray.fromcounts(self.numpy.maximum(0, self.counts - 1), self.JaggedArray.fromcounts(self.localindex[:, :0:-1].flatten(), out._content))
+            out = self.JaggedArray.fromcounts(self.numpy.maximum(1, self.counts) - 1, self.JaggedArray.fromcounts(self.localindex[:, :0:-1].flatten(), out._content))
 
         return out
 
@@ -1260,7 +1263,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         out._parents = argpairs._parents
 
         if nested:
-            out = self.JaggedArray.fromcounts(self.numpy.maximum(0, self.counts - 1), self.JaggedArray.fromcounts(self.localindex[:, :0:-1].flatten(), out._content))
+            out = self.JaggedArray.fromcounts(self.numpy.maximum(1, self.counts) - 1, self.JaggedArray.fromcounts(self.localindex[:, :0:-1].flatten(), out._content))
 
         return out
 
@@ -1296,7 +1299,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         if len(self) != len(other):
             raise ValueError("both JaggedArrays must have the same length")
 
-        offsets = self.counts2offsets(self.counts * other.counts)
+        offsets = self.counts2offsets(self.counts.astype(self.INDEXTYPE) * other.counts.astype(self.INDEXTYPE))
         indexes = self.numpy.arange(offsets[-1], dtype=self.INDEXTYPE)
         parents = self.offsets2parents(offsets)
 
-- 
2.43.0


From 831ad3e9e85d05a623535fe0ecec8b39172d0452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:28 +0000
Subject: [PATCH 050/195] fix: nested cross of lists that share elements

---
 awkward0/array/jagged.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 8324dd7..aa7dbda 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -834,6 +834,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             if len(self._starts) == 0:
                 return self.copy(content=data._content)
 
+            if self._overlapping():
+                self = self.compact()
             data = data._tojagged(self._starts, self.stops, copy=False)
             return self.copy(starts=data._starts, stops=data._stops, content=data._content)
 
@@ -842,11 +844,15 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 raise ValueError("cannot broadcast AwkwardArray to match JaggedArray with a different length")
             if len(self._starts) == 0:
                 return self.copy(content=data)
+            if self._overlapping():
+                self = self.compact()
             out = self.copy(content=data[self.parents])
             out._parents = self.parents
             return out
 
         elif isinstance(data, self.numpy.ndarray):
+            if self._overlapping():
+                self = self.compact()
             content = self.numpy.empty(len(self.parents), dtype=data.dtype)
             if len(data.shape) == 0 or (len(data.shape) == 1 and data.shape[0] == 1):
                 content[:] = data
@@ -863,6 +869,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         else:
             return self.tojagged(self.numpy.array([data]))
 
+    def _overlapping(self):
+        # an element that belongs to more than one list can only be given one value
+        return not self._canuseoffset() and self.numpy.count_nonzero(self.parents >= 0) != self.counts.sum()
+
     def _tojagged(self, starts=None, stops=None, copy=True):
         if starts is None and stops is None:
             if copy:
@@ -1323,7 +1333,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         out["1"] = out["1"] - other._starts
 
         if nested:
-            out = self.JaggedArray.fromcounts(self.counts, self.JaggedArray.fromcounts(self.tojagged(other.counts).flatten(), out._content))
+            out = self.JaggedArray.fromcounts(self.counts, self.JaggedArray.fromcounts(self.numpy.repeat(other.counts, awkward0.util.windows_safe(self.counts)), out._content))
 
         return out
 
@@ -1344,7 +1354,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         if nested:
             old = out
-            out = self.JaggedArray.fromcounts(thyself.counts, self.JaggedArray.fromcounts(thyself.tojagged(other.counts).flatten(), out._content))
+            out = self.JaggedArray.fromcounts(thyself.counts, self.JaggedArray.fromcounts(self.numpy.repeat(other.counts, awkward0.util.windows_safe(thyself.counts)), out._content))
             out._nestedcross = old
 
         if hasattr(self, "_nestedcross"):
@@ -1352,7 +1362,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             mask = (self.counts != 0)
             counts[mask] //= self.counts[mask]
             old = out
-            out = self.JaggedArray.fromcounts(self.counts, self.JaggedArray.fromcounts(self.tojagged(counts).flatten(), out._content))
+            out = self.JaggedArray.fromcounts(self.counts, self.JaggedArray.fromcounts(self.numpy.repeat(counts, awkward0.util.windows_safe(self.counts)), out._content))
             out._nestedcross = old
 
         return out
-- 
2.43.0


From a841f8d1885877a1d216599d8c8d96b4201bd2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 051/195] fix: argsort of jagged arrays whose starts are small
 or unsigned integers

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index aa7dbda..3e883db 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1602,7 +1602,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         reducer = self.JaggedArray.min if ascending else self.JaggedArray.max
         localindex = self.localindex
         out = localindex.empty_like()
-        next_start = self.numpy.zeros_like(out.starts)
+        next_start = self.numpy.zeros(out.starts.shape, dtype=self.INDEXTYPE)
         tmp = self.copy()
         while tmp.content.size > 0:
             best = reducer(tmp) == tmp
-- 
2.43.0


From e45e488607604754a11d53d52eaf3aa3558b4e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:04 +0000
Subject: [PATCH 052/195] fix: argmin and argmax of masked arrays point at the
 extremum of the elements that are present

---
 awkward0/array/masked.py | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index aba475d..6d8010b 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -351,18 +351,18 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
         return self.numpy.nonzero(selection)[0]
 
     def argmin(self):
-        if self._util_hasjagged(self):
+        if self._util_hasjagged(self._content):
             return self.copy(content=self._content.argmin())
         else:
-            index = self._content[self.isunmasked()].argmin()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            unmasked = self.boolmask(maskedwhen=False)
+            return self.numpy.nonzero(unmasked)[0][self._content[self._where(unmasked)].argmin()]
 
     def argmax(self):
-        if self._util_hasjagged(self):
+        if self._util_hasjagged(self._content):
             return self.copy(content=self._content.argmax())
         else:
-            index = self._content[self.isunmasked()].argmax()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
+            unmasked = self.boolmask(maskedwhen=False)
+            return self.numpy.nonzero(unmasked)[0][self._content[self._where(unmasked)].argmax()]
 
     def fillna(self, value):
         out = self._util_fillna(self._content, value)
@@ -833,20 +833,6 @@ class IndexedMaskedArray(MaskedArray):
     def _where(self, selection):
         return self._mask[selection]
 
-    def argmin(self):
-        if self._util_hasjagged(self):
-            return self.copy(content=self._content.argmin())
-        else:
-            index = self._content[self._mask[self.isunmasked()]].argmin()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
-
-    def argmax(self):
-        if self._util_hasjagged(self):
-            return self.copy(content=self._content.argmax())
-        else:
-            index = self._content[self._mask[self.isunmasked()]].argmax()
-            return self.numpy.searchsorted(self.numpy.cumsum(self.ismasked()), index, side="right")
-
     def fillna(self, value):
         out = self._util_fillna(self._content, value)
         if not isinstance(out, self.numpy.ndarray):
-- 
2.43.0


From 6a669da5e5d17eca6f208b05a481a5f208f2c62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 053/195] fix: argmin and argmax of chunked arrays with empty
 chunks or chunks that are longer than declared

---
 awkward0/array/chunked.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 5046b4a..8baba22 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -712,21 +712,27 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def argmin(self):
         if self._util_hasjagged(self):
-            return self.copy(chunks=[x.argmin() for x in self._chunks], chunksizes=self._chunksizes)
+            self.knowchunksizes()
+            return self.copy(chunks=[chunk[:chunksize].argmin() for chunk, chunksize in zip(self._chunks, self._chunksizes)], chunksizes=list(self._chunksizes))
         else:
-            indexes = [x.argmin() for x in self._chunks]
-            chunkid = self.numpy.argmin([x[i] for i, x in zip(indexes, self._chunks)])
-            self.knowchunksizes(chunkid)
-            return self.offsets[chunkid] + indexes[chunkid]
+            self.knowchunksizes()
+            nonempty = self.numpy.nonzero(self._chunksizes)[0]
+            chunks = [self._chunks[i][:self._chunksizes[i]] for i in nonempty]
+            indexes = [x.argmin() for x in chunks]
+            which = self.numpy.argmin([x[i] for i, x in zip(indexes, chunks)])
+            return self.offsets[nonempty[which]] + indexes[which]
 
     def argmax(self):
         if self._util_hasjagged(self):
-            return self.copy(chunks=[x.argmax() for x in self._chunks], chunksizes=self._chunksizes)
+            self.knowchunksizes()
+            return self.copy(chunks=[chunk[:chunksize].argmax() for chunk, chunksize in zip(self._chunks, self._chunksizes)], chunksizes=list(self._chunksizes))
         else:
-            indexes = [x.argmax() for x in self._chunks]
-            chunkid = self.numpy.argmax([x[i] for i, x in zip(indexes, self._chunks)])
-            self.knowchunksizes(chunkid)
-            return self.offsets[chunkid] + indexes[chunkid]
+            self.knowchunksizes()
+            nonempty = self.numpy.nonzero(self._chunksizes)[0]
+            chunks = [self._chunks[i][:self._chunksizes[i]] for i in nonempty]
+            indexes = [x.argmax() for x in chunks]
+            which = self.numpy.argmax([x[i] for i, x in zip(indexes, chunks)])
+            return self.offsets[nonempty[which]] + indexes[which]
 
     def _prepare(self, ufunc, identity, dtype):
         self.knowchunksizes()
-- 
2.43.0


From c0366bb246f4f31e3fc75cc0f9299f992ad5bb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:30 +0000
Subject: [PATCH 054/195] fix: the type of a chunked array whose chunks are all
 empty is that of its chunks

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 8baba22..548c9b7 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -223,7 +223,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 if tpe is not None and not (isinstance(tpe, tuple) and len(tpe) == 0):
                     break
             else:
-                tpe = self.DEFAULTTYPE
+                tpe = self.DEFAULTTYPE if len(self._chunks) == 0 else awkward0.type.fromarray(self._chunks[0]).to
 
         for i in range(len(self._types)):
             if self._types[i] is None or (isinstance(self._types[i], tuple) and len(self._types[i]) == 0) or self._types[i] is tpe:
-- 
2.43.0


From d5c975a5e469addd6ac2d39a6cffe30814f0033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:26 +0000
Subject: [PATCH 055/195] fix: fillna changed the data of the array it was
 called on

---
 awkward0/array/base.py   |  2 +-
 awkward0/array/masked.py | 13 +++++--------
 awkward0/array/table.py  |  5 +----
 3 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 481dcda..3d37e1e 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -696,7 +696,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
     @classmethod
     def _util_fillna(cls, array, value):
         if isinstance(array, cls.numpy.ndarray):
-            data = cls.numpy.ma.getdata(array)
+            data = cls.numpy.array(cls.numpy.ma.getdata(array))
             mask = cls.numpy.ma.getmask(array)
             if mask is not cls.numpy.ma.nomask:
                 data[mask] = value
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 6d8010b..e4c5f91 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -365,7 +365,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.numpy.nonzero(unmasked)[0][self._content[self._where(unmasked)].argmax()]
 
     def fillna(self, value):
-        out = self._util_fillna(self._content, value)
+        out = self._util_fillna(self._content[:len(self)], value)
         if not isinstance(out, self.numpy.ndarray):
             out = self.numpy.array(out)
         out[self.boolmask(maskedwhen=True)] = value
@@ -837,13 +837,10 @@ class IndexedMaskedArray(MaskedArray):
         out = self._util_fillna(self._content, value)
         if not isinstance(out, self.numpy.ndarray):
             out = self.numpy.array(out)
-        out = self.numpy.append(out, value)
-        if (self.mask < -1).any():
-            mask = self.mask.copy()
-            mask[mask < -1] = -1
-        else:
-            mask = self.mask
-        return out[mask]
+        filled = self.numpy.empty((len(out) + 1,) + out.shape[1:], dtype=self.numpy.append(out[:0], value).dtype)
+        filled[:-1] = out
+        filled[-1] = value
+        return filled[self.numpy.where(self.boolmask(maskedwhen=True), -1, self._mask)]
 
     @classmethod
     def _concatenate_axis0(cls, arrays):
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index b617e01..14a5802 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -889,10 +889,7 @@ class Table(awkward0.array.base.AwkwardArray):
         return out
 
     def fillna(self, value):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
-            out[n] = self._util_fillna(x, value)
-        return out
+        return self._mapcolumns(lambda x: self._util_fillna(x, value))
 
     @classmethod
     def _concatenate_axis0(cls, tables):
-- 
2.43.0


From 29d2db656d69dbe4c76d1cafffce2f3e2d44154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:33 +0000
Subject: [PATCH 056/195] fix: padding to zero elements, padding fixed-size
 dimensions, strings, and views of tables

---
 awkward0/array/base.py    | 36 +++---------------------------------
 awkward0/array/jagged.py  |  5 +++--
 awkward0/array/objects.py | 15 +++------------
 awkward0/array/table.py   |  5 +----
 4 files changed, 10 insertions(+), 51 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 3d37e1e..ca8c205 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -504,40 +504,10 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         elif len(array.shape) == 1:
             raise ValueError("pad cannot be applied to scalars")
 
-        elif length == 0 and clip:
-            if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
-                return cls.JaggedArray.fget(None).fromoffsets([0], cls.numpy.ma.array([]))
-            else:
-                return cls.JaggedArray.fget(None).fromoffsets([0], cls.MaskedArray.fget(None)([], []))
-
-        elif array.shape[1] > length and clip:
-            offsets = cls.numpy.arange(0, length*(len(array) + 1), length, dtype=cls.INDEXTYPE)
-            content = array[(slice(None), slice(length)) + array.shape[2:]]
-            if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
-                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.numpy.ma.array(content.reshape((-1,) + array.shape[2:])))
-            else:
-                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.MaskedArray.fget(None).fromcontent(content.reshape((-1,) + array.shape[2:]), maskedwhen=maskedwhen))
-
-        elif array.shape[1] >= length:
-            offsets = cls.numpy.arange(0, array.shape[1]*(len(array) + 1), array.shape[1], dtype=cls.INDEXTYPE)
-            if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
-                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.numpy.ma.array(array.reshape((-1,) + array.shape[2:])))
-            else:
-                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.MaskedArray.fget(None).fromcontent(array.reshape((-1,) + array.shape[2:]), maskedwhen=maskedwhen))
-
         else:
-            offsets = cls.numpy.arange(0, length*(len(array) + 1), length, dtype=cls.INDEXTYPE)
-            content = cls.numpy.empty(array.shape[:1] + (length,) + array.shape[2:], dtype=array.dtype)
-            content[:, :array.shape[1]] = array
-            if isinstance(maskedwhen, cls.numpy.ma.core.MaskedConstant):
-                mask = cls.numpy.ones(len(array), dtype=cls.MASKTYPE)
-                return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.numpy.ma.array(content.reshape((-1,) + array.shape[2:]), mask=mask))
-            if maskedwhen:
-                mask = cls.numpy.ones((len(array), length), dtype=cls.MASKTYPE)
-            else:
-                mask = cls.numpy.zeros((len(array), length), dtype=cls.MASKTYPE)
-            mask[:, :array.shape[1]] = not maskedwhen
-            return cls.JaggedArray.fget(None).fromoffsets(offsets, cls.MaskedArray.fget(None)(mask.reshape((-1,) + array.shape[2:]), content.reshape((-1,) + array.shape[2:]), maskedwhen=maskedwhen))
+            offsets = array.shape[1] * cls.numpy.arange(len(array) + 1, dtype=cls.INDEXTYPE)
+            content = array.reshape((offsets[-1],) + array.shape[2:])
+            return cls.JaggedArray.fget(None).fromoffsets(offsets, content).pad(length, maskedwhen=maskedwhen, clip=clip, axis=axis)
 
     @classmethod
     def _util_regular(cls, array):
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 3e883db..0b2d9c7 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1849,7 +1849,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         flatstarts = self._starts.reshape(-1)
 
         if len(self._content) == 0:
-            offsets = self.numpy.arange(0, length*len(flatstarts) + 1, length)
+            offsets = length*self.numpy.arange(len(flatstarts) + 1, dtype=self.INDEXTYPE)
             starts, stops = offsets[:-1], offsets[1:]
             content = self.IndexedMaskedArray(self.numpy.full(length*len(flatstarts), -1, dtype=self.INDEXTYPE), self._content, maskedwhen=-1)
             return self.copy(starts=starts.reshape(self._starts.shape), stops=stops.reshape(self._starts.shape), content=content)
@@ -1860,7 +1860,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             localindex = index - almostflat
             index = index.reshape(-1)
             comparator = self.counts.reshape(-1, 1)
-            offsets = self.numpy.arange(0, length*len(flatstarts) + 1, length, dtype=self.INDEXTYPE)
+            offsets = length*self.numpy.arange(len(flatstarts) + 1, dtype=self.INDEXTYPE)
 
         else:
             counts = self.numpy.maximum(self.counts.reshape(-1), length)
@@ -1886,6 +1886,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         stops = offsets[1:].reshape((-1,) + self._starts.shape[1:])
 
         if isinstance(maskedwhen, self.numpy.ma.core.MaskedConstant):
+            mask = self.numpy.broadcast_to(mask.reshape((-1,) + (1,)*(len(content.shape) - 1)), content.shape)
             return self.copy(starts=starts, stops=stops, content=self.numpy.ma.MaskedArray(content, mask))
         else:
             return self.copy(starts=starts, stops=stops, content=self.MaskedArray(mask, content, maskedwhen=maskedwhen))
diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index b9e63ad..93eb770 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -665,18 +665,9 @@ class StringArray(StringMethods, ObjectArray):
             raise TypeError("to pad a StringArray, set maskedwhen to a one-character bytestring, such as b' '")
         else:
             maskedwhen = ord(maskedwhen)
-        import awkward0.array.jagged
-        import awkward0.array.masked
-        padded = self._util_pad(self._content, length, True, clip)
-        assert isinstance(padded, awkward0.array.jagged.JaggedArray)
-        assert isinstance(padded.content, awkward0.array.masked.MaskedArray)
-        if padded.content.content is self._content.content:
-            chars = padded.content.content.copy()
-        else:
-            chars = padded.content.content
-        chars[padded.content.mask] = maskedwhen
-        padded.content = chars
-        return self.fromjagged(padded, self._encoding)
+        padded = self._content.pad(length, clip=clip)
+        chars = padded.content.fillna(maskedwhen).astype(self.CHARTYPE)
+        return self.fromjagged(padded.copy(content=chars), self._encoding)
 
     # @awkward0.util.bothmethod
     # def concatenate(isclassmethod, cls_or_self, arrays, axis=0):
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 14a5802..5ca7d28 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -793,10 +793,7 @@ class Table(awkward0.array.base.AwkwardArray):
         raise ValueError("cannot flatten through a Table")
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
-            out[n] = self._util_pad(x, length, maskedwhen, clip, axis)
-        return out
+        return self._mapcolumns(lambda x: self._util_pad(x, length, maskedwhen, clip, axis))
 
     def regular(self):
         self._valid()
-- 
2.43.0


From 1169de96ce5ac614ef47f1d4e17dd310c64648b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 057/195] fix: BitMaskedArray.fromcontent masked all but every
 eighth element with maskedwhen=False

---
 awkward0/array/masked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index e4c5f91..0a359c7 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -407,7 +407,7 @@ class BitMaskedArray(MaskedArray):
         if maskedwhen:
             mask = cls.numpy.zeros(cls._ceildiv8(len(content)), dtype=cls.BITMASKTYPE)
         else:
-            mask = cls.numpy.ones(cls._ceildiv8(len(content)), dtype=cls.BITMASKTYPE)
+            mask = cls.numpy.full(cls._ceildiv8(len(content)), 255, dtype=cls.BITMASKTYPE)
         return cls(mask, content, maskedwhen=maskedwhen, lsborder=lsborder)
 
     @classmethod
-- 
2.43.0


From 85b022992c34200b0197616aaf3c6ceb36477968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:46 +0000
Subject: [PATCH 058/195] fix: counts, regular and flatten of masked arrays

---
 awkward0/array/masked.py | 41 +++++++++-------------------------------
 1 file changed, 9 insertions(+), 32 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 0a359c7..c77614a 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -257,9 +257,9 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
     def counts(self):
         self._valid()
         content = self._util_counts(self._content)
-        out = self.numpy.full(self.shape, -1, dtype=content.dtype)
+        out = self.numpy.full((len(self),) + content.shape[1:], -1, dtype=self.INDEXTYPE)
         mask = self.boolmask(maskedwhen=False)
-        out[mask] = content[mask]
+        out[mask] = content[self._where(mask)]
         return out
 
     def choose(self, n):
@@ -291,8 +291,10 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def flatten(self, axis=0):
         mask = self.boolmask(maskedwhen=False)
-        goodcontent = self._content[mask]
+        goodcontent = self._content[self._where(mask)]
         content = self._util_flatten(goodcontent, axis)
+        if axis > 0:
+            return content
         counts = self._util_counts(goodcontent)
         counts[counts < 0] = 1
         augcounts = self.numpy.ones(len(self), dtype=self.INDEXTYPE)
@@ -308,8 +310,10 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def regular(self):
         self._valid()
-        out = self._util_regular(self._content).astype(self.numpy.float64)
-        out[self.boolmask(maskedwhen=True)] = float("nan")
+        mask = self.boolmask(maskedwhen=False)
+        content = self._util_regular(self._content[self._where(mask)]).astype(self.numpy.float64)
+        out = self.numpy.full((len(self),) + content.shape[1:], float("nan"), dtype=content.dtype)
+        out[mask] = content
         return out
 
     def indexed(self):
@@ -800,33 +804,6 @@ class IndexedMaskedArray(MaskedArray):
             else:
                 return self.copy(mask=maskindex)
 
-    @property
-    def counts(self):
-        self._valid()
-        out = self._util_counts(self._content)[self._index]
-        out[self.boolmask(maskedwhen=True)] = -1
-        return out
-
-    def flatten(self, axis=0):
-        mask = self.boolmask(maskedwhen=False)
-        goodcontent = self._content[self._mask[self._mask >= 0]]
-        content = self._util_flatten(goodcontent, axis)
-        counts = self._util_counts(goodcontent)
-        counts[counts < 0] = 1
-        augcounts = self.numpy.ones(len(self), dtype=self.INDEXTYPE)
-        augcounts[mask] = counts
-        augparents = self.JaggedArray.offsets2parents(self.JaggedArray.counts2offsets(augcounts))
-        augmask = mask[augparents]
-        index = self.numpy.cumsum(augmask) - 1
-        index[~augmask] = -1
-        return self.IndexedMaskedArray(index, content)
-
-    def regular(self):
-        self._valid()
-        out = self._util_regular(self._content).astype(self.numpy.float64)[self._index]
-        out[self.boolmask(maskedwhen=True)] = float("nan")
-        return out
-
     def indexed(self):
         return self
 
-- 
2.43.0


From 3538ce3e658a9a8fa7e2c21cc9134ba5b0702095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:51 +0000
Subject: [PATCH 059/195] fix: counts, boolmask and regular of unions with
 spare elements in the index

---
 awkward0/array/union.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 04ff4c7..578665b 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -430,7 +430,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = self.numpy.empty(len(self), self.uniondtype(arrays))
         for tag, array in enumerate(arrays):
             mask = (self._tags == tag)
-            out[mask] = array[self._index[mask]]
+            out[mask] = array[self._index[:len(self._tags)][mask]]
         return out
 
     def boolmask(self, maskedwhen=True):
@@ -439,7 +439,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = self.numpy.empty(len(self), self.MASKTYPE)
         for tag, array in enumerate(arrays):
             mask = (self._tags == tag)
-            out[mask] = array[self._index[mask]]
+            out[mask] = array[self._index[:len(self._tags)][mask]]
         return out
 
     def choose(self, n):
@@ -482,7 +482,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         out = self.numpy.empty(len(self), self.uniondtype(arrays))
         for tag, array in enumerate(arrays):
             mask = (self._tags == tag)
-            out[mask] = array[self._index[mask]]
+            out[mask] = array[self._index[:len(self._tags)][mask]]
         return out
 
     def _hasjagged(self):
-- 
2.43.0


From da39ab7de91729e5335035920090030c16a61e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:24 +0000
Subject: [PATCH 060/195] fix: padding inner lists of a jagged array that is
 not compact

---
 awkward0/array/jagged.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 0b2d9c7..592f124 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1844,7 +1844,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise TypeError("axis must be a non-negative integer (can't count from the end)")
 
         if axis > 0:
-            return type(self).fromcounts(self.counts, self._util_pad(self._content, length, maskedwhen, clip, axis - 1))
+            return type(self).fromcounts(self.counts, self._util_pad(self.flatten(), length, maskedwhen, clip, axis - 1))
 
         flatstarts = self._starts.reshape(-1)
 
-- 
2.43.0


From d36d64d09ee547adc861bf9cf445a1ebf8e024e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 061/195] fix: counts, boolmask and regular of chunked arrays
 with empty chunks or no chunks

---
 awkward0/array/chunked.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 548c9b7..3fb0af3 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -609,10 +609,19 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     @property
     def counts(self):
-        return self.numpy.concatenate([self._util_counts(x) for x in self._chunks])
+        return self._concatenatechunks(self._util_counts, self.numpy.empty(0, dtype=self.INDEXTYPE))
 
     def boolmask(self, maskedwhen=True):
-        return self.numpy.concatenate([self._util_boolmask(x, maskedwhen) for x in self._chunks])
+        return self._concatenatechunks(lambda x: self._util_boolmask(x, maskedwhen), self.numpy.empty(0, dtype=self.MASKTYPE))
+
+    def _concatenatechunks(self, fcn, ifempty):
+        # empty chunks would only contribute their dtype and inner shape
+        self.knowchunksizes()
+        results = [fcn(chunk[:chunksize]) for chunk, chunksize in zip(self._chunks, self._chunksizes) if chunksize > 0]
+        if len(results) == 0:
+            return ifempty if len(self._chunks) == 0 else fcn(self._chunks[0][:0])
+        else:
+            return self.numpy.concatenate(results)
 
     def choose(self, n):
         out = self.copy(chunks=[x.choose(n) for x in self._chunks])
@@ -685,7 +694,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def regular(self):
         self._valid()
-        return self.numpy.concatenate([self._util_regular(x) for x in self._chunks])
+        return self._concatenatechunks(self._util_regular, self.numpy.empty(0, dtype=self.DEFAULTTYPE))
 
     def _hasjagged(self):
         for chunkid in range(len(self._chunks)):
-- 
2.43.0


From 18e01d211ae1eec1ad56c244de4e2d649e9a1d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:12 +0000
Subject: [PATCH 062/195] fix: converting arrays with fixed-size inner
 dimensions to Numpy

---
 awkward0/array/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index ca8c205..183acd9 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -67,7 +67,8 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         if dtype is None:
             dtype = self.dtype
 
-        out = self.numpy.empty(len(self), dtype=dtype)
+        shape = self.shape if self.dtype != self.numpy.dtype(self.numpy.object_) else (len(self),)
+        out = self.numpy.empty(shape, dtype=dtype)
         for i, x in enumerate(self):
             out[i] = x
         return out
-- 
2.43.0


From 15e436813dd5e6b95e24b42fcf410e065b8addfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:33 +0000
Subject: [PATCH 063/195] fix: an empty chunked array converts to an empty
 Numpy array of its own type

---
 awkward0/array/chunked.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 3fb0af3..51a87ee 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -292,13 +292,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         self._checktonumpy()
 
         if isinstance(self.type.to, self.numpy.dtype):
-            if len(self) == 0:
-                return self.numpy.empty(0, dtype=self.DEFAULTTYPE)
-            else:
-                out = self.numpy.empty(self.shape, dtype=self.dtype)
-                for chunk, slc in zip(self._chunks, self._slices()):
-                    out[slc] = chunk
-                return out
+            out = self.numpy.empty(self.shape, dtype=self.dtype)
+            for chunk, slc in zip(self._chunks, self._slices()):
+                out[slc] = chunk
+            return out
         else:
             return super(ChunkedArray, self).__array__(*args, **kwargs)
 
-- 
2.43.0


From de497c1cf6fb43af9eecdf9aaab872b81b68de29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:20 +0000
Subject: [PATCH 064/195] fix: arrays of different types concatenate as a
 union, wherever they are nested

---
 awkward0/array/base.py    | 23 ++++++++++++-----------
 awkward0/array/objects.py |  8 +++++++-
 awkward0/array/table.py   |  8 +-------
 3 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 183acd9..993a122 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -582,10 +582,10 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
 
     @classmethod
     def _util_concatenate(cls, arrays):
-        if all(isinstance(x, cls.numpy.ndarray) for x in arrays):
-            return cls.numpy.concatenate(arrays)
-        else:
-            return arrays[0].concatenate(arrays[1:])
+        return AwkwardArray.concatenate(arrays)
+
+    def _util_concatenatekey(self):
+        return None
 
     @bothmethod
     def concatenate(isclassmethod, cls_or_self, arrays, axis=0):
@@ -599,17 +599,18 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
             cls = type(self)
             arrays = (self,) + tuple(arrays)
 
-        def resolve(t):
-            for b in t.__bases__:
-                if issubclass(t, AwkwardArray):
-                    return resolve(b)
-            else:
-                return t
+        def resolve(x):
+            # arrays can be concatenated with arrays that share their implementation
+            if not isinstance(x, AwkwardArray):
+                return cls.numpy.ndarray
+            for t in type(x).__mro__:
+                if "_concatenate_axis0" in t.__dict__:
+                    return t, x._util_concatenatekey()
 
         if all(type(x) == cls.numpy.ndarray for x in arrays):
             return cls.numpy.concatenate(arrays, axis=axis)
 
-        if not all(resolve(type(x)) == resolve(type(arrays[0])) for x in arrays):
+        if not all(resolve(x) == resolve(arrays[0]) for x in arrays):
             if axis == 0:
                 tags = cls.numpy.concatenate([cls.numpy.full(len(x), i, dtype=cls.TAGTYPE) for i, x in enumerate(arrays)])
                 return cls.UnionArray.fget(None).fromtags(tags, arrays)
diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 93eb770..b73817d 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -283,9 +283,12 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
     @classmethod
     def _concatenate_axis0(cls, arrays):
         out = arrays[0].copy(content=[])
-        out._content = arrays[0]._content.__class__.concatenate([a._content for a in arrays])
+        out._content = cls._util_concatenate([a._content for a in arrays])
         return out
 
+    def _util_concatenatekey(self):
+        return self._generator, self._args, sorted(self._kwargs.items())
+
     _topandas_name = "ObjectSeries"
 
     def _topandas(self, seen):
@@ -690,6 +693,9 @@ class StringArray(StringMethods, ObjectArray):
         assert all(isinstance(x, StringArray) for x in arrays)
         return cls.fromjagged(cls.JaggedArray.fget(None)._concatenate_axis0([x._content for x in arrays]), encoding=arrays[0]._encoding)
 
+    def _util_concatenatekey(self):
+        return self._encoding
+
     @classmethod
     def _concatenate_axis1(cls, arrays):
         assert all(isinstance(x, StringArray) for x in arrays)
diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 5ca7d28..d19e239 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -897,13 +897,7 @@ class Table(awkward0.array.base.AwkwardArray):
         out = tables[0].deepcopy(contents=OrderedDict())
 
         for n in tables[0]._contents:
-            content_type = type(tables[0]._contents[n])
-            if content_type == cls.numpy.ndarray:
-                concatenate = cls.numpy.concatenate
-            else:
-                concatenate = content_type.concatenate
-
-            out._contents[n] = concatenate([t[n] for t in tables], axis=0)
+            out._contents[n] = cls._util_concatenate([t[n] for t in tables])
 
         out._valid()
         return out
-- 
2.43.0


From da8f583f8158f8ec685ceef8e300f675c0e5fb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:27 +0000
Subject: [PATCH 065/195] fix: concatenating jagged arrays with spare stops or
 a small integer type of starts

---
 awkward0/array/indexed.py |  2 +-
 awkward0/array/jagged.py  | 22 ++++++++--------------
 2 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 424a5b4..76bd110 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -278,7 +278,7 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
         indexes = []
         offset = 0
         for x in arrays:
-            indexes.append(x._index + offset)
+            indexes.append(x._index.astype(cls.INDEXTYPE) + offset)
             offset += len(x._content)
         index = cls.numpy.concatenate(indexes)
 
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 592f124..d359d4e 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1623,21 +1623,15 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def _concatenate_axis0(cls, arrays):
-        starts = cls.numpy.concatenate([x._starts for x in arrays])
-        stops = cls.numpy.concatenate([x._stops for x in arrays])
-        content = cls._util_concatenate([x._content for x in arrays])
+        starts, stops = [], []
+        offset = 0
+        for x in arrays:
+            starts.append(x._starts.astype(cls.INDEXTYPE) + offset)
+            stops.append(x.stops.astype(cls.INDEXTYPE) + offset)
+            offset += len(x._content)
 
-        startsi = 0
-        contenti = 0
-        for i, array in enumerate(arrays):
-            if i != 0:
-                startsstart, startsstop = startsi, startsi + len(array._starts)
-                starts[startsstart:startsstop] += contenti
-                stops[startsstart:startsstop] += contenti
-            startsi += len(array._starts)
-            contenti += len(array._content)
-
-        return cls(starts, stops, content)
+        content = cls._util_concatenate([x._content for x in arrays])
+        return cls(cls.numpy.concatenate(starts), cls.numpy.concatenate(stops), content)
 
     @classmethod
     def _concatenate_axis1(cls, arrays):
-- 
2.43.0


From 2bb19c48a6324f10c5eecd4340bee9c24b848744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:34 +0000
Subject: [PATCH 066/195] fix: concatenating masked arrays of every kind, and
 with more content than mask

---
 awkward0/array/masked.py | 43 ++++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index c77614a..9068c8c 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -378,9 +378,25 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
     @classmethod
     def _concatenate_axis0(cls, arrays):
         assert all(isinstance(x, MaskedArray) for x in arrays)
-        mask = cls.numpy.concatenate([x.boolmask(maskedwhen=True) for x in arrays])
-        content = awkward0.array.base.AwkwardArray.concatenate([x._content for x in arrays])
-        return cls(mask, content, maskedwhen=True)
+
+        if any(isinstance(x, IndexedMaskedArray) for x in arrays):
+            indexes = []
+            offset = 0
+            for x in arrays:
+                index = x._mask.astype(cls.INDEXTYPE) if isinstance(x, IndexedMaskedArray) else cls.numpy.arange(len(x), dtype=cls.INDEXTYPE)
+                indexes.append(cls.numpy.where(x.boolmask(maskedwhen=True), -1, index + offset))
+                offset += len(x._content)
+            content = awkward0.array.base.AwkwardArray.concatenate([x._content for x in arrays])
+            if not issubclass(cls, IndexedMaskedArray):
+                cls = cls.IndexedMaskedArray.fget(None)
+            return cls(cls.numpy.concatenate(indexes), content)
+
+        else:
+            mask = cls.numpy.concatenate([x.boolmask(maskedwhen=True) for x in arrays])
+            content = awkward0.array.base.AwkwardArray.concatenate([x._content[:len(x)] for x in arrays])
+            if issubclass(cls, BitMaskedArray):
+                cls = cls.MaskedArray.fget(None)
+            return cls(mask, content, maskedwhen=True)
 
     _topandas_name = "MaskedSeries"
 
@@ -647,10 +663,6 @@ class BitMaskedArray(MaskedArray):
             else:
                 return self.copy(mask=self.bool2bit(mask, lsborder=self._lsborder), content=self._content[(head,) + tail], lsborder=self._lsborder)
 
-    @classmethod
-    def _concatenate_axis0(cls, arrays):
-        raise NotImplementedError("concatenate not implemented for BitMaskedArray")
-
 class IndexedMaskedArray(MaskedArray):
     """
     IndexedMaskedArray
@@ -818,20 +830,3 @@ class IndexedMaskedArray(MaskedArray):
         filled[:-1] = out
         filled[-1] = value
         return filled[self.numpy.where(self.boolmask(maskedwhen=True), -1, self._mask)]
-
-    @classmethod
-    def _concatenate_axis0(cls, arrays):
-        assert all(isinstance(x, IndexedMaskedArray) for x in arrays)
-
-        indexes = []
-        offset = 0
-        for x in arrays:
-            tmp = x._index.copy()
-            tmp[tmp >= 0] += offset
-            indexes.append(tmp)
-            offset += len(x._content)
-        index = cls.numpy.concatenate(indexes)
-
-        content = awkward0.array.base.AwkwardArray.concatenate([x._content for x in arrays], axis=0)
-
-        return cls(index, content, maskedwhen=maskedwhen)
-- 
2.43.0


From b1ea9911fc322ac347a28bae60bfb01de22b3b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:41 +0000
Subject: [PATCH 067/195] fix: concatenating appendable arrays

---
 awkward0/array/chunked.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 51a87ee..d70cd0f 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -796,6 +796,9 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     @classmethod
     def _concatenate_axis0(cls, arrays):
         assert all(isinstance(x, ChunkedArray) for x in arrays)
+        arrays = [x._filled() if isinstance(x, AppendableArray) else x for x in arrays]
+        if issubclass(cls, AppendableArray):
+            cls = cls.ChunkedArray.fget(None)
         if all(x.chunksizesknown for x in arrays):
             chunksizes = [y for x in arrays for y in x._chunksizes]
         else:
-- 
2.43.0


From 5c0e68f241dfb4b8e108df87146775b5236ee5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 068/195] fix: zip keeps its arguments as they are and fits any
 layout of lists, plain numbers and no lists at all

---
 awkward0/array/jagged.py | 113 ++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 74 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index d359d4e..7560e4a 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1729,96 +1729,61 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 columns2 = (columns1,) + columns2
             columns1 = self
 
-        first = None
-        def ready(x):
-            starts, stops = x._starts.reshape(-1), x._stops.reshape(-1)
-            if (x._canuseoffset() and len(starts) != 0 and starts[0] == 0) or (len(starts) != 0 and len(stops) != 0 and len(stops) >= len(starts) and starts[0] == 0 and stops[len(starts) - 1] >= starts[len(starts) - 1] and (starts[1:] == stops[:-1]).all()):
-                return x
+        import awkward0.array.indexed
+        import awkward0.array.virtual
+
+        def unwrap(x):
+            if isinstance(x, awkward0.array.virtual.VirtualArray):
+                return unwrap(x.array)
+            elif isinstance(x, awkward0.array.indexed.IndexedArray):
+                return unwrap(x._content[x._index])
             else:
-                offsets = x.counts2offsets(stops - starts)
-                starts, stops = offsets[:-1], offsets[1:]
-                starts = starts.reshape((-1,) + x._starts.shape[1:])
-                stops = stops.reshape((-1,) + x._stops.shape[1:])
-                return x._tojagged(starts, stops, copy=False)
-
-        if isinstance(columns1, JaggedArray):
-            columns1 = first = ready(columns1)
+                return x
 
         if isinstance(columns1, dict):
-            for n in columns1:
-                x = columns1[n]
-                if isinstance(x, JaggedArray):
-                    if first is None:
-                        columns1[n] = first = ready(x)
-                    else:
-                        columns1[n] = x._tojagged(first._starts, first._stops, copy=False)
-
-        columns2 = list(columns2)
-        for i in range(len(columns2)):
-            x = columns2[i]
-            if isinstance(x, JaggedArray):
-                if first is None:
-                    columns2[i] = first = ready(x)
-                else:
-                    columns2[i] = x._tojagged(first._starts, first._stops, copy=False)
+            columns1 = OrderedDict((n, unwrap(x)) for n, x in columns1.items())
+        else:
+            columns1 = unwrap(columns1)
+        columns2 = [unwrap(x) for x in columns2]
+        columns3 = OrderedDict((n, unwrap(x)) for n, x in columns3.items())
 
-        for n in columns3:
-            x = columns3[n]
-            if isinstance(x, JaggedArray):
-                if first is None:
-                    columns3[n] = first = ready(x)
+        first = None
+        for x in (list(columns1.values()) if isinstance(columns1, dict) else [columns1]) + columns2 + list(columns3.values()):
+            if first is None and isinstance(x, JaggedArray):
+                starts, stops = x._starts.reshape(-1), x.stops.reshape(-1)
+                if len(starts) != 0 and starts[0] == 0 and stops[-1] >= starts[-1] and (starts[1:] == stops[:-1]).all():
+                    first = x.copy(stops=x.stops)
                 else:
-                    columns3[n] = x._tojagged(first._starts, first._stops, copy=False)
+                    offsets = x.counts2offsets(x.counts.reshape(-1))
+                    first = x._tojagged(offsets[:-1].reshape(x._starts.shape), offsets[1:].reshape(x._starts.shape), copy=False)
 
         if first is None:
             raise TypeError("at least one argument in JaggedArray.zip must be a JaggedArray")
 
-        if isclassmethod:
-            numpy = cls.numpy
-        else:
-            numpy = first.numpy
-
-        if isinstance(columns1, JaggedArray):
-            columns1 = columns1._content
-        elif isinstance(columns1, dict):
-            for n in columns1:
-                x = columns1[n]
-                if isinstance(x, JaggedArray):
-                    columns1[n] = x._content
-                elif isinstance(x, Iterable):
-                    columns1[n] = first.tojagged(x)._content
-                elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                    columns1[n] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), columns1, dtype=type(columns1)))._content
-                else:
-                    raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
-        elif isinstance(columns1, Iterable):
-            columns1 = first.tojagged(columns1)._content
-        elif isinstance(columns1, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-            columns1 = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), columns1, dtype=type(columns1)))._content
-        else:
-            raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(columns1)))
+        numpy = first.numpy
+        length = first._stops.reshape(-1)[-1] if first._stops.size != 0 else 0
 
-        for i in range(len(columns2)):
-            x = columns2[i]
+        def ready(x):
             if isinstance(x, JaggedArray):
-                columns2[i] = x._content
+                if not numpy.array_equal(first.counts, x.counts):
+                    raise ValueError("cannot zip JaggedArrays with different counts")
+                return x._tojagged(first._starts, first._stops, copy=False)._content[:length]
             elif not isinstance(x, dict) and isinstance(x, Iterable):
-                columns2[i] = first.tojagged(x)._content
+                x = first._util_toarray(x, first.DEFAULTTYPE)
+                if len(x) != len(first) and x.shape != (1,):
+                    raise ValueError("cannot zip an array of length {0} with JaggedArrays of length {1}".format(len(x), len(first)))
+                return first.tojagged(x)._content[:length]
             elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                columns2[i] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), x, dtype=type(x)))._content
+                return numpy.full(length, x, dtype=type(x))
             else:
                 raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
 
-        for n in columns3:
-            x = columns3[n]
-            if isinstance(x, JaggedArray):
-                columns3[n] = x._content
-            elif not isinstance(x, dict) and isinstance(x, Iterable):
-                columns3[n] = first.tojagged(x)._content
-            elif isinstance(x, (numbers.Number, numpy.number, numpy.bool, numpy.bool_)):
-                columns3[n] = JaggedArray(first._starts, first._stops, numpy.full(first._stops.max(), x, dtype=type(x)))._content
-            else:
-                raise TypeError("unrecognized type for JaggedArray.zip: {0}".format(type(x)))
+        if isinstance(columns1, dict):
+            columns1 = OrderedDict((n, ready(x)) for n, x in columns1.items())
+        else:
+            columns1 = ready(columns1)
+        columns2 = [ready(x) for x in columns2]
+        columns3 = OrderedDict((n, ready(x)) for n, x in columns3.items())
 
         if isclassmethod:
             if isinstance(columns1, dict) or len(columns3) > 0:
-- 
2.43.0


From a51a556c086d30161e4a8d7cdb41f0fe6f65ef7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:27 +0000
Subject: [PATCH 069/195] fix: concatenating lists keeps fixed-size inner
 dimensions and tuples

---
 awkward0/array/jagged.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 7560e4a..a48a468 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1653,7 +1653,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             results = {}
             for n in flatarrays[0].columns:
                 results[n] = cls._concatenate_axis1([a[n] for a in arrays])
-            return cls.zip(results)
+            out = cls.zip(results)
+            out.content.rowname = flatarrays[0].rowname
+            return out
 
         # the first step is to get the starts and stops for the stacked structure
         counts = np.vstack([a.counts for a in arrays])
@@ -1688,7 +1690,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return dtype
 
         if content_type == np.ndarray:
-            content = np.zeros(n_content, dtype=get_dtype(flatarrays))
+            content = np.zeros((n_content,) + flatarrays[0].shape[1:], dtype=get_dtype(flatarrays))
             for i in range(n_arrays):
                 content[get_mask(i)] = flatarrays[i]
 
-- 
2.43.0


From bf4af006478f551a09aee6850bcec94a9104ba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:33 +0000
Subject: [PATCH 070/195] fix: virtual arrays concatenate with any array

---
 awkward0/array/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 993a122..0973bab 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -607,6 +607,8 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
                 if "_concatenate_axis0" in t.__dict__:
                     return t, x._util_concatenatekey()
 
+        arrays = [x.array if isinstance(x, cls.VirtualArray.fget(None)) else x for x in arrays]
+
         if all(type(x) == cls.numpy.ndarray for x in arrays):
             return cls.numpy.concatenate(arrays, axis=axis)
 
-- 
2.43.0


From 2776a2806e62359c8e639cb21f19f23eb4926a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:21 +0000
Subject: [PATCH 071/195] fix: fitting an array with inner dimensions into
 lists, and fromtags-like concatenation of empty arrays of different types

---
 awkward0/array/base.py   | 4 +++-
 awkward0/array/jagged.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 0973bab..1dc7a97 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -613,7 +613,9 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
             return cls.numpy.concatenate(arrays, axis=axis)
 
         if not all(resolve(x) == resolve(arrays[0]) for x in arrays):
-            if axis == 0:
+            if axis == 0 and all(len(x) == 0 for x in arrays):
+                return arrays[0]
+            elif axis == 0:
                 tags = cls.numpy.concatenate([cls.numpy.full(len(x), i, dtype=cls.TAGTYPE) for i, x in enumerate(arrays)])
                 return cls.UnionArray.fget(None).fromtags(tags, arrays)
             else:
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index a48a468..c410099 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -853,7 +853,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         elif isinstance(data, self.numpy.ndarray):
             if self._overlapping():
                 self = self.compact()
-            content = self.numpy.empty(len(self.parents), dtype=data.dtype)
+            content = self.numpy.empty((len(self.parents),) + data.shape[1:], dtype=data.dtype)
             if len(data.shape) == 0 or (len(data.shape) == 1 and data.shape[0] == 1):
                 content[:] = data
             else:
-- 
2.43.0


From 62398015ef4b154b6acb8a9585215b9a84e4f2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:27 +0000
Subject: [PATCH 072/195] fix: concatenating tables with columns longer than
 the table

---
 awkward0/array/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index d19e239..cf498d0 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -897,7 +897,7 @@ class Table(awkward0.array.base.AwkwardArray):
         out = tables[0].deepcopy(contents=OrderedDict())
 
         for n in tables[0]._contents:
-            out._contents[n] = cls._util_concatenate([t[n] for t in tables])
+            out._contents[n] = cls._util_concatenate([t[n][:len(t)] for t in tables])
 
         out._valid()
         return out
-- 
2.43.0


From 4c011d8ed613bb97b574ee92ae11a3cece28d2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:12 +0000
Subject: [PATCH 073/195] fix: dictionary encoding of strings that end with NUL

---
 awkward0/generate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/generate.py b/awkward0/generate.py
index 890e979..4385ed4 100644
--- a/awkward0/generate.py
+++ b/awkward0/generate.py
@@ -150,7 +150,7 @@ class BytesFillable(SimpleFillable):
     def finalize(self, **options):
         dictencoding = options.get("dictencoding", False)
         if (callable(dictencoding) and dictencoding(self.data)) or (not callable(dictencoding) and dictencoding):
-            dictionary, index = self.awkwardlib.numpy.unique(self.data, return_inverse=True)
+            dictionary, index = self.awkwardlib.numpy.unique(self.awkwardlib.numpy.array(self.data, dtype=object), return_inverse=True)
             return self.awkwardlib.IndexedArray(index, self.awkwardlib.StringArray.fromiter(dictionary, encoding=None))
         else:
             return self.awkwardlib.StringArray.fromiter(self.data, encoding=None)
@@ -159,7 +159,7 @@ class StringFillable(SimpleFillable):
     def finalize(self, **options):
         dictencoding = options.get("dictencoding", False)
         if (callable(dictencoding) and dictencoding(self.data)) or (not callable(dictencoding) and dictencoding):
-            dictionary, index = self.awkwardlib.numpy.unique(self.data, return_inverse=True)
+            dictionary, index = self.awkwardlib.numpy.unique(self.awkwardlib.numpy.array(self.data, dtype=object), return_inverse=True)
             return self.awkwardlib.IndexedArray(index, self.awkwardlib.StringArray.fromiter(dictionary, encoding="utf-8"))
         else:
             return self.awkwardlib.StringArray.fromiter(self.data, encoding="utf-8")
-- 
2.43.0


From 252cf31e3a8137a1fb388ba5e44aa0a8b809483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:18 +0000
Subject: [PATCH 074/195] fix: fromiter lost objects without attributes

---
 awkward0/generate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/generate.py b/awkward0/generate.py
index 4385ed4..d149562 100644
--- a/awkward0/generate.py
+++ b/awkward0/generate.py
@@ -248,7 +248,7 @@ class ObjectFillable(Fillable):
         self.content.clear()
 
     def matches(self, tpe):
-        return isinstance(tpe, tuple) and len(tpe) == 2 and tpe[1] is self.cls and (len(tpe[0]) == 0 or self.content.matches(tpe[0]))
+        return isinstance(tpe, tuple) and len(tpe) == 2 and tpe[1] is self.cls and self.content.matches(JaggedFillable if len(tpe[0]) == 0 else tpe[0])
 
     def append(self, obj, tpe):
         if tpe is None:
-- 
2.43.0


From 370d3ecbf4807a0276826737067fceec18dca867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:54 +0000
Subject: [PATCH 075/195] fix: types with shared or recursive parts and unions
 compare by structure

---
 awkward0/type.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index b0b1c3d..5df89be 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -331,10 +331,10 @@ class ArrayType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True            # already being compared: equal unless a difference is found elsewhere
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, ArrayType) and self._takes == other._takes:
                 return self._eq2(self._to, other._to, seen, ignoremask=ignoremask)
             else:
@@ -424,10 +424,10 @@ class TableType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True            # already being compared: equal unless a difference is found elsewhere
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, TableType) and sorted(self._fields) == sorted(other._fields):
                 for n in self._fields:
                     if not self._eq2(self._fields[n], other._fields[n], seen, ignoremask=ignoremask):
@@ -509,13 +509,20 @@ class UnionType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True            # already being compared: equal unless a difference is found elsewhere
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, UnionType) and len(self._possibilities) == len(other._possibilities):
-                for x, y in zip(sorted(self._possibilities), sorted(self._possibilities)):
-                    if not self._eq2(x, y, seen, ignoremask=ignoremask):
+                unmatched = list(other._possibilities)      # in any order
+                for x in self._possibilities:
+                    for i, y in enumerate(unmatched):
+                        trial = set(seen)
+                        if self._eq2(x, y, trial, ignoremask=ignoremask):
+                            seen.update(trial)
+                            del unmatched[i]
+                            break
+                    else:
                         return False
                 else:
                     return True    # nothing failed in the loop over possibilities
@@ -523,7 +530,7 @@ class UnionType(Type):
                 return False
 
     def __hash__(self):
-        return hash((UnionType, tuple(self._possibilities)))
+        return hash((UnionType, frozenset(self._possibilities)))
 
 class OptionType(Type):
     def __init__(self, type):
@@ -591,10 +598,10 @@ class OptionType(Type):
             return True
         if self is other:
             return True
-        elif id(self) in seen:
-            return False
+        elif (id(self), id(other)) in seen:
+            return True            # already being compared: equal unless a difference is found elsewhere
         else:
-            seen.add(id(self))
+            seen.add((id(self), id(other)))
             if isinstance(other, OptionType):
                 if self._eq2(self._type, other._type, seen, ignoremask=ignoremask):
                     return True
-- 
2.43.0


From cab7f5a7a71120f16d2c339cf9cd400e91f2ab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:25 +0000
Subject: [PATCH 076/195] fix: offsets are aliased only by views of one array

---
 awkward0/array/jagged.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index c410099..b990675 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -24,17 +24,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     @classmethod
     def offsetsaliased(cls, starts, stops):
-        if not hasattr(starts, "base") or starts.base is None:
-            starts_base = None
-        else:
-            starts_base = cls._util_toarray(starts.base, cls.INDEXTYPE)
-        if not hasattr(stops, "base") or stops.base is None:
-            stops_base = None
-        else:
-            stops_base = cls._util_toarray(stops.base, cls.INDEXTYPE)
+        starts_base = getattr(starts, "base", None)
+        stops_base = getattr(stops, "base", None)
         return (isinstance(starts, cls.numpy.ndarray) and isinstance(stops, cls.numpy.ndarray) and
                 len(starts.shape) == 1 and len(stops.shape) == 1 and
-                starts_base is not None and stops_base is not None and starts_base is stops_base and
+                isinstance(starts_base, cls.numpy.ndarray) and starts_base is stops_base and starts_base.dtype == starts.dtype and
                 starts.ctypes.data == starts_base.ctypes.data and
                 stops.ctypes.data == stops_base.ctypes.data + stops.dtype.itemsize and
                 len(starts) == len(starts_base) - 1 and
-- 
2.43.0


From 1ece58ea594815b021ad2fd2dfde4cea501fe316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:30 +0000
Subject: [PATCH 077/195] fix: saving a union whose index is longer than its
 tags

---
 awkward0/array/union.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 578665b..a1c2c6b 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -69,7 +69,7 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         self._valid()
         for tag in self.numpy.unique(self._tags):
             mask = self._tags == tag
-            if not self.numpy.array_equal(self._index[mask], self.numpy.arange(self.numpy.count_nonzero(mask))):
+            if not self.numpy.array_equal(self._index[:len(self._tags)][mask], self.numpy.arange(self.numpy.count_nonzero(mask))):
                 return False
         return True
 
-- 
2.43.0


From d504dee32ea3f40830edd275719948f8eddb7837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 078/195] fix: saved array lengths could become references to
 something not loaded yet

---
 awkward0/array/table.py | 4 +++-
 awkward0/persist.py     | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index cf498d0..66e5f22 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -382,6 +382,8 @@ class Table(awkward0.array.base.AwkwardArray):
 
     def __awkward_serialize__(self, serializer):
         self._valid()
+        if isinstance(self._view, self.numpy.ndarray):
+            view = serializer(self._view, "Table.view")     # in the order in which it will be read
         out = serializer.encode_call(
             ["awkward0", "Table", "frompairs"],
             {"pairs": [
@@ -405,7 +407,7 @@ class Table(awkward0.array.base.AwkwardArray):
         elif isinstance(self._view, self.numpy.ndarray):
             out = serializer.encode_call(
                 ["awkward0", "Table", "fromview"],
-                serializer(self._view, "Table.view"),
+                view,
                 out
             )
 
diff --git a/awkward0/persist.py b/awkward0/persist.py
index e96ccca..3274a3f 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -492,7 +492,7 @@ class BlobSerializer(Serializer):
         else:
             buf = self._put_raw(obj.ravel(), ref=obj)
 
-        return self.encode_call(["awkward0", "numpy", "frombuffer"], buf, self(dtype), self(obj.shape[0]))
+        return self.encode_call(["awkward0", "numpy", "frombuffer"], buf, self(dtype), {"json": int(obj.shape[0])})
 
 def serialize(obj, storage, name="", delimiter="-", **kwargs):
     if delimiter is None:
-- 
2.43.0


From 22a4666d7c5f3003b27a3685fd9b0674fe9588a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:40 +0000
Subject: [PATCH 079/195] fix: tables keep the name of their rows when saved

---
 awkward0/array/table.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 66e5f22..619ea6b 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -289,11 +289,13 @@ class Table(awkward0.array.base.AwkwardArray):
         return out
 
     @classmethod
-    def frompairs(cls, pairs, rowstart=0):
+    def frompairs(cls, pairs, rowstart=0, rowname=None):
         out = cls()
         for n, x in pairs:
             out[n] = x
         out._rowstart = rowstart
+        if rowname is not None:
+            out._rowname = rowname
         return out
 
     @classmethod
@@ -390,7 +392,8 @@ class Table(awkward0.array.base.AwkwardArray):
                 [n, serializer(x, "Table.contents")]
                 for n, x in self._contents.items()
             ]},
-            {"json": self.rowstart}
+            {"json": self.rowstart},
+            **({} if self._rowname == "Row" else {"rowname": {"json": self._rowname}})
         )
         if isinstance(self._view, tuple):
             start, step, length = self._view
-- 
2.43.0


From e25efe900c7d2d84c30e3c662efe61125514f8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:20 +0000
Subject: [PATCH 080/195] fix: a single compression pair is promoted to a rule

---
 awkward0/persist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 3274a3f..a5f1a58 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -462,7 +462,7 @@ class BlobSerializer(Serializer):
             comp = []
         elif comp is True:
             comp = [{"minsize": 0, "types": object, "contexts": "*", "pair": (zlib.compress, ("zlib", "decompress"))}]
-        elif not isinstance(comp, (list, tuple)):
+        elif not isinstance(comp, (list, tuple)) or (len(comp) == 2 and callable(comp[0]) and isinstance(comp[1], tuple)):
             comp = [comp]
 
         return list(map(cls.CompressPolicy.parse, comp))
-- 
2.43.0


From b101e301ddd663f954eadd1888f9781cbee29753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:27 +0000
Subject: [PATCH 081/195] fix: pickling arrays that are not in native byte
 order

---
 awkward0/persist.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index a5f1a58..3fa40c7 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -475,6 +475,8 @@ class BlobSerializer(Serializer):
         if ref is None:
             ref = data
         key = str(self.seen[ref]) + self.suffix
+        if isinstance(data, numpy.ndarray) and not data.dtype.isnative:
+            data = data.view(numpy.uint8)      # only the bytes are wanted, and Numpy's own pickling would swap them
         self.storage[self.prefix + key] = data
         return dict(read=key)
 
-- 
2.43.0


From d20712e0dce853ab20bfb7312702dd1faf48133d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:32 +0000
Subject: [PATCH 082/195] fix: saving arrays with inner dimensions of size zero

---
 awkward0/persist.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 3fa40c7..30f92fd 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -36,6 +36,7 @@ whitelist = [
         ["awkward0", "*Array"],
         ["awkward0", "Table"],
         ["awkward0", "numpy", "frombuffer"],
+        ["awkward0", "numpy", "empty"],
         ["awkward0.util", "frombuffer"],
         ["awkward0.persist"],
         ["awkward0.arrow", "_ParquetFile", "fromjson"],
@@ -483,6 +484,8 @@ class BlobSerializer(Serializer):
     def _encode_numpy(self, obj, context):
         if obj.ndim > 1:
             dtype = numpy.dtype((obj.dtype, obj.shape[1:]))
+            if dtype.itemsize == 0:
+                return self.encode_call(["awkward0", "numpy", "empty"], {"json": list(obj.shape)}, self(obj.dtype))
         else:
             dtype = obj.dtype
 
-- 
2.43.0


From 5914c5487efa2161043ceec03b0131e9b8005869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:37 +0000
Subject: [PATCH 083/195] fix: chunked arrays with only empty chunks lost their
 type when saved

---
 awkward0/array/chunked.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index d70cd0f..ff19289 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -59,14 +59,16 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def __awkward_serialize__(self, serializer):
         self.knowchunksizes()
         self._valid()
+        keep = [(c, x) for c, x in zip(self._chunksizes, self._chunks) if c > 0]
+        if len(keep) == 0:
+            keep = list(zip(self._chunksizes, self._chunks))[:1]      # for its type
         return serializer.encode_call(
             ["awkward0", "ChunkedArray"],
             dict(list=[
                 serializer(x, "ChunkedArray.chunk")
-                for c, x in zip(self._chunksizes, self._chunks)
-                if c > 0
+                for c, x in keep
             ]),
-            serializer.encode_json([int(c) for c in self._chunksizes if c > 0]),
+            serializer.encode_json([int(c) for c, x in keep]),
         )
 
     @property
-- 
2.43.0


From ffaa73bc1272a897380739784713f7e119e77a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:42 +0000
Subject: [PATCH 084/195] fix: assigning an array to an HDF5 name replaces what
 was there

---
 awkward0/persist.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 30f92fd..6544995 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -795,8 +795,13 @@ class hdf5(MutableMapping):
             del options["whitelist"]
         if "cache" in options:
             del options["cache"]
+        storage = {}
+        serialize(what, storage, name=where, **options)
+        if where in self._group.g and self.options["schemasuffix"].split("/")[-1] in self._group.g[where]:
+            del self[where]
         self._group.g.create_group(where)
-        serialize(what, self._group, name=where, **options)
+        for n, x in storage.items():
+            self._group[n] = x
 
     def __delitem__(self, where):
         for subname in keys(self._group, name=where + self.options["schemasuffix"]):
-- 
2.43.0


From 5f98cc441e6dd2c4bbe3024d8d9d69bdff50cde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:29 +0000
Subject: [PATCH 085/195] fix: saving dates and time differences, compressed or
 not

---
 awkward0/persist.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 6544995..a8f18c4 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -476,8 +476,6 @@ class BlobSerializer(Serializer):
         if ref is None:
             ref = data
         key = str(self.seen[ref]) + self.suffix
-        if isinstance(data, numpy.ndarray) and not data.dtype.isnative:
-            data = data.view(numpy.uint8)      # only the bytes are wanted, and Numpy's own pickling would swap them
         self.storage[self.prefix + key] = data
         return dict(read=key)
 
@@ -489,13 +487,17 @@ class BlobSerializer(Serializer):
         else:
             dtype = obj.dtype
 
+        raw = obj.ravel()
+        if raw.dtype.kind in "mMV" or not raw.dtype.isnative:
+            raw = raw.view(numpy.uint8)        # not all dtypes are buffers, and Numpy's own pickling would swap bytes
+
         buf = None
         for policy in self._parse_compression(self.compression):
             if policy.test(obj, context):
-                buf = self.encode_call(policy.dec, self._put_raw(policy.enc(obj.ravel()), ref=obj))
+                buf = self.encode_call(policy.dec, self._put_raw(policy.enc(raw), ref=obj))
                 break
         else:
-            buf = self._put_raw(obj.ravel(), ref=obj)
+            buf = self._put_raw(raw, ref=obj)
 
         return self.encode_call(["awkward0", "numpy", "frombuffer"], buf, self(dtype), {"json": int(obj.shape[0])})
 
-- 
2.43.0


From b3d9d3d2a6fc856de988919d8420ed432ac43a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:34 +0000
Subject: [PATCH 086/195] fix: decompressing data from HDF5 with functions that
 need more than an array

---
 awkward0/persist.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index a8f18c4..1700ad4 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -512,8 +512,8 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
     import awkward0.array.virtual
 
     schema = storage[name]
-    if isinstance(schema, numpy.ndarray):
-        schema = schema.tostring()
+    if isinstance(schema, (numpy.ndarray, memoryview)):
+        schema = schema.tobytes()
     if isinstance(schema, bytes):
         schema = schema.decode("ascii")
     schema = json.loads(schema)
@@ -596,8 +596,8 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
 
 def keys(storage, name="", subschemas=True):
     schema = storage[name]
-    if isinstance(schema, numpy.ndarray):
-        schema = schema.tostring()
+    if isinstance(schema, (numpy.ndarray, memoryview)):
+        schema = schema.tobytes()
     if isinstance(schema, bytes):
         schema = schema.decode("ascii")
     schema = json.loads(schema)
@@ -780,7 +780,7 @@ class hdf5(MutableMapping):
             def __init__(self):
                 self.g = group
             def __getitem__(self, where):
-                return self.g[where][()]
+                return memoryview(self.g[where][()])
             def __setitem__(self, where, what):
                 self.g[where] = numpy.frombuffer(what, dtype=numpy.uint8)
 
-- 
2.43.0


From 181774c7177bf07c9e6406525ed9326c1ee9ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:19 +0000
Subject: [PATCH 087/195] fix: assigning a virtual column to a table generated
 it

---
 awkward0/array/table.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 619ea6b..cd6e887 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -652,10 +652,11 @@ class Table(awkward0.array.base.AwkwardArray):
             raise ValueError("new columns can only be attached to the original Table, not a view (try table.base['col'] = array)")
 
         if isinstance(where, awkward0.util.string):
-            try:
-                len(what)
-            except TypeError:
-                what = self.numpy.full(len(self), what)
+            if not isinstance(what, awkward0.array.base.AwkwardArray):
+                try:
+                    len(what)
+                except TypeError:
+                    what = self.numpy.full(len(self), what)
             self._contents[where] = self._util_toarray(what, self.DEFAULTTYPE)
 
         elif self._util_isstringslice(where):
@@ -663,10 +664,11 @@ class Table(awkward0.array.base.AwkwardArray):
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
             for x, y in zip(where, what):
-                try:
-                    len(y)
-                except TypeError:
-                    y = self.numpy.full(len(self), y)
+                if not isinstance(y, awkward0.array.base.AwkwardArray):
+                    try:
+                        len(y)
+                    except TypeError:
+                        y = self.numpy.full(len(self), y)
                 self._contents[x] = self._util_toarray(y, self.DEFAULTTYPE)
 
         else:
-- 
2.43.0


From d4d9966ef2b9279466bce43a8fa96440300898e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:05 +0000
Subject: [PATCH 088/195] fix: listing archives with another schema suffix

---
 awkward0/persist.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 1700ad4..9935463 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -743,13 +743,13 @@ class Load(Mapping):
 
     def __iter__(self):
         for n in self._file.f.namelist():
-            if n.endswith(".json"):
-                yield n[:-5]
+            if n.endswith(self.schemasuffix):
+                yield n[:len(n) - len(self.schemasuffix)]
 
     def __len__(self):
         count = 0
         for n in self._file.f.namelist():
-            if n.endswith(".json"):
+            if n.endswith(self.schemasuffix):
                 count += 1
         return count
 
-- 
2.43.0


From b28f68261f4d21f4e81aafa9348e12fcc359d153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:37 +0000
Subject: [PATCH 089/195] fix: saving the data of a virtual array that is also
 referred to directly

---
 awkward0/array/virtual.py | 3 ++-
 awkward0/persist.py       | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 9af135d..717729e 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -139,7 +139,8 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                 out["kwargs"] = others
         else:
             out = serializer(self.array, "VirtualArray.array")
-            out.pop("id")
+            if "id" in out:
+                serializer.seen.alias(self, out["id"])
 
         return out
 
diff --git a/awkward0/persist.py b/awkward0/persist.py
index 9935463..c3e9e6f 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -266,6 +266,10 @@ class ObjRef(object):
             self[obj] = self.nextid()
         return self._i2r[id(obj)]
 
+    def alias(self, obj, ref):
+        self[obj]                   # keeps it alive
+        self._i2r[id(obj)] = ref
+
     def __delitem__(self, obj):
         assert obj in self
         del self._r2o[self._i2r[id(obj)]]
-- 
2.43.0


From 2d82f71ca7786b1c6873b6c32be06202385042c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:44 +0000
Subject: [PATCH 090/195] fix: a function description shorter than a whitelist
 pattern does not match it, and special attributes need a pattern of their own

---
 awkward0/persist.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index c3e9e6f..6355e24 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -64,6 +64,10 @@ def topython(string):
 def spec2function(obj, whitelist=whitelist):
     awkwardlib = "awkward0"
     for white in whitelist:
+        if len(obj) < len(white):
+            continue
+        if white != ["*"] and any(n.startswith("__") for n in obj[len(white):]):
+            continue          # __globals__ and the like lead to functions of any module
         for n, p in zip(obj, white):
             if not fnmatch.fnmatchcase(n, p):
                 break
-- 
2.43.0


From 734cbe6929bfeb894444a446286a6e6d1f12340a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:48 +0000
Subject: [PATCH 091/195] fix: pickled values in saved data are subject to the
 whitelist

---
 awkward0/persist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 6355e24..be16f1a 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -582,7 +582,7 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
                 out = schema["json"]
 
             elif "python" in schema:
-                out = topython(schema["python"])
+                out = spec2function(["awkward0.persist", "topython"], whitelist=whitelist)(schema["python"])
 
             elif "ref" in schema:
                 out = seen.obj(schema["ref"])
-- 
2.43.0


From 6004eb0db0e638c5ed9e43c5e7c157c0819c0b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:54 +0000
Subject: [PATCH 092/195] fix: saved data can't choose the whitelist of
 functions that it calls

---
 awkward0/persist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index be16f1a..0d43321 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -547,10 +547,10 @@ def deserialize(storage, name="", whitelist=whitelist, cache=None, seen=None):
                 kwargs = {}
                 if schema.get("cacheable", False):
                     kwargs["cache"] = cache
-                if schema.get("whitelistable", False):
-                    kwargs["whitelist"] = whitelist
                 if "kwargs" in schema:
                     kwargs.update({n: unfill(x) for n, x in schema["kwargs"].items()})
+                if schema.get("whitelistable", False) or gen in (spec2function, json2type, deserialize, load, Load, hdf5):
+                    kwargs["whitelist"] = whitelist
 
                 out = gen(*args, **kwargs)
 
-- 
2.43.0


From 280263d9372033a9acd20d74e826e47c198ecd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:34 +0000
Subject: [PATCH 093/195] fix: whitelist patterns may be tuples

---
 awkward0/persist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/persist.py b/awkward0/persist.py
index 0d43321..d2d4aaf 100644
--- a/awkward0/persist.py
+++ b/awkward0/persist.py
@@ -66,7 +66,7 @@ def spec2function(obj, whitelist=whitelist):
     for white in whitelist:
         if len(obj) < len(white):
             continue
-        if white != ["*"] and any(n.startswith("__") for n in obj[len(white):]):
+        if list(white) != ["*"] and any(n.startswith("__") for n in obj[len(white):]):
             continue          # __globals__ and the like lead to functions of any module
         for n, p in zip(obj, white):
             if not fnmatch.fnmatchcase(n, p):
-- 
2.43.0


From 0f84267367dc3294e85f0e1c81750de18f2d89d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:51 +0000
Subject: [PATCH 094/195] fix: Arrow struct and union types can be converted
 with pyarrow versions that dropped num_children

---
 awkward0/arrow.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 3a7d08b..c2c3238 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -20,6 +20,11 @@ import awkward0.util
 
 ################################################################################ type conversions
 
+def _fields(tpe):
+    # the name and the way to access children changed among pyarrow versions
+    num = tpe.num_fields if hasattr(tpe, "num_fields") else tpe.num_children
+    return [tpe.field(i) if hasattr(tpe, "field") else tpe[i] for i in range(num)]
+
 def schema2type(schema):
     import pyarrow
 
@@ -33,8 +38,8 @@ def schema2type(schema):
 
         elif isinstance(tpe, pyarrow.lib.StructType):
             out = None
-            for i in range(tpe.num_children):
-                x = awkward0.type.ArrayType(tpe[i].name, recurse(tpe[i].type, tpe[i].nullable))
+            for field in _fields(tpe):
+                x = awkward0.type.ArrayType(field.name, recurse(field.type, field.nullable))
                 if out is None:
                     out = x
                 else:
@@ -53,8 +58,8 @@ def schema2type(schema):
 
         elif isinstance(tpe, pyarrow.lib.UnionType):
             out = None
-            for i in range(tpe.num_children):
-                x = recurse(tpe[i].type, nullable)
+            for field in _fields(tpe):
+                x = recurse(field.type, nullable)
                 if out is None:
                     out = x
                 else:
@@ -256,8 +261,8 @@ def fromarrow(obj):
             assert getattr(tpe, "num_buffers", 1) == 1
             mask = buffers.pop(0)
             pairs = []
-            for i in range(tpe.num_children):
-                pairs.append((tpe[i].name, popbuffers(None if array is None else array.field(tpe[i].name), tpe[i].type, buffers, length)))
+            for i, field in enumerate(_fields(tpe)):
+                pairs.append((field.name, popbuffers(None if array is None else array.field(i), field.type, buffers, length)))
             out = awkwardlib.Table.frompairs(pairs, 0)   # FIXME: better rowstart
             if mask is not None:
                 mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
@@ -296,12 +301,12 @@ def fromarrow(obj):
             assert buffers.pop(0) is None
             index = awkwardlib.numpy.arange(len(tags), dtype=ARROW_INDEXTYPE)
             contents = []
-            for i in range(tpe.num_children):
+            for i, field in enumerate(_fields(tpe)):
                 try:
                     sublength = index[tags == i][-1] + 1
                 except IndexError:
                     sublength = 0
-                contents.append(popbuffers(None, tpe[i].type, buffers, sublength))
+                contents.append(popbuffers(None, field.type, buffers, sublength))
             for i in range(len(contents)):
                 these = index[tags == i]
                 if len(these) == 0:
@@ -321,12 +326,12 @@ def fromarrow(obj):
             tags = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length]
             index = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length]
             contents = []
-            for i in range(tpe.num_children):
+            for i, field in enumerate(_fields(tpe)):
                 try:
                     sublength = index[tags == i].max() + 1
                 except ValueError:
                     sublength = 0
-                contents.append(popbuffers(None, tpe[i].type, buffers, sublength))
+                contents.append(popbuffers(None, field.type, buffers, sublength))
             for i in range(len(contents)):
                 these = index[tags == i]
                 if len(these) == 0:
-- 
2.43.0


From d47868eac307926e813b2f268fdfdd6500b84363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:36 +0000
Subject: [PATCH 095/195] fix: sliced Arrow arrays (and their children) are
 read at their offsets; dictionary indices under missing values are ignored

---
 awkward0/arrow.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index c2c3238..9cbcb03 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -245,15 +245,11 @@ def fromarrow(obj):
 
     def popbuffers(array, tpe, buffers, length):
         if isinstance(tpe, pyarrow.lib.DictionaryType):
-            index = popbuffers(None if array is None else array.indices, tpe.index_type, buffers, length)
-            if hasattr(tpe, "dictionary"):
-                content = fromarrow(tpe.dictionary)
-            elif array is not None:
-                content = fromarrow(array.dictionary)
-            else:
-                raise NotImplementedError("no way to access Arrow dictionary inside of UnionArray")
+            index = popbuffers(array.indices, tpe.index_type, buffers, length)
+            content = fromarrow(array.dictionary)
             if isinstance(index, awkwardlib.BitMaskedArray):
-                return awkwardlib.BitMaskedArray(index.mask, awkwardlib.IndexedArray(index.content, content), maskedwhen=index.maskedwhen, lsborder=index.lsborder)
+                # Arrow doesn't define the index of a missing value
+                return awkwardlib.IndexedMaskedArray(awkwardlib.numpy.where(index.boolmask(maskedwhen=True), -1, index.content), content, maskedwhen=-1)
             else:
                 return awkwardlib.IndexedArray(index, content)
 
@@ -262,7 +258,8 @@ def fromarrow(obj):
             mask = buffers.pop(0)
             pairs = []
             for i, field in enumerate(_fields(tpe)):
-                pairs.append((field.name, popbuffers(None if array is None else array.field(i), field.type, buffers, length)))
+                child = array.field(i)    # has been shifted by array.offset
+                pairs.append((field.name, popchild(child, field.type, buffers, length, child.offset - array.offset)))
             out = awkwardlib.Table.frompairs(pairs, 0)   # FIXME: better rowstart
             if mask is not None:
                 mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
@@ -274,7 +271,7 @@ def fromarrow(obj):
             assert getattr(tpe, "num_buffers", 2) == 2
             mask = buffers.pop(0)
             offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length + 1]
-            content = popbuffers(None if array is None else array.flatten(), tpe.value_type, buffers, offsets[-1])
+            content = popchild(array.values, tpe.value_type, buffers, offsets[-1], array.values.offset)
             out = awkwardlib.JaggedArray.fromoffsets(offsets, content)
             if mask is not None:
                 mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
@@ -286,7 +283,7 @@ def fromarrow(obj):
             assert getattr(tpe, "num_buffers", 2) == 2
             mask = buffers.pop(0)
             offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_LARGEINDEXTYPE)[:length + 1]
-            content = popbuffers(None if array is None else array.flatten(), tpe.value_type, buffers, offsets[-1])
+            content = popchild(array.values, tpe.value_type, buffers, offsets[-1], array.values.offset)
             out = awkwardlib.JaggedArray.fromoffsets(offsets, content)
             if mask is not None:
                 mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
@@ -306,7 +303,8 @@ def fromarrow(obj):
                     sublength = index[tags == i][-1] + 1
                 except IndexError:
                     sublength = 0
-                contents.append(popbuffers(None, field.type, buffers, sublength))
+                child = array.field(i)    # has been shifted by array.offset
+                contents.append(popchild(child, field.type, buffers, sublength, child.offset - array.offset))
             for i in range(len(contents)):
                 these = index[tags == i]
                 if len(these) == 0:
@@ -331,7 +329,8 @@ def fromarrow(obj):
                     sublength = index[tags == i].max() + 1
                 except ValueError:
                     sublength = 0
-                contents.append(popbuffers(None, field.type, buffers, sublength))
+                child = array.field(i)
+                contents.append(popchild(child, field.type, buffers, sublength, child.offset))
             for i in range(len(contents)):
                 these = index[tags == i]
                 if len(these) == 0:
@@ -417,9 +416,14 @@ def fromarrow(obj):
         else:
             raise NotImplementedError(repr(tpe))
 
+    def popchild(array, tpe, buffers, length, offset):
+        # buffers are not affected by slicing the Arrow array
+        out = popbuffers(array, tpe, buffers, offset + length)
+        return out if offset == 0 else out[offset:]
+
     if isinstance(obj, pyarrow.lib.Array):
         buffers = obj.buffers()
-        out = popbuffers(obj, obj.type, buffers, len(obj))
+        out = popchild(obj, obj.type, buffers, len(obj), obj.offset)
         assert len(buffers) == 0
         return out
 
-- 
2.43.0


From ee599806edcd60a9f1a5543d39310336667fa64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:28 +0000
Subject: [PATCH 096/195] fix: Arrow unions are read with any type codes, when
 sparse, and when empty

---
 awkward0/arrow.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 9cbcb03..fce7919 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -243,6 +243,12 @@ def fromarrow(obj):
     ARROW_TAGTYPE = awkwardlib.numpy.uint8
     ARROW_CHARTYPE = awkwardlib.numpy.uint8
 
+    def uniontags(tpe, typecodes):
+        out = awkwardlib.numpy.empty(len(typecodes), dtype=ARROW_TAGTYPE)
+        for i, code in enumerate(getattr(tpe, "type_codes", range(len(_fields(tpe))))):
+            out[typecodes == code] = i
+        return out
+
     def popbuffers(array, tpe, buffers, length):
         if isinstance(tpe, pyarrow.lib.DictionaryType):
             index = popbuffers(array.indices, tpe.index_type, buffers, length)
@@ -292,10 +298,10 @@ def fromarrow(obj):
                 return out
 
         elif isinstance(tpe, pyarrow.lib.UnionType) and tpe.mode == "sparse":
-            assert getattr(tpe, "num_buffers", 3) == 3
             mask = buffers.pop(0)
-            tags = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length]
-            assert buffers.pop(0) is None
+            tags = uniontags(tpe, awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length])
+            if getattr(tpe, "num_buffers", 3) == 3:
+                assert buffers.pop(0) is None
             index = awkwardlib.numpy.arange(len(tags), dtype=ARROW_INDEXTYPE)
             contents = []
             for i, field in enumerate(_fields(tpe)):
@@ -311,6 +317,8 @@ def fromarrow(obj):
                     contents[i] = contents[i][0:0]
                 else:
                     contents[i] = contents[i][: these[-1] + 1]
+            if len(tags) == 0 and len(contents) != 0:
+                return contents[0]    # UnionArrays can't be empty
             out = awkwardlib.UnionArray(tags, index, contents)
             if mask is not None:
                 mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
@@ -321,7 +329,7 @@ def fromarrow(obj):
         elif isinstance(tpe, pyarrow.lib.UnionType) and tpe.mode == "dense":
             assert getattr(tpe, "num_buffers", 3) == 3
             mask = buffers.pop(0)
-            tags = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length]
+            tags = uniontags(tpe, awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length])
             index = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length]
             contents = []
             for i, field in enumerate(_fields(tpe)):
@@ -337,6 +345,8 @@ def fromarrow(obj):
                     contents[i] = contents[i][0:0]
                 else:
                     contents[i] = contents[i][: these.max() + 1]
+            if len(tags) == 0 and len(contents) != 0:
+                return contents[0]    # UnionArrays can't be empty
             out = awkwardlib.UnionArray(tags, index, contents)
             if mask is not None:
                 mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
-- 
2.43.0


From 2a9f9c0a0577cb2a70c115c68864f0f536dbc00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:56 +0000
Subject: [PATCH 097/195] fix: Arrow types that aren't Numpy buffers are
 refused, rather than misread; dates and times keep their units

---
 awkward0/arrow.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index fce7919..be5cdea 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -25,6 +25,18 @@ def _fields(tpe):
     num = tpe.num_fields if hasattr(tpe, "num_fields") else tpe.num_children
     return [tpe.field(i) if hasattr(tpe, "field") else tpe[i] for i in range(num)]
 
+def _dtype(tpe):
+    # only types whose buffer can be viewed as a Numpy array
+    import pyarrow
+    if pyarrow.types.is_timestamp(tpe):
+        return numpy.dtype("M8[{0}]".format(tpe.unit))
+    elif pyarrow.types.is_date64(tpe):
+        return numpy.dtype("M8[ms]")
+    elif pyarrow.types.is_integer(tpe) or pyarrow.types.is_floating(tpe) or (hasattr(pyarrow.types, "is_duration") and pyarrow.types.is_duration(tpe)):
+        return numpy.dtype(tpe.to_pandas_dtype())
+    else:
+        raise NotImplementedError(repr(tpe))
+
 def schema2type(schema):
     import pyarrow
 
@@ -90,9 +102,9 @@ def schema2type(schema):
 
         elif isinstance(tpe, pyarrow.lib.DataType):
             if nullable:
-                return awkward0.type.OptionType(tpe.to_pandas_dtype())
+                return awkward0.type.OptionType(_dtype(tpe))
             else:
-                return tpe.to_pandas_dtype()
+                return _dtype(tpe)
 
         else:
             raise NotImplementedError(repr(tpe))
@@ -414,9 +426,10 @@ def fromarrow(obj):
                 return out
 
         elif isinstance(tpe, pyarrow.lib.DataType):
+            dtype = _dtype(tpe)
             assert getattr(tpe, "num_buffers", 2) == 2
             mask = buffers.pop(0)
-            out = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=tpe.to_pandas_dtype())[:length]
+            out = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=dtype)[:length]
             if mask is not None:
                 mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
                 return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
-- 
2.43.0


From f83b55d03c4bcb64fdda204e7d8d1c384748fd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:46 +0000
Subject: [PATCH 098/195] fix: empty Arrow arrays, chunked arrays and tables
 keep their structure; schemas with dictionaries and large types have a type

---
 awkward0/arrow.py | 81 +++++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 38 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index be5cdea..4981030 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -42,11 +42,7 @@ def schema2type(schema):
 
     def recurse(tpe, nullable):
         if isinstance(tpe, pyarrow.lib.DictionaryType):
-            out = recurse(tpe.dictionary.type, nullable)
-            if nullable:
-                return awkward0.type.OptionType(out)
-            else:
-                return out
+            return recurse(tpe.value_type if hasattr(tpe, "value_type") else tpe.dictionary.type, nullable)
 
         elif isinstance(tpe, pyarrow.lib.StructType):
             out = None
@@ -61,8 +57,8 @@ def schema2type(schema):
             else:
                 return out
 
-        elif isinstance(tpe, pyarrow.lib.ListType):
-            out = awkward0.type.ArrayType(float("inf"), recurse(tpe.value_type, nullable))
+        elif isinstance(tpe, (pyarrow.lib.ListType, getattr(pyarrow.lib, "LargeListType", pyarrow.lib.ListType))):
+            out = awkward0.type.ArrayType(float("inf"), recurse(tpe.value_type, tpe.value_field.nullable if hasattr(tpe, "value_field") else nullable))
             if nullable:
                 return awkward0.type.OptionType(out)
             else:
@@ -71,7 +67,7 @@ def schema2type(schema):
         elif isinstance(tpe, pyarrow.lib.UnionType):
             out = None
             for field in _fields(tpe):
-                x = recurse(field.type, nullable)
+                x = recurse(field.type, field.nullable)
                 if out is None:
                     out = x
                 else:
@@ -81,13 +77,13 @@ def schema2type(schema):
             else:
                 return out
 
-        elif tpe == pyarrow.string():
+        elif tpe == pyarrow.string() or tpe == pyarrow.large_string():
             if nullable:
                 return awkward0.type.OptionType(str)
             else:
                 return str
 
-        elif tpe == pyarrow.binary():
+        elif tpe == pyarrow.binary() or tpe == pyarrow.large_binary():
             if nullable:
                 return awkward0.type.OptionType(bytes)
             else:
@@ -255,6 +251,13 @@ def fromarrow(obj):
     ARROW_TAGTYPE = awkwardlib.numpy.uint8
     ARROW_CHARTYPE = awkwardlib.numpy.uint8
 
+    def frombuffer(buf, dtype):
+        # Arrow may leave out the buffers of empty arrays
+        return awkwardlib.numpy.frombuffer(b"" if buf is None else buf, dtype=dtype)
+
+    def fromoffsets(buf, dtype, length):
+        return frombuffer(buf, dtype)[:length + 1] if length != 0 else awkwardlib.numpy.zeros(1, dtype=dtype)
+
     def uniontags(tpe, typecodes):
         out = awkwardlib.numpy.empty(len(typecodes), dtype=ARROW_TAGTYPE)
         for i, code in enumerate(getattr(tpe, "type_codes", range(len(_fields(tpe))))):
@@ -280,7 +283,7 @@ def fromarrow(obj):
                 pairs.append((field.name, popchild(child, field.type, buffers, length, child.offset - array.offset)))
             out = awkwardlib.Table.frompairs(pairs, 0)   # FIXME: better rowstart
             if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
+                mask = frombuffer(mask, ARROW_BITMASKTYPE)
                 return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
             else:
                 return out
@@ -288,11 +291,11 @@ def fromarrow(obj):
         elif isinstance(tpe, pyarrow.lib.ListType):
             assert getattr(tpe, "num_buffers", 2) == 2
             mask = buffers.pop(0)
-            offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length + 1]
+            offsets = fromoffsets(buffers.pop(0), ARROW_INDEXTYPE, length)
             content = popchild(array.values, tpe.value_type, buffers, offsets[-1], array.values.offset)
             out = awkwardlib.JaggedArray.fromoffsets(offsets, content)
             if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
+                mask = frombuffer(mask, ARROW_BITMASKTYPE)
                 return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
             else:
                 return out
@@ -300,18 +303,18 @@ def fromarrow(obj):
         elif hasattr(pyarrow.lib, 'LargeListType') and isinstance(tpe, pyarrow.lib.LargeListType):
             assert getattr(tpe, "num_buffers", 2) == 2
             mask = buffers.pop(0)
-            offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_LARGEINDEXTYPE)[:length + 1]
+            offsets = fromoffsets(buffers.pop(0), ARROW_LARGEINDEXTYPE, length)
             content = popchild(array.values, tpe.value_type, buffers, offsets[-1], array.values.offset)
             out = awkwardlib.JaggedArray.fromoffsets(offsets, content)
             if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
+                mask = frombuffer(mask, ARROW_BITMASKTYPE)
                 return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
             else:
                 return out
 
         elif isinstance(tpe, pyarrow.lib.UnionType) and tpe.mode == "sparse":
             mask = buffers.pop(0)
-            tags = uniontags(tpe, awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length])
+            tags = uniontags(tpe, frombuffer(buffers.pop(0), ARROW_TAGTYPE)[:length])
             if getattr(tpe, "num_buffers", 3) == 3:
                 assert buffers.pop(0) is None
             index = awkwardlib.numpy.arange(len(tags), dtype=ARROW_INDEXTYPE)
@@ -333,7 +336,7 @@ def fromarrow(obj):
                 return contents[0]    # UnionArrays can't be empty
             out = awkwardlib.UnionArray(tags, index, contents)
             if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
+                mask = frombuffer(mask, ARROW_BITMASKTYPE)
                 return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
             else:
                 return out
@@ -341,8 +344,8 @@ def fromarrow(obj):
         elif isinstance(tpe, pyarrow.lib.UnionType) and tpe.mode == "dense":
             assert getattr(tpe, "num_buffers", 3) == 3
             mask = buffers.pop(0)
-            tags = uniontags(tpe, awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_TAGTYPE)[:length])
-            index = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length]
+            tags = uniontags(tpe, frombuffer(buffers.pop(0), ARROW_TAGTYPE)[:length])
+            index = frombuffer(buffers.pop(0), ARROW_INDEXTYPE)[:length]
             contents = []
             for i, field in enumerate(_fields(tpe)):
                 try:
@@ -361,7 +364,7 @@ def fromarrow(obj):
                 return contents[0]    # UnionArrays can't be empty
             out = awkwardlib.UnionArray(tags, index, contents)
             if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
+                mask = frombuffer(mask, ARROW_BITMASKTYPE)
                 return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
             else:
                 return out
@@ -369,11 +372,11 @@ def fromarrow(obj):
         elif tpe == pyarrow.string():
             assert getattr(tpe, "num_buffers", 3) == 3
             mask = buffers.pop(0)
-            offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length + 1]
-            content = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_CHARTYPE)[:offsets[-1]]
+            offsets = fromoffsets(buffers.pop(0), ARROW_INDEXTYPE, length)
+            content = frombuffer(buffers.pop(0), ARROW_CHARTYPE)[:offsets[-1]]
             out = awkwardlib.StringArray.fromoffsets(offsets, content[:offsets[-1]], encoding="utf-8")
             if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
+                mask = frombuffer(mask, ARROW_BITMASKTYPE)
                 return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
             else:
                 return out
@@ -381,11 +384,11 @@ def fromarrow(obj):
         elif tpe == pyarrow.large_string():
             assert getattr(tpe, "num_buffers", 3) == 3
             mask = buffers.pop(0)
-            offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_LARGEINDEXTYPE)[:length + 1]
-            content = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_CHARTYPE)[:offsets[-1]]
+            offsets = fromoffsets(buffers.pop(0), ARROW_LARGEINDEXTYPE, length)
+            content = frombuffer(buffers.pop(0), ARROW_CHARTYPE)[:offsets[-1]]
             out = awkwardlib.StringArray.fromoffsets(offsets, content[:offsets[-1]], encoding="utf-8")
             if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
+                mask = frombuffer(mask, ARROW_BITMASKTYPE)
                 return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
             else:
                 return out
@@ -393,11 +396,11 @@ def fromarrow(obj):
         elif tpe == pyarrow.binary():
             assert getattr(tpe, "num_buffers", 3) == 3
             mask = buffers.pop(0)
-            offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_INDEXTYPE)[:length + 1]
-            content = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_CHARTYPE)[:offsets[-1]]
+            offsets = fromoffsets(buffers.pop(0), ARROW_INDEXTYPE, length)
+            content = frombuffer(buffers.pop(0), ARROW_CHARTYPE)[:offsets[-1]]
             out = awkwardlib.StringArray.fromoffsets(offsets, content[:offsets[-1]], encoding=None)
             if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
+                mask = frombuffer(mask, ARROW_BITMASKTYPE)
                 return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
             else:
                 return out
@@ -405,11 +408,11 @@ def fromarrow(obj):
         elif tpe == pyarrow.large_binary():
             assert getattr(tpe, "num_buffers", 3) == 3
             mask = buffers.pop(0)
-            offsets = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_LARGEINDEXTYPE)[:length + 1]
-            content = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_CHARTYPE)[:offsets[-1]]
+            offsets = fromoffsets(buffers.pop(0), ARROW_LARGEINDEXTYPE, length)
+            content = frombuffer(buffers.pop(0), ARROW_CHARTYPE)[:offsets[-1]]
             out = awkwardlib.StringArray.fromoffsets(offsets, content[:offsets[-1]], encoding=None)
             if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
+                mask = frombuffer(mask, ARROW_BITMASKTYPE)
                 return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
             else:
                 return out
@@ -417,10 +420,10 @@ def fromarrow(obj):
         elif tpe == pyarrow.bool_():
             assert getattr(tpe, "num_buffers", 2) == 2
             mask = buffers.pop(0)
-            out = awkwardlib.numpy.unpackbits(awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=ARROW_CHARTYPE)).view(awkwardlib.MaskedArray.BOOLTYPE)
+            out = awkwardlib.numpy.unpackbits(frombuffer(buffers.pop(0), ARROW_CHARTYPE)).view(awkwardlib.MaskedArray.BOOLTYPE)
             out = out.reshape(-1, 8)[:,::-1].reshape(-1)[:length]    # lsborder=True
             if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
+                mask = frombuffer(mask, ARROW_BITMASKTYPE)
                 return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
             else:
                 return out
@@ -429,9 +432,9 @@ def fromarrow(obj):
             dtype = _dtype(tpe)
             assert getattr(tpe, "num_buffers", 2) == 2
             mask = buffers.pop(0)
-            out = awkwardlib.numpy.frombuffer(buffers.pop(0), dtype=dtype)[:length]
+            out = frombuffer(buffers.pop(0), dtype)[:length]
             if mask is not None:
-                mask = awkwardlib.numpy.frombuffer(mask, dtype=ARROW_BITMASKTYPE)
+                mask = frombuffer(mask, ARROW_BITMASKTYPE)
                 return awkwardlib.BitMaskedArray(mask, out, maskedwhen=False, lsborder=True)
             else:
                 return out
@@ -451,7 +454,7 @@ def fromarrow(obj):
         return out
 
     elif isinstance(obj, pyarrow.lib.ChunkedArray):
-        chunks = [x for x in obj.chunks if len(x) > 0]
+        chunks = [x for x in obj.chunks if len(x) > 0] or obj.chunks[:1]
         if len(chunks) == 1:
             return fromarrow(chunks[0])
         else:
@@ -471,7 +474,9 @@ def fromarrow(obj):
             if len(chunk) > 0:
                 chunks.append(chunk)
                 chunksizes.append(len(chunk))
-        if len(chunks) == 1:
+        if len(chunks) == 0:
+            return awkwardlib.Table.frompairs([(n, fromarrow(x)) for n, x in zip(obj.schema.names, obj.columns)], 0)
+        elif len(chunks) == 1:
             return chunks[0]
         else:
             return awkwardlib.ChunkedArray(chunks, chunksizes=chunksizes)
-- 
2.43.0


From 52690eba2620c464b7a83a75a31d28b1197ef306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:21 +0000
Subject: [PATCH 099/195] fix: masked arrays convert to Arrow with any index
 under the mask

---
 awkward0/arrow.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 4981030..73d1f9e 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -122,6 +122,13 @@ def schema2type(schema):
 def toarrow(obj):
     import pyarrow
 
+    def unmasked(obj, mask):
+        # content of an IndexedMaskedArray with one item per mask item, whatever is masked
+        if len(obj.content) == 0:
+            return obj.numpy.zeros(len(obj.mask), dtype=obj.DEFAULTTYPE)
+        else:
+            return obj.content[obj.numpy.where(mask, 0, obj.mask)]
+
     def recurse(obj, mask):
         if isinstance(obj, numpy.ndarray):
             return pyarrow.array(obj, mask=mask)
@@ -150,19 +157,16 @@ def toarrow(obj):
 
         elif isinstance(obj, awkward0.array.masked.IndexedMaskedArray):
             thismask = obj.boolmask(maskedwhen=True)
+            content = unmasked(obj, thismask)
             if mask is not None:
                 thismask = mask | thismask
-            if len(obj.content) == 0:
-                content = obj.numpy.empty(len(obj.mask), dtype=obj.DEFAULTTYPE)
-            else:
-                content = obj.content[obj.mask]
             return recurse(content, thismask)
 
         elif isinstance(obj, awkward0.array.masked.MaskedArray):   # includes BitMaskedArray
             thismask = obj.boolmask(maskedwhen=True)
             if mask is not None:
                 thismask = mask | thismask
-            return recurse(obj.content, thismask)
+            return recurse(obj.content[:len(obj)], thismask)
 
         elif isinstance(obj, awkward0.array.objects.StringArray):
             if obj.encoding is None and hasattr(pyarrow.BinaryArray, 'from_buffers'):
@@ -226,10 +230,7 @@ def toarrow(obj):
 
     elif isinstance(obj, awkward0.array.masked.IndexedMaskedArray) and isinstance(obj.content, awkward0.array.table.Table):
         mask = obj.boolmask(maskedwhen=True)
-        if len(obj.content) == 0:
-            content = obj.numpy.empty(len(obj.mask), dtype=obj.DEFAULTTYPE)
-        else:
-            content = obj.content[obj.mask]
+        content = unmasked(obj, mask)
         return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in obj.content.contents.values()], list(obj.content.contents))])
 
     elif isinstance(obj, awkward0.array.masked.MaskedArray) and isinstance(obj.content, awkward0.array.table.Table):   # includes BitMaskedArray
-- 
2.43.0


From dfe674ee5b9368667d3cce1c03d65864a96a4824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 100/195] fix: views of Tables convert to Arrow with the rows
 that they view

---
 awkward0/arrow.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 73d1f9e..3f3fe3c 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -129,6 +129,13 @@ def toarrow(obj):
         else:
             return obj.content[obj.numpy.where(mask, 0, obj.mask)]
 
+    def columns(obj):
+        # as seen by the Table, which may be a view with only some rows of its contents
+        return [obj[n][:len(obj)] for n in obj.columns]
+
+    def totable(obj, mask):
+        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in columns(obj)], list(obj.columns))])
+
     def recurse(obj, mask):
         if isinstance(obj, numpy.ndarray):
             return pyarrow.array(obj, mask=mask)
@@ -197,7 +204,7 @@ def toarrow(obj):
             return recurse(obj.content, mask)
 
         elif isinstance(obj, awkward0.array.table.Table):
-            return pyarrow.StructArray.from_arrays([recurse(x, mask) for x in obj.contents.values()], list(obj.contents))
+            return pyarrow.StructArray.from_arrays([recurse(x, mask) for x in columns(obj)], list(obj.columns))
 
         elif isinstance(obj, awkward0.array.union.UnionArray):
             contents = []
@@ -228,17 +235,17 @@ def toarrow(obj):
                 batches.append(pyarrow.RecordBatch.from_arrays([arr], [""]))
         return pyarrow.Table.from_batches(batches)
 
-    elif isinstance(obj, awkward0.array.masked.IndexedMaskedArray) and isinstance(obj.content, awkward0.array.table.Table):
+    elif isinstance(obj, awkward0.array.masked.IndexedMaskedArray) and isinstance(obj.content, awkward0.array.table.Table) and len(obj.content) != 0:
         mask = obj.boolmask(maskedwhen=True)
         content = unmasked(obj, mask)
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in obj.content.contents.values()], list(obj.content.contents))])
+        return totable(content, mask)
 
     elif isinstance(obj, awkward0.array.masked.MaskedArray) and isinstance(obj.content, awkward0.array.table.Table):   # includes BitMaskedArray
         mask = obj.boolmask(maskedwhen=True)
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, mask) for x in obj.content.contents.values()], list(obj.content.contents))])
+        return totable(obj.content[:len(obj)], mask)
 
     elif isinstance(obj, awkward0.array.table.Table):
-        return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([recurse(x, None) for x in obj.contents.values()], list(obj.contents))])
+        return totable(obj, None)
 
     else:
         return recurse(obj, None)
-- 
2.43.0


From de86f6d7995221b9da61f9e5116c9ab09af6a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:30 +0000
Subject: [PATCH 101/195] fix: missing strings and missing union items stay
 missing in Arrow

---
 awkward0/arrow.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 3f3fe3c..1d0f8d8 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -176,6 +176,11 @@ def toarrow(obj):
             return recurse(obj.content[:len(obj)], thismask)
 
         elif isinstance(obj, awkward0.array.objects.StringArray):
+            if mask is None:
+                nullcount, validity = 0, None
+            else:
+                nullcount, validity = int(obj.numpy.count_nonzero(mask)), pyarrow.py_buffer(awkward0.array.masked.BitMaskedArray.bool2bit(obj.numpy.logical_not(mask), lsborder=True))
+
             if obj.encoding is None and hasattr(pyarrow.BinaryArray, 'from_buffers'):
                 arrow_type = pyarrow.BinaryArray
                 arrow_offset_type = pyarrow.binary()
@@ -183,12 +188,12 @@ def toarrow(obj):
                 # if hasattr(pyarrow, 'LargeBinaryArray') and obj.starts.itemsize > 4:
                 #     arrow_type = pyarrow.LargeBinaryArray
                 #     arrow_offset_type = pyarrow.large_binary()
-                convert = lambda length, offsets, content: arrow_type.from_buffers(arrow_offset_type, length, [None, offsets, content])
-            elif codecs.lookup(obj.encoding) is codecs.lookup("utf-8") or obj.encoding is None:
+                convert = lambda length, offsets, content: arrow_type.from_buffers(arrow_offset_type, length, [validity, offsets, content], nullcount)
+            elif obj.encoding is None or codecs.lookup(obj.encoding) == codecs.lookup("utf-8"):
                 arrow_type = pyarrow.StringArray
                 # if hasattr(pyarrow, 'LargeStringArray') and obj.starts.itemsize > 4:
                 #     arrow_type = pyarrow.LargeStringArray
-                convert = lambda length, offsets, content: arrow_type.from_buffers(length, offsets, content)
+                convert = lambda length, offsets, content: arrow_type.from_buffers(length, offsets, content, validity, nullcount)
             else:
                 raise ValueError("only encoding=None or encoding='utf-8' can be converted to Arrow")
 
@@ -208,16 +213,17 @@ def toarrow(obj):
 
         elif isinstance(obj, awkward0.array.union.UnionArray):
             contents = []
+            index = obj.index[:len(obj.tags)].astype(numpy.int32)
             for i, x in enumerate(obj.contents):
                 if mask is None:
-                    thismask = None
+                    contents.append(recurse(x, None))
                 else:
+                    # an item of the content may appear more than once, masked in only some of them
                     thistags = (obj.tags == i)
-                    thismask = obj.numpy.empty(len(x), dtype=obj.MASKTYPE)
-                    thismask[obj.index[thistags]] = mask[thistags]    # hmm... obj.index could have repeats; the Arrow mask in that case would not be well-defined...
-                contents.append(recurse(x, thismask))
+                    contents.append(recurse(x[index[thistags]], mask[thistags]))
+                    index[thistags] = obj.numpy.arange(obj.numpy.count_nonzero(thistags))
 
-            return pyarrow.UnionArray.from_dense(pyarrow.array(obj.tags.astype(numpy.int8)), pyarrow.array(obj.index.astype(numpy.int32)), contents)
+            return pyarrow.UnionArray.from_dense(pyarrow.array(obj.tags.astype(numpy.int8)), pyarrow.array(index), contents)
 
         elif isinstance(obj, awkward0.array.virtual.VirtualArray):
             return recurse(obj.array, mask)
-- 
2.43.0


From 6d6f2f51be51133c5bf537da4b9f611331719f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:50 +0000
Subject: [PATCH 102/195] fix: unions with any index and masked lists in any
 layout convert to valid Arrow

---
 awkward0/arrow.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 1d0f8d8..193dcfc 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -153,8 +153,10 @@ def toarrow(obj):
             return recurse(obj.dense, mask)
 
         elif isinstance(obj, awkward0.array.jagged.JaggedArray):
-            obj = obj.compact()
-            if mask is not None:
+            if mask is None:
+                obj = obj.compact()
+            else:
+                obj = obj.fromcounts(obj.counts, obj.flatten())   # nothing but what is in the lists
                 mask = obj.tojagged(mask).flatten()
             arrow_type = pyarrow.ListArray
             # 64bit offsets not yet completely golden in arrow
@@ -215,12 +217,12 @@ def toarrow(obj):
             contents = []
             index = obj.index[:len(obj.tags)].astype(numpy.int32)
             for i, x in enumerate(obj.contents):
-                if mask is None:
+                thistags = (obj.tags == i)
+                if mask is None and (index[thistags][1:] >= index[thistags][:-1]).all():
                     contents.append(recurse(x, None))
                 else:
-                    # an item of the content may appear more than once, masked in only some of them
-                    thistags = (obj.tags == i)
-                    contents.append(recurse(x[index[thistags]], mask[thistags]))
+                    # Arrow requires increasing indexes, and an item of the content that appears more than once may be masked in only some of them
+                    contents.append(recurse(x[index[thistags]], None if mask is None else mask[thistags]))
                     index[thistags] = obj.numpy.arange(obj.numpy.count_nonzero(thistags))
 
             return pyarrow.UnionArray.from_dense(pyarrow.array(obj.tags.astype(numpy.int8)), pyarrow.array(index), contents)
-- 
2.43.0


From b6147b21f45843d4d13402b58b6946289c19119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:54 +0000
Subject: [PATCH 103/195] fix: ChunkedArrays and Parquet files without rows
 keep their columns

---
 awkward0/arrow.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 193dcfc..f4e8f53 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -235,13 +235,15 @@ def toarrow(obj):
 
     if isinstance(obj, awkward0.array.chunked.ChunkedArray):   # includes AppendableArray
         batches = []
+        schema = None
         for chunk in obj.chunks:
             arr = toarrow(chunk)
-            if isinstance(arr, pyarrow.Table):
-                batches.extend(arr.to_batches())
-            else:
-                batches.append(pyarrow.RecordBatch.from_arrays([arr], [""]))
-        return pyarrow.Table.from_batches(batches)
+            if not isinstance(arr, pyarrow.Table):
+                arr = pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([arr], [""])])
+            if schema is None:
+                schema = arr.schema
+            batches.extend(arr.to_batches())
+        return pyarrow.Table.from_batches(batches, schema=schema)
 
     elif isinstance(obj, awkward0.array.masked.IndexedMaskedArray) and isinstance(obj.content, awkward0.array.table.Table) and len(obj.content) != 0:
         mask = obj.boolmask(maskedwhen=True)
@@ -628,4 +630,10 @@ def fromparquet(file, cache=None, persistvirtual=False, metadata=None, common_me
             chunks.append(chunk)
             chunksizes.append(numrows)
 
+    if len(chunks) == 0:
+        # no row groups, but columns with types
+        empty = fromarrow(parquetfile.parquetfile.read())
+        chunks.append(empty[""] if columns == [""] else empty)
+        chunksizes.append(0)
+
     return awkwardlib.ChunkedArray(chunks, chunksizes)
-- 
2.43.0


From d9e7d5d5a1d1ede367cc7f8b3d31cedf9938764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:21 +0000
Subject: [PATCH 104/195] fix: arrays with nothing but missing values keep
 their type in Arrow

---
 awkward0/arrow.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index f4e8f53..c3f7877 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -165,6 +165,8 @@ def toarrow(obj):
             return arrow_type.from_arrays(obj.offsets, recurse(obj.content, mask))
 
         elif isinstance(obj, awkward0.array.masked.IndexedMaskedArray):
+            if len(obj.content) == 0 and hasattr(pyarrow, "nulls"):
+                return pyarrow.nulls(len(obj.mask), recurse(obj.content, None).type)
             thismask = obj.boolmask(maskedwhen=True)
             content = unmasked(obj, thismask)
             if mask is not None:
-- 
2.43.0


From 87d27cefa53314c4ebecbd7e25deafdab4a769ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:42 +0000
Subject: [PATCH 105/195] fix: Arrow buffers with any padding are read, and
 empty columns keep their type

---
 awkward0/arrow.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index c3f7877..645c6d4 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -247,7 +247,9 @@ def toarrow(obj):
             batches.extend(arr.to_batches())
         return pyarrow.Table.from_batches(batches, schema=schema)
 
-    elif isinstance(obj, awkward0.array.masked.IndexedMaskedArray) and isinstance(obj.content, awkward0.array.table.Table) and len(obj.content) != 0:
+    elif isinstance(obj, awkward0.array.masked.IndexedMaskedArray) and isinstance(obj.content, awkward0.array.table.Table):
+        if len(obj.content) == 0 and hasattr(pyarrow, "nulls"):
+            return pyarrow.Table.from_batches([pyarrow.RecordBatch.from_arrays([pyarrow.nulls(len(obj.mask), recurse(x, None).type) for x in columns(obj.content)], list(obj.content.columns))])
         mask = obj.boolmask(maskedwhen=True)
         content = unmasked(obj, mask)
         return totable(content, mask)
@@ -272,8 +274,11 @@ def fromarrow(obj):
     ARROW_CHARTYPE = awkwardlib.numpy.uint8
 
     def frombuffer(buf, dtype):
-        # Arrow may leave out the buffers of empty arrays
-        return awkwardlib.numpy.frombuffer(b"" if buf is None else buf, dtype=dtype)
+        # Arrow may leave out the buffers of empty arrays, and buffers may have any padding
+        if buf is None:
+            return awkwardlib.numpy.empty(0, dtype=dtype)
+        dtype = awkwardlib.numpy.dtype(dtype)
+        return awkwardlib.numpy.frombuffer(buf, dtype=dtype, count=len(buf) // dtype.itemsize)
 
     def fromoffsets(buf, dtype, length):
         return frombuffer(buf, dtype)[:length + 1] if length != 0 else awkwardlib.numpy.zeros(1, dtype=dtype)
@@ -475,6 +480,8 @@ def fromarrow(obj):
 
     elif isinstance(obj, pyarrow.lib.ChunkedArray):
         chunks = [x for x in obj.chunks if len(x) > 0] or obj.chunks[:1]
+        if len(chunks) == 0 and hasattr(pyarrow, "nulls"):
+            chunks = [pyarrow.nulls(0, obj.type)]
         if len(chunks) == 1:
             return fromarrow(chunks[0])
         else:
-- 
2.43.0


From ecd01fdcf02dac50de74ccab5693d2004ef70c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:05 +0000
Subject: [PATCH 106/195] fix: a column is truncated to the length of its
 Table, as documented

---
 awkward0/array/table.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index cd6e887..79e2fe5 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -470,6 +470,21 @@ class Table(awkward0.array.base.AwkwardArray):
         else:
             return len(self._view)
 
+    @classmethod
+    def _util_knownlength(cls, array):
+        # infinite if it can't be known without making the data
+        if isinstance(array, awkward0.array.virtual.VirtualArray):
+            known = array._type is not None or array.ismaterialized
+        elif isinstance(array, awkward0.array.chunked.ChunkedArray):
+            known = array.chunksizesknown
+        elif isinstance(array, (awkward0.array.objects.ObjectArray, awkward0.array.masked.BitMaskedArray)):
+            return cls._util_knownlength(array._content)
+        elif isinstance(array, Table) and array._view is None:
+            return min([float("inf")] + [cls._util_knownlength(x) for x in array._contents.values()])
+        else:
+            known = True
+        return len(array) if known else float("inf")
+
     def _index(self):
         if self._view is None:
             return slice(self._length())
@@ -608,9 +623,14 @@ class Table(awkward0.array.base.AwkwardArray):
             if isinstance(where, awkward0.util.string):
                 if self._view is None:
                     try:
-                        return self._contents[where]
+                        out = self._contents[where]
                     except KeyError:
                         raise ValueError("no column named {0}".format(repr(where)))
+                    shortest = min([self._util_knownlength(x) for x in self._contents.values()])
+                    if shortest < self._util_knownlength(out) < float("inf"):
+                        return out[:shortest]
+                    else:
+                        return out
                 else:
                     index = self._index()
                     try:
-- 
2.43.0


From fc3facc0966b822cdab2669ff767ee9adb605165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:35 +0000
Subject: [PATCH 107/195] fix: columns of a Row can be selected by a list of
 names

---
 awkward0/array/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 79e2fe5..1266c9c 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -80,7 +80,7 @@ class Table(awkward0.array.base.AwkwardArray):
                 except KeyError:
                     raise ValueError("no column named {0}".format(repr(where)))
 
-            elif self._util_isstringslice(where):
+            elif self._table._util_isstringslice(where):
                 contents = OrderedDict()
                 for n in where:
                     try:
-- 
2.43.0


From 1ddb7354a6c4de79d2b51cb1cc627571c661e721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:40 +0000
Subject: [PATCH 108/195] fix: assignments to and deletions from a VirtualArray
 all survive an eviction, in order

---
 awkward0/array/virtual.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 717729e..47288ab 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -330,7 +330,8 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                 array[n] = x
         if self._delitem is not None:
             for n in self._delitem:
-                del array[n]
+                if n in array.columns:          # it might have been an assigned column
+                    del array[n]
 
         if self._type is not None:
             materializedtype = awkward0.type.fromarray(array)
@@ -373,20 +374,28 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         self.array[where] = what
         if self._type is not None:
             self._type = awkward0.type.fromarray(self.array)
+        if self._util_isstringslice(where) and not isinstance(where, awkward0.util.string):
+            columns = list(zip(where, what.unzip()))
+        else:
+            columns = [(where, what)]
         if self._setitem is None:
             self._setitem = OrderedDict()
-        self._setitem[where] = what
+        for n, x in columns:
+            self._setitem[n] = x
+            if self._delitem is not None and n in self._delitem:
+                self._delitem.remove(n)
 
     def __delitem__(self, where):
         del self.array[where]
         if self._type is not None:
             self._type = awkward0.type.fromarray(self.array)
-        if self._setitem is not None and where in self._setitem:
-            del self._setitem
         if self._delitem is None:
             self._delitem = []
-        if where not in self._delitem:
-            self._delitem.append(where)
+        for n in [where] if isinstance(where, awkward0.util.string) else where:
+            if self._setitem is not None and n in self._setitem:
+                del self._setitem[n]
+            if n not in self._delitem:
+                self._delitem.append(n)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         if "out" in kwargs:
-- 
2.43.0


From 6d15849839396609bff3acb054dbde591fade44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:46 +0000
Subject: [PATCH 109/195] fix: assigning to a UnionArray or IndexedArray puts
 every value in its own row

---
 awkward0/array/indexed.py |  5 ++++-
 awkward0/array/union.py   | 10 ++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 76bd110..00f2932 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -161,7 +161,10 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _invert(self, what):
         if self._inverse is None:
             self._inverse = self.invert(self._index)
-        return IndexedArray(self._inverse, what)
+        inverse = self._inverse
+        if 0 < len(inverse) < len(self._content):       # not reachable, but the content keeps its length
+            inverse = self.numpy.concatenate([inverse, self.numpy.zeros(len(self._content) - len(inverse), dtype=inverse.dtype)])
+        return IndexedArray(inverse, what)
 
     def __setitem__(self, where, what):
         if what.shape[:len(self._index.shape)] != self._index.shape:
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index a1c2c6b..c4242b2 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -330,17 +330,15 @@ class UnionArray(awkward0.array.base.AwkwardArray):
 
         if isinstance(where, awkward0.util.string):
             for tag in self.numpy.unique(self._tags):
-                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][self._tags == tag])
-                self._contents[tag][where] = self.IndexedArray(inverseindex, what)
+                mask = (self._tags == tag)
+                self.IndexedArray(self._index[:len(self._tags)][mask], self._contents[tag])[where] = what[mask]
 
         elif self._util_isstringslice(where):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
-            for tag in self.numpy.unique(self._tags):
-                inverseindex = self.IndexedArray.invert(self._index[:len(self._tags)][self._tags == tag])
-                for x, y in zip(where, what):
-                    self._contents[tag][x] = self.IndexedArray(inverseindex, y)
+            for x, y in zip(where, what):
+                self[x] = y
 
         else:
             raise TypeError("invalid index for assigning column to Table: {0}".format(where))
-- 
2.43.0


From c9e2af58886ee1a7c6be608fb2d2ea7ccc5f202a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:51 +0000
Subject: [PATCH 110/195] fix: assigning to an IndexedMaskedArray puts every
 value in its own row

---
 awkward0/array/masked.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 9068c8c..b75706c 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -717,6 +717,15 @@ class IndexedMaskedArray(MaskedArray):
         self._mask = value
         self._isvalid = False
 
+    def __setitem__(self, where, what):
+        if self._util_isstringslice(where):
+            if len(what) != len(self):
+                raise ValueError("cannot assign array of length {0} to array of length {1}".format(len(what), len(self)))
+            present = self.boolmask(maskedwhen=False)
+            self.IndexedArray(self._mask[present], self._content)[where] = what[present]
+        else:
+            super(IndexedMaskedArray, self).__setitem__(where, what)
+
     @property
     def content(self):
         return self._content
-- 
2.43.0


From 4ebd6eca88d1d9df61bcfdd2da18098c42be8b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:57 +0000
Subject: [PATCH 111/195] fix: assigning or deleting a column of a ChunkedArray
 updates its type

---
 awkward0/array/chunked.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index ff19289..281eeb0 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -507,11 +507,12 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if isinstance(what, ChunkedArray) and self._aligned(what):
             for i, (mine, theirs) in enumerate(zip(self._chunks, what._chunks)):
                 mine[where] = theirs
-                self._types[i] = mine.type.to
+                self._types[i] = awkward0.type.fromarray(mine).to
         else:
             raise ValueError("only ChunkedArrays with the same chunk sizes can be assigned to columns of a ChunkedArray")
 
     def __delitem__(self, where):
+        self._types = [None] * len(self._chunks)
         if isinstance(where, awkward0.util.string):
             for chunk in self._chunks:
                 del chunk[where]
-- 
2.43.0


From 192d5a84d9da4f610e7c5fa2581365b96b978c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:40 +0000
Subject: [PATCH 112/195] fix: columns selected from a UnionArray are the only
 columns it has left

---
 awkward0/array/union.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index c4242b2..06d294d 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -295,8 +295,11 @@ class UnionArray(awkward0.array.base.AwkwardArray):
 
         if self._util_isstringslice(where):
             contents = list(self._contents)
-            for tag in self.numpy.unique(self._tags):
-                contents[tag] = self._contents[tag][where]
+            tags = set(self.numpy.unique(self._tags))
+            names = set([where] if isinstance(where, awkward0.util.string) else where)
+            for tag in range(len(contents)):
+                if tag in tags or names.issubset(self._util_columns_descend(contents[tag], set())):
+                    contents[tag] = self._contents[tag][where]
             # TODO: think about inheriting methods from contents[where]; all satisfying tags would have to have the same methods before promoting the output (generalized maybemixin?)
             if len(contents) == 0:
                 return self.copy(contents=[self._contents[0][where]])
-- 
2.43.0


From 931652596238a7bceb61ed9dfd24cf7f0496ecd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:45 +0000
Subject: [PATCH 113/195] fix: lists in any wrapper and any layout can be
 assigned to columns in lists

---
 awkward0/array/jagged.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index b990675..8caad28 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -768,16 +768,27 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         return node[tail]
 
+    def _tocontent(self, what):
+        # the values in the positions of the content
+        if self._overlapping():
+            raise ValueError("cannot assign columns to lists that share their elements")
+        while isinstance(what, (self.IndexedArray, self.VirtualArray)):
+            what = what[:]
+        what = self.tojagged(what)._content
+        if 0 < len(what) != len(self._content):     # not reachable, but the content keeps its length
+            what = what[self.numpy.minimum(self.numpy.arange(len(self._content)), len(what) - 1)]
+        return what
+
     def __setitem__(self, where, what):
         if isinstance(where, awkward0.util.string):
-            self._content[where] = self.tojagged(what)._content
+            self._content[where] = self._tocontent(what)
 
         elif self._util_isstringslice(where):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
             for x, y in zip(where, what):
-                self._content[x] = self.tojagged(y)._content
+                self._content[x] = self._tocontent(y)
 
         elif isinstance(where, JaggedArray):
             if isinstance(what, JaggedArray):
-- 
2.43.0


From c8963cd23f4f608162398c8193889529608563bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:09 +0000
Subject: [PATCH 114/195] fix: ChunkedArrays without rows have the columns of
 their chunks

---
 awkward0/array/chunked.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 281eeb0..632cf6a 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -766,6 +766,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             self.knowchunksizes(chunkid + 1)
             if self._chunksizes[chunkid] > 0:
                 return self._util_columns_descend(self._chunks[chunkid], seen)
+        if len(self._chunks) != 0:
+            return self._util_columns_descend(self._chunks[0], seen)
         return []
 
     def _util_rowname(self, seen):
-- 
2.43.0


From 3058261eec1277d2ea0727ae73c34170d574c761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 115/195] fix: deleting a column of a UnionArray deletes it
 from the contents that are not in use, too

---
 awkward0/array/union.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 06d294d..e29f8f8 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -348,13 +348,14 @@ class UnionArray(awkward0.array.base.AwkwardArray):
 
     def __delitem__(self, where):
         if isinstance(where, awkward0.util.string):
-            for tag in self.numpy.unique(self._tags):
-                del self._contents[tag][where]
+            tags = set(self.numpy.unique(self._tags))
+            for tag in range(len(self._contents)):
+                if tag in tags or where in self._util_columns_descend(self._contents[tag], set()):
+                    del self._contents[tag][where]
 
         elif self._util_isstringslice(where):
-            for tag in self.numpy.unique(self._tags):
-                for x in where:
-                    del self._contents[tag][x]
+            for x in where:
+                del self[x]
 
         else:
             raise TypeError("invalid index for assigning column to Table: {0}".format(where))
-- 
2.43.0


From eb6d8bc77576a3b6278cc0961768b37cd399c4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:20 +0000
Subject: [PATCH 116/195] fix: columns are assigned to lists through masks and
 indexes, whatever the unreachable lists

---
 awkward0/array/base.py    | 10 ++++++++++
 awkward0/array/indexed.py |  8 ++++++--
 awkward0/array/jagged.py  |  5 +++++
 awkward0/array/masked.py  | 10 ++++++++++
 4 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 1dc7a97..68286d2 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -717,6 +717,16 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
     def unzip(self):
         return tuple(self[column_name] for column_name in self._util_columns(set()))
 
+    @classmethod
+    def _util_selectable(cls, array):
+        # the array itself if selecting its rows leaves the Table that it contains (so that new columns can be attached to it)
+        while isinstance(array, (cls.IndexedArray.fget(None), cls.VirtualArray.fget(None))):
+            array = array[:]
+        if isinstance(array, (cls.JaggedArray.fget(None), cls.IndexedMaskedArray.fget(None), cls.UnionArray.fget(None))):
+            return array
+        else:
+            return None
+
 class AwkwardArrayWithContent(AwkwardArray):
     """
     AwkwardArrayWithContent: abstract base class
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 00f2932..023affb 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -171,14 +171,18 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise ValueError("array to assign does not have the same starting shape as index")
 
         if isinstance(where, awkward0.util.string):
-            self._content[where] = self._invert(what)
+            selectable = self._util_selectable(self._content)
+            if selectable is None:
+                self._content[where] = self._invert(what)
+            else:
+                selectable[self._index.reshape(-1)][where] = what
 
         elif self._util_isstringslice(where):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
             for x, y in zip(where, what):
-                self._content[x] = self._invert(y)
+                self[x] = y
 
         else:
             raise TypeError("invalid index for assigning column to Table: {0}".format(where))
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 8caad28..113c53d 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -774,6 +774,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise ValueError("cannot assign columns to lists that share their elements")
         while isinstance(what, (self.IndexedArray, self.VirtualArray)):
             what = what[:]
+        if isinstance(what, self.MaskedArray) and isinstance(self._util_selectable(what._content), JaggedArray):
+            if what.boolmask(maskedwhen=True).any():
+                raise ValueError("cannot assign missing lists to lists that are not missing")
+            what = what._content[what._mask if isinstance(what, self.IndexedMaskedArray) else slice(len(what))]
+            return self._tocontent(what)
         what = self.tojagged(what)._content
         if 0 < len(what) != len(self._content):     # not reachable, but the content keeps its length
             what = what[self.numpy.minimum(self.numpy.arange(len(self._content)), len(what) - 1)]
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index b75706c..2290d44 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -171,6 +171,16 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
                 yield content[i]
             i += 1
 
+    def __setitem__(self, where, what):
+        selectable = self._util_selectable(self._content)
+        if self._util_isstringslice(where) and selectable is not None:
+            if len(what) != len(self):
+                raise ValueError("cannot assign array of length {0} to array of length {1}".format(len(what), len(self)))
+            present = self.boolmask(maskedwhen=False)
+            selectable[:len(self)][present][where] = what[present]
+        else:
+            super(MaskedArray, self).__setitem__(where, what)
+
     def __getitem__(self, where):
         self._valid()
 
-- 
2.43.0


From e618c887d707164da7ed0e19b3c1342b1f485e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:35 +0000
Subject: [PATCH 117/195] fix: columns are assigned to nested lists, whatever
 the unreachable lists

---
 awkward0/array/base.py    | 18 ++++++++++++------
 awkward0/array/indexed.py |  7 +++----
 awkward0/array/jagged.py  | 20 +++++++++++++-------
 awkward0/array/masked.py  |  5 ++---
 4 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 68286d2..3af1cfd 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -719,13 +719,19 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
 
     @classmethod
     def _util_selectable(cls, array):
-        # the array itself if selecting its rows leaves the Table that it contains (so that new columns can be attached to it)
-        while isinstance(array, (cls.IndexedArray.fget(None), cls.VirtualArray.fget(None))):
-            array = array[:]
-        if isinstance(array, (cls.JaggedArray.fget(None), cls.IndexedMaskedArray.fget(None), cls.UnionArray.fget(None))):
-            return array
+        # does selecting rows leave the Table in the array as it is (so that new columns can be attached to it)?
+        return isinstance(array, (cls.JaggedArray.fget(None), cls.IndexedMaskedArray.fget(None), cls.UnionArray.fget(None), cls.IndexedArray.fget(None)))
+
+    @classmethod
+    def _util_assignrows(cls, array, index, where, what):
+        # assign a column to some rows of a selectable array
+        if isinstance(array, cls.IndexedArray.fget(None)):
+            array = array.copy(index=array._index[index])
+        elif isinstance(array, cls.UnionArray.fget(None)):
+            array = array.copy(tags=array._tags[index], index=array._index[:len(array._tags)][index])
         else:
-            return None
+            array = array[index]
+        array[where] = what
 
 class AwkwardArrayWithContent(AwkwardArray):
     """
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 023affb..2fac5d0 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -171,11 +171,10 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise ValueError("array to assign does not have the same starting shape as index")
 
         if isinstance(where, awkward0.util.string):
-            selectable = self._util_selectable(self._content)
-            if selectable is None:
-                self._content[where] = self._invert(what)
+            if self._util_selectable(self._content):
+                self._util_assignrows(self._content, self._index.reshape(-1), where, what)
             else:
-                selectable[self._index.reshape(-1)][where] = what
+                self._content[where] = self._invert(what)
 
         elif self._util_isstringslice(where):
             what = what.unzip()
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 113c53d..ca67049 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -774,11 +774,12 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise ValueError("cannot assign columns to lists that share their elements")
         while isinstance(what, (self.IndexedArray, self.VirtualArray)):
             what = what[:]
-        if isinstance(what, self.MaskedArray) and isinstance(self._util_selectable(what._content), JaggedArray):
-            if what.boolmask(maskedwhen=True).any():
-                raise ValueError("cannot assign missing lists to lists that are not missing")
-            what = what._content[what._mask if isinstance(what, self.IndexedMaskedArray) else slice(len(what))]
-            return self._tocontent(what)
+        if isinstance(what, self.MaskedArray):
+            lists = what._content[what._mask if isinstance(what, self.IndexedMaskedArray) else slice(len(what))]
+            if isinstance(lists, (JaggedArray, self.IndexedArray, self.VirtualArray, self.MaskedArray)):
+                if what.boolmask(maskedwhen=True).any():
+                    raise ValueError("cannot assign missing lists to lists that are not missing")
+                return self._tocontent(lists)
         what = self.tojagged(what)._content
         if 0 < len(what) != len(self._content):     # not reachable, but the content keeps its length
             what = what[self.numpy.minimum(self.numpy.arange(len(self._content)), len(what) - 1)]
@@ -786,14 +787,19 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def __setitem__(self, where, what):
         if isinstance(where, awkward0.util.string):
-            self._content[where] = self._tocontent(what)
+            what = self._tocontent(what)
+            if self._util_selectable(self._content):
+                index = (self.localindex + self._starts).flatten()
+                self._util_assignrows(self._content, index, where, what[index])
+            else:
+                self._content[where] = what
 
         elif self._util_isstringslice(where):
             what = what.unzip()
             if len(where) != len(what):
                 raise ValueError("number of keys ({0}) does not match number of provided arrays ({1})".format(len(where), len(what)))
             for x, y in zip(where, what):
-                self._content[x] = self._tocontent(y)
+                self[x] = y
 
         elif isinstance(where, JaggedArray):
             if isinstance(what, JaggedArray):
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 2290d44..f490f17 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -172,12 +172,11 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             i += 1
 
     def __setitem__(self, where, what):
-        selectable = self._util_selectable(self._content)
-        if self._util_isstringslice(where) and selectable is not None:
+        if self._util_isstringslice(where) and self._util_selectable(self._content):
             if len(what) != len(self):
                 raise ValueError("cannot assign array of length {0} to array of length {1}".format(len(what), len(self)))
             present = self.boolmask(maskedwhen=False)
-            selectable[:len(self)][present][where] = what[present]
+            self._util_assignrows(self._content, self.numpy.nonzero(present)[0], where, what[present])
         else:
             super(MaskedArray, self).__setitem__(where, what)
 
-- 
2.43.0


From 4f3cbcd9e6bc28b24518fd92249d9bedd2788457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:28 +0000
Subject: [PATCH 118/195] fix: assigning to lists, masks or indexes that reach
 no rows leaves a valid array

---
 awkward0/array/base.py    | 13 +++++++++++++
 awkward0/array/indexed.py |  2 ++
 awkward0/array/jagged.py  |  4 +++-
 awkward0/array/union.py   |  5 ++++-
 4 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 3af1cfd..79c31ac 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -722,6 +722,19 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         # does selecting rows leave the Table in the array as it is (so that new columns can be attached to it)?
         return isinstance(array, (cls.JaggedArray.fget(None), cls.IndexedMaskedArray.fget(None), cls.UnionArray.fget(None), cls.IndexedArray.fget(None)))
 
+    @classmethod
+    def _util_unreachable(cls, array, length):
+        # elements of the same type as the (empty) array, for rows that can't be seen
+        if isinstance(array, cls.numpy.ndarray):
+            return cls.numpy.zeros((length,) + array.shape[1:], dtype=array.dtype)
+        elif isinstance(array, (cls.JaggedArray.fget(None), cls.StringArray.fget(None))):
+            nothing = cls.numpy.zeros(length, dtype=cls.JaggedArray.fget(None).INDEXTYPE)
+            return array.copy(starts=nothing, stops=nothing)
+        elif isinstance(array, cls.Table.fget(None)):
+            return array._mapcolumns(lambda x: cls._util_unreachable(x, length))
+        else:
+            return cls.IndexedMaskedArray.fget(None)(cls.numpy.full(length, -1), array)
+
     @classmethod
     def _util_assignrows(cls, array, index, where, what):
         # assign a column to some rows of a selectable array
diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 2fac5d0..f239d04 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -162,6 +162,8 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
         if self._inverse is None:
             self._inverse = self.invert(self._index)
         inverse = self._inverse
+        if len(inverse) == 0 and len(self._content) != 0:
+            return self._util_unreachable(what, len(self._content))
         if 0 < len(inverse) < len(self._content):       # not reachable, but the content keeps its length
             inverse = self.numpy.concatenate([inverse, self.numpy.zeros(len(self._content) - len(inverse), dtype=inverse.dtype)])
         return IndexedArray(inverse, what)
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index ca67049..968ad92 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -781,7 +781,9 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     raise ValueError("cannot assign missing lists to lists that are not missing")
                 return self._tocontent(lists)
         what = self.tojagged(what)._content
-        if 0 < len(what) != len(self._content):     # not reachable, but the content keeps its length
+        if len(what) == 0 and len(self._content) != 0:
+            what = self._util_unreachable(what, len(self._content))
+        elif 0 < len(what) != len(self._content):   # not reachable, but the content keeps its length
             what = what[self.numpy.minimum(self.numpy.arange(len(self._content)), len(what) - 1)]
         return what
 
diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index e29f8f8..8d0c216 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -332,7 +332,10 @@ class UnionArray(awkward0.array.base.AwkwardArray):
             raise ValueError("array to assign does not have the same starting shape as tags")
 
         if isinstance(where, awkward0.util.string):
-            for tag in self.numpy.unique(self._tags):
+            tags = set(self.numpy.unique(self._tags))
+            for tag, content in enumerate(self._contents):
+                if tag not in tags and (len(self._util_columns_descend(content, set())) == 0 or getattr(content, "base", None) is not None):
+                    continue
                 mask = (self._tags == tag)
                 self.IndexedArray(self._index[:len(self._tags)][mask], self._contents[tag])[where] = what[mask]
 
-- 
2.43.0


From 7f7081c8439535f48d8387bdf67b0454602b8d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 119/195] fix: missing lists in any encoding are recognized
 when they are assigned to lists

---
 awkward0/array/base.py   | 2 ++
 awkward0/array/jagged.py | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 79c31ac..f233115 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -732,6 +732,8 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
             return array.copy(starts=nothing, stops=nothing)
         elif isinstance(array, cls.Table.fget(None)):
             return array._mapcolumns(lambda x: cls._util_unreachable(x, length))
+        elif type(array) is cls.ObjectArray.fget(None):
+            return array.copy(content=cls._util_unreachable(array._content, length))
         else:
             return cls.IndexedMaskedArray.fget(None)(cls.numpy.full(length, -1), array)
 
diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 968ad92..9379248 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -775,11 +775,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         while isinstance(what, (self.IndexedArray, self.VirtualArray)):
             what = what[:]
         if isinstance(what, self.MaskedArray):
-            lists = what._content[what._mask if isinstance(what, self.IndexedMaskedArray) else slice(len(what))]
+            lists = what._content
             if isinstance(lists, (JaggedArray, self.IndexedArray, self.VirtualArray, self.MaskedArray)):
                 if what.boolmask(maskedwhen=True).any():
                     raise ValueError("cannot assign missing lists to lists that are not missing")
-                return self._tocontent(lists)
+                return self._tocontent(lists[what._mask if isinstance(what, self.IndexedMaskedArray) else slice(len(what))])
         what = self.tojagged(what)._content
         if len(what) == 0 and len(self._content) != 0:
             what = self._util_unreachable(what, len(self._content))
-- 
2.43.0


From 7a3623946185a3241494152d640b807fbca5e0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 120/195] fix: columns are assigned to masked lists through an
 index

---
 awkward0/array/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index f233115..069f75a 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -720,11 +720,15 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
     @classmethod
     def _util_selectable(cls, array):
         # does selecting rows leave the Table in the array as it is (so that new columns can be attached to it)?
+        if isinstance(array, cls.MaskedArray.fget(None)) and cls._util_selectable(array._content):
+            return True
         return isinstance(array, (cls.JaggedArray.fget(None), cls.IndexedMaskedArray.fget(None), cls.UnionArray.fget(None), cls.IndexedArray.fget(None)))
 
     @classmethod
     def _util_unreachable(cls, array, length):
         # elements of the same type as the (empty) array, for rows that can't be seen
+        while isinstance(array, (cls.IndexedArray.fget(None), cls.VirtualArray.fget(None))):
+            array = array[:]
         if isinstance(array, cls.numpy.ndarray):
             return cls.numpy.zeros((length,) + array.shape[1:], dtype=array.dtype)
         elif isinstance(array, (cls.JaggedArray.fget(None), cls.StringArray.fget(None))):
-- 
2.43.0


From 0a0320dac62be71b06b8cefa11c0df18fe74a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 121/195] fix: columns are assigned to masked tables through
 any number of indexes

---
 awkward0/array/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 069f75a..c505a85 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -748,6 +748,9 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
             array = array.copy(index=array._index[index])
         elif isinstance(array, cls.UnionArray.fget(None)):
             array = array.copy(tags=array._tags[index], index=array._index[:len(array._tags)][index])
+        elif isinstance(array, cls.MaskedArray.fget(None)) and not isinstance(array, cls.IndexedMaskedArray.fget(None)):
+            present = array.boolmask(maskedwhen=False)[index]
+            return cls._util_assignrows(array._content, index[present], where, what[present])
         else:
             array = array[index]
         array[where] = what
-- 
2.43.0


From 509b199367a02bb5b7394a7569ee5f09f9d5f582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:27 +0000
Subject: [PATCH 122/195] fix: toarrow and toparquet do not write the unused
 space of an AppendableArray

---
 awkward0/arrow.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 645c6d4..214783a 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -235,7 +235,10 @@ def toarrow(obj):
         else:
             raise TypeError("cannot convert type {0} to Arrow".format(type(obj)))
 
-    if isinstance(obj, awkward0.array.chunked.ChunkedArray):   # includes AppendableArray
+    if isinstance(obj, awkward0.array.chunked.AppendableArray):
+        obj = obj._filled()
+
+    if isinstance(obj, awkward0.array.chunked.ChunkedArray):
         batches = []
         schema = None
         for chunk in obj.chunks:
@@ -528,6 +531,9 @@ def toparquet(where, obj, **options):
         else:
             raise TypeError(message)
 
+    if isinstance(obj, awkward0.array.chunked.AppendableArray):
+        obj = obj._filled()
+
     if isinstance(obj, awkward0.array.chunked.ChunkedArray):
         obj = iter(obj.chunks)
         try:
-- 
2.43.0


From d98d97e2a2fe024741acf44ccf97ba96b0ba3b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:34 +0000
Subject: [PATCH 123/195] fix: bool2bit leaves no uninitialised padding bits

---
 awkward0/array/masked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index f490f17..d15d99f 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -505,7 +505,7 @@ class BitMaskedArray(MaskedArray):
             # maybe pad the length for reshape
             length = cls._ceildiv8(len(boolmask)) * 8
             if length != len(boolmask):
-                out = cls.numpy.empty(length, dtype=boolmask.dtype)
+                out = cls.numpy.zeros(length, dtype=boolmask.dtype)
                 out[:len(boolmask)] = boolmask
             else:
                 out = boolmask
-- 
2.43.0


From 95c1e0510e818c333d7b27f4fd786dd8311c284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:31 +0000
Subject: [PATCH 124/195] fix: ufuncs other than == and != are rejected for
 strings rather than corrupting them

---
 awkward0/array/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index b73817d..66960f5 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -358,7 +358,7 @@ class StringMethods(object):
                 return self.numpy.logical_not(out)
 
         else:
-            return super(StringMethods, self).__array_ufunc__(ufunc, method, *inputs, **kwargs)
+            raise TypeError("only == and != are defined for strings, not {0}".format(ufunc.__name__))
 
 def tostring(x, decoder):
     if decoder is None:
-- 
2.43.0


From 9d47edd44c2c3a5f16daa516f21e9f0e0f1b1139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 125/195] fix: comparing strings with a single string, with
 another encoding or with something else

---
 awkward0/array/objects.py | 52 ++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 66960f5..200ea35 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -314,30 +314,38 @@ class StringMethods(object):
             raise NotImplementedError("in-place operations not supported")
 
         if method != "__call__":
-            raise NotImplemented
+            raise NotImplementedError("only == and != are defined for strings, not {0}.{1}".format(ufunc.__name__, method))
 
         if ufunc is self.numpy.equal or ufunc is self.numpy.not_equal:
             if len(inputs) < 2:
                 raise ValueError("invalid number of arguments")
             left, right = inputs[0], inputs[1]
 
-            if isinstance(left, (str, bytes)):
-                left = self.StringArray.fromstr(len(right), left)
-            elif isinstance(left, self.numpy.ndarray) and (left.dtype.kind == "U" or left.dtype.kind == "S"):
-                left = self.StringArray.fromnumpy(left)
-            elif isinstance(left, self.numpy.ndarray) and left.dtype == self.numpy.dtype(object):
-                left = self.StringArray.fromiter(left)
-            elif not isinstance(left, StringMethods):
-                return self.numpy.zeros(len(right), dtype=self.BOOLTYPE)
-
-            if isinstance(right, (str, bytes)):
-                right = self.StringArray.fromstr(len(left), right)
-            elif isinstance(right, self.numpy.ndarray) and (right.dtype.kind == "U" or right.dtype.kind == "S"):
-                right = self.StringArray.fromnumpy(right)
-            elif isinstance(right, self.numpy.ndarray) and right.dtype == self.numpy.dtype(object):
-                right = self.StringArray.fromiter(right)
-            elif not isinstance(right, StringMethods):
-                return self.numpy.zeros(len(left), dtype=self.BOOLTYPE)
+            encoding = left._encoding if isinstance(left, StringMethods) else right._encoding
+
+            def strings(x, length):
+                if isinstance(x, self.numpy.ndarray) and x.shape == () and x.dtype.kind in "USO":
+                    x = x.item()
+                if isinstance(x, (str, bytes, u"".__class__)):
+                    return self.StringArray.fromstr(length, x, "utf-8" if encoding is None else encoding)
+                elif isinstance(x, self.numpy.ndarray) and (x.dtype.kind == "U" or x.dtype.kind == "S"):
+                    x = self.StringArray.fromnumpy(x)
+                elif isinstance(x, self.numpy.ndarray) and x.dtype == self.numpy.dtype(object):
+                    if not all(isinstance(y, (str, bytes, u"".__class__)) for y in x):
+                        return None
+                    return self.StringArray.concatenate([self.StringArray.fromstr(1, y, "utf-8" if encoding is None else encoding) for y in x]) if len(x) != 0 else self.StringArray.fromiter([])
+                elif not isinstance(x, StringMethods):
+                    return None
+                if encoding is not None and x._encoding is not None and x._encoding != encoding:
+                    x = self.StringArray.fromiter(x, encoding)      # compare text with text
+                return x
+
+            left, right = strings(left, len(right) if isinstance(right, StringMethods) else None), strings(right, len(left) if isinstance(left, StringMethods) else None)
+            if left is None or right is None:
+                out = self.numpy.zeros(len(right if left is None else left), dtype=self.BOOLTYPE)
+                return out if ufunc is self.numpy.equal else self.numpy.logical_not(out)
+            if len(left) != len(right):
+                raise ValueError("cannot compare {0} strings with {1} strings".format(len(left), len(right)))
 
             left = self.JaggedArray(left.starts, left.stops, left.content)
             right = self.JaggedArray(right.starts, right.stops, right.content)
@@ -379,14 +387,12 @@ class StringArray(StringMethods, ObjectArray):
 
     @classmethod
     def fromstr(cls, length, string, encoding="utf-8"):   # FIXME: infer encoding from string
-        if encoding is not None:
+        if encoding is not None and not isinstance(string, bytes):
             encoder = codecs.getencoder(encoding)
             string = encoder(string)[0]
-        content = cls.numpy.empty(length * len(string), dtype=cls.CHARTYPE)
-        for i, x in string:
-            content[0::length] = ord(x)                   # FIXME: use numpy.tile!
+        content = cls.numpy.tile(cls.numpy.frombuffer(string, dtype=cls.CHARTYPE), length)
         counts = cls.numpy.empty(length, dtype=cls.INDEXTYPE)
-        counts[:] = length
+        counts[:] = len(string)
         return cls.fromcounts(counts, content, encoding)
 
     @classmethod
-- 
2.43.0


From e5efd3800b141f697c5848f01b224a31dd484c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 126/195] fix: a single string is compared with every item of
 lists or masked arrays of strings

---
 awkward0/array/jagged.py  | 2 +-
 awkward0/array/masked.py  | 2 +-
 awkward0/array/objects.py | 9 +++++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 9379248..0bc3696 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -988,7 +988,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
                 pass
 
-            else:
+            elif not isinstance(inputs[i], (awkward0.util.string, bytes)):
                 try:
                     for first in inputs[i]:
                         break
diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index d15d99f..f002e11 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -239,7 +239,7 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             elif isinstance(inputs[i], (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
                 if not isinstance(inputs[i], self.numpy.ndarray) or inputs[i].shape != ():
                     inputs[i] = inputs[i][tokeep]
-            else:
+            elif not isinstance(inputs[i], (awkward0.util.string, bytes)):
                 try:
                     for first in inputs[i]:
                         break
diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 200ea35..478414b 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -3,6 +3,7 @@
 # BSD 3-Clause License; see https://github.com/scikit-hep/awkward-0.x/blob/master/LICENSE
 
 import codecs
+import sys
 import importlib
 
 import awkward0.array.base
@@ -404,6 +405,10 @@ class StringArray(StringMethods, ObjectArray):
         else:
             raise TypeError("not a string array")
 
+        array = cls.numpy.ascontiguousarray(array)
+        if array.dtype.byteorder == ">" or (array.dtype.byteorder == "=" and array.dtype.kind == "U" and sys.byteorder == "big"):
+            array = array.astype(array.dtype.newbyteorder("<"))
+
         starts = cls.numpy.arange(                   0,  len(array)      * array.dtype.itemsize, array.dtype.itemsize)
         stops  = cls.numpy.arange(array.dtype.itemsize, (len(array) + 1) * array.dtype.itemsize, array.dtype.itemsize)
         content = array.view(cls.CHARTYPE)
@@ -435,7 +440,7 @@ class StringArray(StringMethods, ObjectArray):
     @classmethod
     def fromiter(cls, iterable, encoding="utf-8"):
         if encoding is None:
-            encoded = iterable
+            encoded = list(iterable)
         else:
             encoder = codecs.getencoder(encoding)
             encoded = [encoder(x)[0] for x in iterable]
@@ -659,7 +664,7 @@ class StringArray(StringMethods, ObjectArray):
         if isinstance(content, awkward0.array.jagged.JaggedArray):
             return self.fromjagged(content, self._encoding)
         else:
-            return self.fromjagged(self.JaggedArray.fromcounts([len(content)], content))
+            return self.fromjagged(self.JaggedArray.fromcounts([len(content)], content), self._encoding)
 
     def pad(self, length, maskedwhen=None, clip=False, axis=0):
         if not self._util_isinteger(axis) or axis < 0:
-- 
2.43.0


From 9c08693746cb4f9c7355981ead2446e01f915881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 127/195] fix: decode strings in non-contiguous buffers,
 compare encodings that do not have all characters

---
 awkward0/array/objects.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 478414b..22017cf 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -324,22 +324,27 @@ class StringMethods(object):
 
             encoding = left._encoding if isinstance(left, StringMethods) else right._encoding
 
+            def fromstr(length, string):
+                try:
+                    return self.StringArray.fromstr(length, string, "utf-8" if encoding is None else encoding)
+                except UnicodeEncodeError:
+                    return self.StringArray.fromstr(length, string, "utf-8")
+
             def strings(x, length):
                 if isinstance(x, self.numpy.ndarray) and x.shape == () and x.dtype.kind in "USO":
                     x = x.item()
                 if isinstance(x, (str, bytes, u"".__class__)):
-                    return self.StringArray.fromstr(length, x, "utf-8" if encoding is None else encoding)
+                    return fromstr(length, x)
                 elif isinstance(x, self.numpy.ndarray) and (x.dtype.kind == "U" or x.dtype.kind == "S"):
                     x = self.StringArray.fromnumpy(x)
                 elif isinstance(x, self.numpy.ndarray) and x.dtype == self.numpy.dtype(object):
                     if not all(isinstance(y, (str, bytes, u"".__class__)) for y in x):
                         return None
-                    return self.StringArray.concatenate([self.StringArray.fromstr(1, y, "utf-8" if encoding is None else encoding) for y in x]) if len(x) != 0 else self.StringArray.fromiter([])
+                    return self.StringArray.fromiter([y if isinstance(y, bytes) else y.encode("utf-8") for y in x], None) if encoding is None else self.StringArray.fromiter([y.decode("utf-8") if isinstance(y, bytes) else y for y in x])
                 elif not isinstance(x, StringMethods):
                     return None
-                if encoding is not None and x._encoding is not None and x._encoding != encoding:
-                    x = self.StringArray.fromiter(x, encoding)      # compare text with text
-                return x
+                else:
+                    return x
 
             left, right = strings(left, len(right) if isinstance(right, StringMethods) else None), strings(right, len(left) if isinstance(left, StringMethods) else None)
             if left is None or right is None:
@@ -348,6 +353,9 @@ class StringMethods(object):
             if len(left) != len(right):
                 raise ValueError("cannot compare {0} strings with {1} strings".format(len(left), len(right)))
 
+            if left._encoding is not None and right._encoding is not None and left._encoding != right._encoding:
+                left, right = self.StringArray.fromiter(left), self.StringArray.fromiter(right)      # compare text with text
+
             left = self.JaggedArray(left.starts, left.stops, left.content)
             right = self.JaggedArray(right.starts, right.stops, right.content)
 
@@ -373,7 +381,7 @@ def tostring(x, decoder):
     if decoder is None:
         return x.tostring()
     else:
-        return decoder(x, errors="replace")[0]
+        return decoder(x if x.flags.c_contiguous else x.copy(), errors="replace")[0]
 
 class StringArray(StringMethods, ObjectArray):
     """
-- 
2.43.0


From 20ed07017cf04d10a918611c020ed1d8a9b2ed21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 128/195] fix: compare strings with arrays of Numpy strings

---
 awkward0/array/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 22017cf..ac415b5 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -336,10 +336,10 @@ class StringMethods(object):
                 if isinstance(x, (str, bytes, u"".__class__)):
                     return fromstr(length, x)
                 elif isinstance(x, self.numpy.ndarray) and (x.dtype.kind == "U" or x.dtype.kind == "S"):
-                    x = self.StringArray.fromnumpy(x)
+                    return self.StringArray.fromnumpy(x)
                 elif isinstance(x, self.numpy.ndarray) and x.dtype == self.numpy.dtype(object):
                     if not all(isinstance(y, (str, bytes, u"".__class__)) for y in x):
-                        return None
+                        raise TypeError("cannot compare strings with an array of arbitrary objects")
                     return self.StringArray.fromiter([y if isinstance(y, bytes) else y.encode("utf-8") for y in x], None) if encoding is None else self.StringArray.fromiter([y.decode("utf-8") if isinstance(y, bytes) else y for y in x])
                 elif not isinstance(x, StringMethods):
                     return None
-- 
2.43.0


From d0e1498c9c06eb07b0e1444b685fb1f2b2d3b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 129/195] fix: strings in ascii and latin-1 can be read

---
 awkward0/array/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index ac415b5..6cfb9b5 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -381,7 +381,7 @@ def tostring(x, decoder):
     if decoder is None:
         return x.tostring()
     else:
-        return decoder(x if x.flags.c_contiguous else x.copy(), errors="replace")[0]
+        return decoder(x if x.flags.c_contiguous else x.copy(), "replace")[0]
 
 class StringArray(StringMethods, ObjectArray):
     """
-- 
2.43.0


From 6413072aa30d23a2a4c336b46a8ee394f2f65796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:45 +0000
Subject: [PATCH 130/195] fix: copies of VirtualArrays do not use the cache
 entry of the original, deep copies of cached ones work

---
 awkward0/array/virtual.py | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 47288ab..bfb4f53 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -55,7 +55,6 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         out._type = self._type
         out._nbytes = self._nbytes
         out._persistvirtual = self._persistvirtual
-        out._array = self._array
         if self._setitem is None:
             out._setitem = None
         else:
@@ -80,11 +79,30 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             out.nbytes = nbytes
         if persistvirtual is not None:
             out.persistvirtual = persistvirtual
+
+        same = generator is None and args is None and kwargs is None
+        out._array = None if out._cache is None else out.key
+        if same and isinstance(self._array, awkward0.array.base.AwkwardArray):
+            out._array = self._array.copy()           # columns assigned to one are not assigned to the other
+        elif same and isinstance(self._array, self.numpy.ndarray):
+            out._array = self._array
+        elif same and self.ismaterialized and (out._cache is not self._cache or out.key != self._array):
+            # the key of the original is removed from the cache when the original is deleted
+            array = self.array
+            if isinstance(array, awkward0.array.base.AwkwardArray):
+                array = array.copy()
+            if out._cache is None:
+                out._array = array
+            else:
+                out._cache[out._array] = array
         return out
 
     def deepcopy(self, generator=None, args=None, kwargs=None, cache=None, persistentkey=None, type=None, nbytes=None, persistvirtual=None):
         out = self.copy(generator=generator, args=args, kwargs=kwargs, cache=cache, persistentkey=persistentkey, type=type, nbytes=nbytes, persistvirtual=persistvirtual)
-        out._array = self._util_deepcopy(out._array)
+        if isinstance(out._array, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
+            out._array = self._util_deepcopy(out._array)
+        elif isinstance(out._array, VirtualArray.TransientKey) and out.ismaterialized:
+            out._cache[out._array] = self._util_deepcopy(out.array)
         if out._setitem is not None:
             for n in list(out._setitem):
                 out._setitem[n] = self._util_deepcopy(out._setitem[n])
@@ -262,7 +280,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                     raise TypeError("nbytes must be an integer or None")
                 if value < 0:
                     raise ValueError("nbytes must be a non-negative integer or None")
-            self._nbytes = value
+        self._nbytes = value
 
     def __len__(self):
         return self.type.takes
@@ -318,10 +336,19 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
 
     @property
     def ismaterialized(self):
-        if self._cache is None:
-            return isinstance(self._array, (self.numpy.ndarray, awkward0.array.base.AwkwardArray))
+        if isinstance(self._array, (self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
+            return True
+        elif self._cache is None or self._array is None:
+            return False
+        elif callable(getattr(self._cache, "__contains__", None)):
+            return self._array in self._cache
         else:
-            return self._array is not None and self._array in self._cache
+            try:
+                self._cache[self._array]
+            except KeyError:
+                return False
+            else:
+                return True
 
     def materialize(self):
         array = self._util_toarray(self._generator(*self._args, **self._kwargs), self.DEFAULTTYPE)
-- 
2.43.0


From 2813a6fa238ea08873a991ae7aa3b629d11e484f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 131/195] fix: columns assigned to or deleted from a
 VirtualArray are saved

---
 awkward0/array/virtual.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index bfb4f53..b07f8c6 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -44,6 +44,13 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         self._setitem = None
         self._delitem = None
 
+    @classmethod
+    def _modified(cls, setitem, delitem, *args, **kwargs):
+        out = cls(*args, **kwargs)
+        out._setitem = OrderedDict(setitem)
+        out._delitem = list(delitem)
+        return out
+
     def copy(self, generator=None, args=None, kwargs=None, cache=None, persistentkey=None, type=None, nbytes=None, persistvirtual=None):
         # FIXME: arguments through **kwargs because undef is different from None (None has meaning for some of them)
         out = self.__class__.__new__(self.__class__)
@@ -130,9 +137,24 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         self._valid()
 
         if self._persistvirtual:
+            if not self._setitem and not self._delitem:
+                spec, modifications = ["awkward0", "VirtualArray"], []
+            else:
+                # will be replayed when the array is materialized
+                spec = ["awkward0", "VirtualArray", "_modified"]
+                modifications = [
+                    {"dict": {
+                        n: serializer(x, "VirtualArray.setitem")
+                        for n, x in (self._setitem or {}).items()
+                    }},
+                    {"list": [
+                        serializer(n)
+                        for n in (self._delitem or [])
+                    ]}
+                ]
             out = serializer.encode_call(
-                ["awkward0", "VirtualArray"],
-                serializer(self._generator, "VirtualArray.generator"),
+                spec,
+                *modifications + [serializer(self._generator, "VirtualArray.generator"),
                 {"tuple": [
                     serializer(x, "VirtualArray.args")
                     for x in self._args
@@ -140,7 +162,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                 {"dict": {
                     n: serializer(x, "VirtualArray.kwargs")
                     for n, x in self._kwargs.items()
-                }}
+                }}]
             )
             out["cacheable"] = True
             others = {}
-- 
2.43.0


From 7fff224cf10c273de769cfa16262aecf9750224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 132/195] fix: virtual arrays of virtual arrays in cross, of
 strings in pad, of tables in toarrow; type after assigning with a forgetful
 cache

---
 awkward0/array/jagged.py  |  4 ++--
 awkward0/array/objects.py |  2 +-
 awkward0/array/virtual.py | 10 ++++++----
 awkward0/arrow.py         |  6 ++++++
 4 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 0bc3696..826c729 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1344,7 +1344,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         return out
 
     def argcross(self, other, nested=False):
-        if isinstance(other, self.VirtualArray):
+        while isinstance(other, self.VirtualArray):
             other = other.array
         out = self._argcross(other)
         out["0"] = out["0"] - self._starts
@@ -1356,7 +1356,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         return out
 
     def cross(self, other, nested=False):
-        if isinstance(other, self.VirtualArray):
+        while isinstance(other, self.VirtualArray):
             other = other.array
         if hasattr(self, "_nestedcross"):
             thyself = self._nestedcross
diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 6cfb9b5..74a46a8 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -681,7 +681,7 @@ class StringArray(StringMethods, ObjectArray):
         if axis > 0:
             raise ValueError("axis too deep for StringArray")
 
-        if maskedwhen is None:
+        if maskedwhen is None or maskedwhen is True:     # True is the default for the other arrays
             maskedwhen = ord(b" ")
         elif not isinstance(maskedwhen, bytes) or not len(maskedwhen) == 1:
             raise TypeError("to pad a StringArray, set maskedwhen to a one-character bytestring, such as b' '")
diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index b07f8c6..c47bb6e 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -420,9 +420,10 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
         return self.array[where]
 
     def __setitem__(self, where, what):
-        self.array[where] = what
+        array = self.array
+        array[where] = what
         if self._type is not None:
-            self._type = awkward0.type.fromarray(self.array)
+            self._type = awkward0.type.fromarray(array)
         if self._util_isstringslice(where) and not isinstance(where, awkward0.util.string):
             columns = list(zip(where, what.unzip()))
         else:
@@ -435,9 +436,10 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                 self._delitem.remove(n)
 
     def __delitem__(self, where):
-        del self.array[where]
+        array = self.array
+        del array[where]
         if self._type is not None:
-            self._type = awkward0.type.fromarray(self.array)
+            self._type = awkward0.type.fromarray(array)
         if self._delitem is None:
             self._delitem = []
         for n in [where] if isinstance(where, awkward0.util.string) else where:
diff --git a/awkward0/arrow.py b/awkward0/arrow.py
index 214783a..2388110 100644
--- a/awkward0/arrow.py
+++ b/awkward0/arrow.py
@@ -235,6 +235,9 @@ def toarrow(obj):
         else:
             raise TypeError("cannot convert type {0} to Arrow".format(type(obj)))
 
+    while isinstance(obj, awkward0.array.virtual.VirtualArray):
+        obj = obj.array
+
     if isinstance(obj, awkward0.array.chunked.AppendableArray):
         obj = obj._filled()
 
@@ -531,6 +534,9 @@ def toparquet(where, obj, **options):
         else:
             raise TypeError(message)
 
+    while isinstance(obj, awkward0.array.virtual.VirtualArray):
+        obj = obj.array
+
     if isinstance(obj, awkward0.array.chunked.AppendableArray):
         obj = obj._filled()
 
-- 
2.43.0


From 3eb09fde0d5afc3543f2647f2638a6481a21b60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 133/195] fix: astype is rejected for strings; crossing chunks
 with virtual arrays of chunks

---
 awkward0/array/chunked.py | 4 ++++
 awkward0/array/objects.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 632cf6a..0d08462 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -654,6 +654,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         return out
 
     def cross(self, other, nested=False):
+        while isinstance(other, awkward0.array.virtual.VirtualArray):
+            other = other.array
         if not isinstance(other, ChunkedArray) or not self._aligned(other):
             raise ValueError("A ChunkedArray can only be crossed with a ChunkedArray if they have the same chunk sizes")
         chunks = []
@@ -668,6 +670,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         return self.copy(chunks=chunks, chunksizes=chunksizes)
 
     def argcross(self, other, nested=False):
+        while isinstance(other, awkward0.array.virtual.VirtualArray):
+            other = other.array
         if not isinstance(other, ChunkedArray) or not self._aligned(other):
             raise ValueError("A ChunkedArray can only be crossed with a ChunkedArray if they have the same chunk sizes")
         chunks = []
diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 74a46a8..284582a 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -725,6 +725,9 @@ class StringArray(StringMethods, ObjectArray):
     def fillna(self, value):
         return self
 
+    def astype(self, dtype):
+        raise TypeError("cannot call astype on StringArray")
+
     _topandas_name = "StringSeries"
 
     def _topandas(self, seen):
-- 
2.43.0


From 00ad2c9f6109b3f574532257b2a0634cf4c96a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:17 +0000
Subject: [PATCH 134/195] fix: VirtualArrays given a cache after being
 materialized left their array in it when deleted, to be found by a later
 array

---
 awkward0/array/virtual.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index c47bb6e..2d546ca 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -88,7 +88,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             out.persistvirtual = persistvirtual
 
         same = generator is None and args is None and kwargs is None
-        out._array = None if out._cache is None else out.key
+        out._array = None if out._cache is None or out._persistentkey is None else out.key
         if same and isinstance(self._array, awkward0.array.base.AwkwardArray):
             out._array = self._array.copy()           # columns assigned to one are not assigned to the other
         elif same and isinstance(self._array, self.numpy.ndarray):
@@ -101,6 +101,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
             if out._cache is None:
                 out._array = array
             else:
+                out._array = out.key
                 out._cache[out._array] = array
         return out
 
@@ -353,8 +354,11 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
                     return self.materialize()
             else:
                 # abnormal state (7)
-                self._cache[self.key] = self._array
-                return self._array
+                array = self._array
+                key = self.key
+                self._cache[key] = array
+                self._array = key
+                return array
 
     @property
     def ismaterialized(self):
-- 
2.43.0


From 313afe2f4244bb931d25176fd86726dc6aa3b5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 135/195] fix: deepcopy of a ChunkedArray replaced every chunk
 by the list of chunks

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 0d08462..01e3d6f 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -32,7 +32,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
 
     def deepcopy(self, chunks=None, chunksizes=None):
         out = self.copy(chunks=chunks, chunksizes=chunksizes)
-        out._chunks = [self._util_deepcopy(out._chunks) for x in out._chunks]
+        out._chunks = [self._util_deepcopy(x) for x in out._chunks]
         return out
 
     def _mine(self, overrides):
-- 
2.43.0


From d3c71b780c543fea3a23391286fa551bf427744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 136/195] fix: zeros_like, ones_like, empty_like and astype of
 Tables used all rows of the columns (or failed on views)

---
 awkward0/array/table.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 1266c9c..1db7476 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -365,22 +365,10 @@ class Table(awkward0.array.base.AwkwardArray):
         return out
 
     def zeros_like(self, **overrides):
-        out = self.empty_like(**overrides)
-        for n, x in self._contents.items():
-            if isinstance(x, self.numpy.ndarray):
-                out[n] = self.numpy.zeros_like(x)
-            else:
-                out[n] = x.zeros_like(**overrides)
-        return out
+        return self._mapcolumns(lambda x: self.numpy.zeros_like(x) if isinstance(x, self.numpy.ndarray) else x.zeros_like(**overrides))
 
     def ones_like(self, **overrides):
-        out = self.empty_like(**overrides)
-        for n, x in self._contents.items():
-            if isinstance(x, self.numpy.ndarray):
-                out[n] = self.numpy.ones_like(x)
-            else:
-                out[n] = x.ones_like(**overrides)
-        return out
+        return self._mapcolumns(lambda x: self.numpy.ones_like(x) if isinstance(x, self.numpy.ndarray) else x.ones_like(**overrides))
 
     def __awkward_serialize__(self, serializer):
         self._valid()
@@ -907,10 +895,7 @@ class Table(awkward0.array.base.AwkwardArray):
         return list(self._contents)
 
     def astype(self, dtype):
-        out = self.copy(contents={})
-        for n, x in self._contents.items():
-            out[n] = x.astype(dtype)
-        return out
+        return self._mapcolumns(lambda x: x.astype(dtype))
 
     def fillna(self, value):
         return self._mapcolumns(lambda x: self._util_fillna(x, value))
-- 
2.43.0


From 3f68b8c3921cc8eeed1b8642a0dc2e08eb4ea5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 137/195] fix: deepcopy of Masked and BitMaskedArrays did not
 take all constructor arguments

---
 awkward0/array/masked.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index f002e11..b02bea0 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -43,8 +43,8 @@ class MaskedArray(awkward0.array.base.AwkwardArrayWithContent):
             out.maskedwhen = maskedwhen
         return out
 
-    def deepcopy(self, mask=None, content=None):
-        out = self.copy(mask=mask, content=content)
+    def deepcopy(self, mask=None, content=None, **overrides):
+        out = self.copy(mask=mask, content=content, **overrides)
         out._mask = self._util_deepcopy(out._mask)
         out._content = self._util_deepcopy(out._content)
         return out
-- 
2.43.0


From 391c2214d35d2f2f10f3fa88b3b74c01a85da559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:16 +0000
Subject: [PATCH 138/195] fix: deepcopy, empty_like, zeros_like, ones_like of
 AppendableArrays failed, and a copy of one wrote into the unused space of the
 original

---
 awkward0/array/chunked.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 01e3d6f..8b40e9f 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -42,19 +42,25 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.empty_like(x) if isinstance(x, self.numpy.ndarray) else x.empty_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        out = self.copy(chunks=[self.numpy.empty_like(x) if isinstance(x, self.numpy.ndarray) else x.empty_like(**overrides) for x in self._chunks], **mine)
+        out._chunksizes = list(self._chunksizes)
+        return out
 
     def zeros_like(self, **overrides):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.zeros_like(x) if isinstance(x, self.numpy.ndarray) else x.zeros_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        out = self.copy(chunks=[self.numpy.zeros_like(x) if isinstance(x, self.numpy.ndarray) else x.zeros_like(**overrides) for x in self._chunks], **mine)
+        out._chunksizes = list(self._chunksizes)
+        return out
 
     def ones_like(self, **overrides):
         self.knowchunksizes()
         self._valid()
         mine = self._mine(overrides)
-        return self.copy([self.numpy.ones_like(x) if isinstance(x, self.numpy.ndarray) else x.ones_like(**overrides) for x in self._chunks], chunksizes=list(self._chunksizes), **mine)
+        out = self.copy(chunks=[self.numpy.ones_like(x) if isinstance(x, self.numpy.ndarray) else x.ones_like(**overrides) for x in self._chunks], **mine)
+        out._chunksizes = list(self._chunksizes)
+        return out
 
     def __awkward_serialize__(self, serializer):
         self.knowchunksizes()
@@ -850,6 +856,14 @@ class AppendableArray(ChunkedArray):
             out._dtype = dtype
         if chunks is not None:
             out.chunks = chunks
+        elif len(out._chunks) != 0 and out._chunksizes[-1] < len(out._chunks[-1]):
+            # each of them may be appended to
+            out._chunks[-1] = out._chunks[-1].copy()
+        return out
+
+    def deepcopy(self, chunkshape=None, dtype=None, chunks=None):
+        out = self.copy(chunkshape=chunkshape, dtype=dtype, chunks=chunks)
+        out._chunks = [self._util_deepcopy(x) for x in out._chunks]
         return out
 
     def _filled(self):
-- 
2.43.0


From feff34ba632d52f1c9504eb4f84e8b1da9f71752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 139/195] fix: empty_like, zeros_like, ones_like of
 SparseArrays failed and astype did not convert the default

---
 awkward0/array/indexed.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index f239d04..ce9214e 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -347,8 +347,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def empty_like(self, **overrides):
         mine = {}
-        mine = overrides.pop("length", self._length)
-        mine = overrides.pop("default", self._default)
+        mine["length"] = overrides.pop("length", self._length)
+        mine["default"] = overrides.pop("default", self._default)
         if isinstance(self._content, self.numpy.ndarray):
             return self.copy(content=self.numpy.empty_like(self._content), **mine)
         else:
@@ -356,8 +356,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def zeros_like(self, **overrides):
         mine = {}
-        mine = overrides.pop("length", self._length)
-        mine = overrides.pop("default", self._default)
+        mine["length"] = overrides.pop("length", self._length)
+        mine["default"] = overrides.pop("default", None if self._default is None else self.numpy.zeros_like(self._default))
         if isinstance(self._content, self.numpy.ndarray):
             return self.copy(content=self.numpy.zeros_like(self._content), **mine)
         else:
@@ -365,8 +365,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
     def ones_like(self, **overrides):
         mine = {}
-        mine = overrides.pop("length", self._length)
-        mine = overrides.pop("default", self._default)
+        mine["length"] = overrides.pop("length", self._length)
+        mine["default"] = overrides.pop("default", self.numpy.ones_like(self.default))
         if isinstance(self._content, self.numpy.ndarray):
             return self.copy(content=self.numpy.ones_like(self._content), **mine)
         else:
-- 
2.43.0


From 2f5b9707534605fecb2fb609da4aca94b7511b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 140/195] fix: astype of SparseArrays did not convert the
 default

---
 awkward0/array/indexed.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index ce9214e..3604ae0 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -727,6 +727,14 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
         return self._util_pad(self._content.dense, length, maskedwhen, clip, axis)
 
+    def astype(self, dtype):
+        default = self._default
+        if isinstance(default, (numbers.Number, self.numpy.bool_)):
+            default = self.numpy.array(default)[()]
+        if isinstance(default, (self.numpy.generic, self.numpy.ndarray, awkward0.array.base.AwkwardArray)):
+            default = default.astype(dtype)
+        return self.copy(content=self._content.astype(dtype), default=default)
+
     def regular(self):
         self._valid()
         content = self._util_regular(self._content)
-- 
2.43.0


From fcec6ffaea164b3d6e0e38f1820760773f4368ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 141/195] fix: a deep copy of a StringArray shared offsets with
 the original

---
 awkward0/array/objects.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 284582a..426f597 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -526,9 +526,7 @@ class StringArray(StringMethods, ObjectArray):
 
     def deepcopy(self, starts=None, stops=None, content=None, encoding=None):
         out = self.copy(starts=starts, stops=stops, content=content, encoding=encoding)
-        out._content._starts = self._util_deepcopy(out._content._starts)
-        out._content._stops = self._util_deepcopy(out._content._stops)
-        out._content._content = self._util_deepcopy(out._content._content)
+        out._content = out._content.deepcopy()
         return out
 
     def empty_like(self, **overrides):
-- 
2.43.0


From c8ca1eadc105b74d113b44bc9e4ff34ae061cd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 142/195] fix: IndexedMaskedArray.copy with a new mask or
 content did not convert or check it

---
 awkward0/array/masked.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index b02bea0..8bbdb10 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -695,11 +695,11 @@ class IndexedMaskedArray(MaskedArray):
         out._maskedwhen = self._maskedwhen
         out._isvalid = self._isvalid
         if mask is not None:
-            out._mask = mask
+            out.mask = mask
         if content is not None:
-            out._content = content
+            out.content = content
         if maskedwhen is not None:
-            out._maskedwhen = maskedwhen
+            out.maskedwhen = maskedwhen
         return out
 
     def __awkward_serialize__(self, serializer):
-- 
2.43.0


From 89c184eb7868fa4ca7358d67288e661a3c52ca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 143/195] fix: a deep copy of a ChunkedArray shared offsets
 with the original

---
 awkward0/array/chunked.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 8b40e9f..beb04a9 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -33,6 +33,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def deepcopy(self, chunks=None, chunksizes=None):
         out = self.copy(chunks=chunks, chunksizes=chunksizes)
         out._chunks = [self._util_deepcopy(x) for x in out._chunks]
+        out._offsets = self._util_deepcopy(out._offsets)
         return out
 
     def _mine(self, overrides):
-- 
2.43.0


From 4318db48d97f28a80b58913ecadd8d272222100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 144/195] fix: selecting positions of a ChunkedArray whose
 chunks have different types converted the values to the type of the first

---
 awkward0/array/chunked.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index beb04a9..fb2ed17 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -454,7 +454,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 chunkid, head = self.global2chunkid(head, return_normalized=True)
 
                 diff = (chunkid[1:] - chunkid[:-1])
-                if (diff >= 0).all() or not self._onlynumpy(self.type):
+                if (diff >= 0).all() or not self._onlynumpy(self.type) or not self._sametype(self.numpy.unique(chunkid)):
                     diff2 = self.numpy.empty(len(chunkid), dtype=self.INDEXTYPE)
                     diff2[0] = 1
                     diff2[1:] = diff
@@ -500,6 +500,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
             else:
                 raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(head.shape, head.dtype))
 
+    def _sametype(self, chunkids):
+        tpe = self.type.to
+        return all(awkward0.type.fromarray(self._chunks[cid]).to == tpe for cid in chunkids)
+
     def _onlynumpy(self, tpe):
         while isinstance(tpe, awkward0.type.ArrayType) and tpe.takes != self.numpy.inf:
             tpe = tpe.to
-- 
2.43.0


From c0f143b593fa44c93a9c8c6be531b6623dcd1875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 145/195] fix: extending an AppendableArray with itself
 repeated it too often

---
 awkward0/array/chunked.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index fb2ed17..90d4eca 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -1032,6 +1032,8 @@ class AppendableArray(ChunkedArray):
         self._chunksizes[-1] += 1
 
     def extend(self, values):
+        if values is self:
+            values = self._filled()
         while len(values) > 0:
             if len(self._chunks) == 0 or self._chunksizes[-1] == len(self._chunks[-1]):
                 self._types.append(None)
-- 
2.43.0


From 92aabcb3d7c0c9efbd9f64c4754e48f2f5ba7ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:43 +0000
Subject: [PATCH 146/195] fix: AppendableArrays with unused space could not be
 converted to Numpy

---
 awkward0/array/chunked.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 90d4eca..0b26b36 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -881,6 +881,9 @@ class AppendableArray(ChunkedArray):
         else:
             return super(AppendableArray, self).__getitem__(where)
 
+    def __array__(self, *args, **kwargs):
+        return super(AppendableArray, self._filled()).__array__(*args, **kwargs)
+
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
         inputs = [x._filled() if isinstance(x, AppendableArray) else x for x in inputs]
         return super(AppendableArray, self).__array_ufunc__(ufunc, method, *inputs, **kwargs)
-- 
2.43.0


From 6d155ab4eed382dae9bb0816d92aca470bb6fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:31 +0000
Subject: [PATCH 147/195] fix: global2local and local2global of several
 positions in a ChunkedArray gave wrong answers or failed

---
 awkward0/array/chunked.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 0b26b36..38674b3 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -190,7 +190,10 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if self._util_isinteger(index):
             return self._chunks[chunkid], index - self.offsets[chunkid]
         else:
-            return self.numpy.array(self._chunks, dtype=self.numpy.object)[chunkid], index - self.offsets[chunkid]
+            chunks = self.numpy.empty(len(self._chunks), dtype=self.numpy.dtype(object))
+            for i, x in enumerate(self._chunks):
+                chunks[i] = x
+            return chunks[chunkid], index - self.offsets[chunkid]
 
     def local2global(self, index, chunkid):
         if self._util_isinteger(chunkid):
@@ -210,14 +213,15 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
                 if len(index) != len(chunkid):
                     raise ValueError("len(index) is {0} and len(chunkid) is {1}, but they should be equal".format(len(index), len(chunkid)))
 
+                if len(index) == 0:
+                    return self.numpy.empty(0, dtype=self.INDEXTYPE)
                 self.knowchunksizes(chunkid.max() + 1)
                 self._valid()
-                chunksizes = self.numpy.array(self._chunksizes, dtype=self.INDEXTYPE)
-                mask = (index < 0)
-                index[mask] += chunksizes[mask]
+                chunksizes = self.numpy.array(self._chunksizes, dtype=self.INDEXTYPE)[chunkid]
+                index = self.numpy.where(index < 0, index + chunksizes, index)
                 if not ((0 <= index) & (index < chunksizes)).all():
                     raise IndexError("some local indexes are out of bounds")
-                return chunksizes[chunkid] + index
+                return self.offsets[chunkid] + index
 
             else:
                 raise TypeError("local2global requires index and chunkid to be integers or arrays of integers")
-- 
2.43.0


From f3d31ca73c2097c772b3bdcb1743c5862b31b5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:52 +0000
Subject: [PATCH 148/195] fix: assigning a column to a ChunkedArray compared
 the types of its empty chunks

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 38674b3..cec620b 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -522,7 +522,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if isinstance(what, ChunkedArray) and self._aligned(what):
             for i, (mine, theirs) in enumerate(zip(self._chunks, what._chunks)):
                 mine[where] = theirs
-                self._types[i] = awkward0.type.fromarray(mine).to
+                self._types[i] = None
         else:
             raise ValueError("only ChunkedArrays with the same chunk sizes can be assigned to columns of a ChunkedArray")
 
-- 
2.43.0


From e3e99f6e2a5b6f05f4c4598577668f6c7c78bb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 149/195] fix: types of text, bytes and objects are different

---
 awkward0/type.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index 5df89be..4f73eb9 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -23,6 +23,8 @@ def _str(tpe, indent=""):
 class Type(object):
     check = True
 
+    _strings = (awkward0.util.unicode, str, bytes)
+
     def hascolumn(self, name):
         return self._hascolumn(name, set())
 
@@ -202,7 +204,7 @@ class Type(object):
         elif one == two:
             return True
         elif callable(one) and callable(two):
-            return True
+            return not (one in Type._strings or two in Type._strings)     # text is not bytes, and neither are objects
         else:
             return False
 
-- 
2.43.0


From a6569b8abbacf8c674eb90680935e019db4ef958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 150/195] fix: types nested in equivalent ways to any depth are
 equal

---
 awkward0/type.py | 61 +++++++++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 34 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index 4f73eb9..0173d4b 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -140,49 +140,42 @@ class Type(object):
 
     @staticmethod
     def _canonical(x, seen):
-        if id(x) not in seen:
-            # apply string-integer commutation so that TableTypes are nested as deeply as possible
-            if isinstance(x, TableType) and len(x._fields) > 0 and all(isinstance(y, ArrayType) for y in x._fields.values()):
-                newtable = TableType.__new__(TableType)
-                newtable._fields = OrderedDict()
-                first = None
-                for n, y in x._fields.items():
-                    if first is None:
-                        first = y._takes
-                    elif first != y._takes or math.isinf(y._takes):
-                        break
-                    newtable._fields[n] = y._to
-                else:
-                    x = ArrayType.__new__(ArrayType)
-                    x._takes = first
-                    x._to = newtable
+        # in place (x has to be a copy), with the parts of x before x itself
+        if isinstance(x, Type) and id(x) not in seen:
+            seen.add(id(x))
+            if isinstance(x, ArrayType):
+                Type._canonical(x._to, seen)
 
-            # apply union(X, union(Y)) == union(X, Y)
-            if isinstance(x, UnionType) and any(isinstance(y, UnionType) for y in x._possibilities):
+            elif isinstance(x, TableType):
+                for y in x._fields.values():
+                    Type._canonical(y, seen)
+
+                # apply string-integer commutation so that TableTypes are nested as deeply as possible
+                if len(x._fields) > 0 and all(isinstance(y, ArrayType) for y in x._fields.values()):
+                    takes = set(y._takes for y in x._fields.values())
+                    if len(takes) == 1 and not math.isinf(min(takes)):
+                        newtable = TableType.__new__(TableType)
+                        newtable._fields = OrderedDict((n, y._to) for n, y in x._fields.items())
+                        x.__class__ = ArrayType
+                        x._takes = min(takes)
+                        x._to = Type._canonical(newtable, seen)
+
+            elif isinstance(x, UnionType):
+                # apply union(X, union(Y)) == union(X, Y)
                 possibilities = []
                 for y in x._possibilities:
-                    if isinstance(y, UnionType):
+                    Type._canonical(y, seen)
+                    if isinstance(y, UnionType) and y is not x:
                         possibilities.extend(y._possibilities)
                     else:
                         possibilities.append(y)
-                x = UnionType.__new__(UnionType)
                 x._possibilities = possibilities
 
-            # apply optional(optional(X)) == optional(X)
-            if isinstance(x, OptionType) and isinstance(x._type, OptionType):
-                x = x._type
-
-            seen.add(id(x))
-            if isinstance(x, ArrayType):
-                x._to = Type._canonical(x._to, seen)
-            elif isinstance(x, TableType):
-                for n in x._fields:
-                    x._fields[n] = Type._canonical(x._fields[n], seen)
-            elif isinstance(x, UnionType):
-                for i in range(len(x._possibilities)):
-                    x._possibilities[i] = Type._canonical(x._possibilities[i], seen)
             elif isinstance(x, OptionType):
-                x._type = Type._canonical(x._type, seen)
+                # apply optional(optional(X)) == optional(X)
+                Type._canonical(x._type, seen)
+                if isinstance(x._type, OptionType):
+                    x._type = x._type._type
 
         return x
 
-- 
2.43.0


From cc2092f3ddee20437f209cd16d09de11dd1061a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 151/195] fix: equal types have equal hashes, and recursive
 types have one

---
 awkward0/type.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index 0173d4b..98fc3b0 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -190,6 +190,27 @@ class Type(object):
     def __ne__(self, other):
         return not self.__eq__(other)
 
+    def __hash__(self):
+        return Type._hash(Type._canonical(Type._copy(self, {}), set()), 5)
+
+    @staticmethod
+    def _hash(x, depth):
+        # same for all types that are equal; recursive types are only followed for a few levels
+        if isinstance(x, Type) and depth == 0:
+            return 0
+        elif isinstance(x, ArrayType):
+            return hash((ArrayType, x._takes, Type._hash(x._to, depth - 1)))
+        elif isinstance(x, TableType):
+            return hash((TableType, tuple((n, Type._hash(x._fields[n], depth - 1)) for n in sorted(x._fields))))
+        elif isinstance(x, UnionType):
+            return hash((UnionType, tuple(sorted(Type._hash(y, depth - 1) for y in x._possibilities))))
+        elif isinstance(x, OptionType):
+            return hash((OptionType, Type._hash(x._type, depth - 1)))
+        elif callable(x) and x not in Type._strings:
+            return hash(callable)
+        else:
+            return hash(x)
+
     @staticmethod
     def _eq2(one, two, seen, ignoremask=False):
         if isinstance(one, Type):
@@ -335,9 +356,6 @@ class ArrayType(Type):
             else:
                 return False
 
-    def __hash__(self):
-        return hash((ArrayType, self._takes, self._to))
-
 class TableType(Type):
     def __init__(self, **fields):
         self._fields = OrderedDict()
@@ -432,9 +450,6 @@ class TableType(Type):
             else:
                 return False
 
-    def __hash__(self):
-        return hash((TableType, tuple((n, self._fields[n]) for n in sorted(self._fields))))
-
 class UnionType(Type):
     def __init__(self, *possibilities):
         self._possibilities = []
@@ -524,9 +539,6 @@ class UnionType(Type):
             else:
                 return False
 
-    def __hash__(self):
-        return hash((UnionType, frozenset(self._possibilities)))
-
 class OptionType(Type):
     def __init__(self, type):
         self.type = type
@@ -605,9 +617,6 @@ class OptionType(Type):
             else:
                 return False
 
-    def __hash__(self):
-        return hash((OptionType, self._type))
-
 ###############################################################################
 
 def fromnumpy(shape, dtype, masked=False):
-- 
2.43.0


From 87fc67f342bbc764932351ae61906239540243d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 152/195] fix: TableType turns number types into dtypes like
 all other types

---
 awkward0/type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index 98fc3b0..fdaf467 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -360,7 +360,7 @@ class TableType(Type):
     def __init__(self, **fields):
         self._fields = OrderedDict()
         for n, x in fields.items():
-            self._fields[n] = x
+            self[n] = x
 
     @property
     def shape(self):
-- 
2.43.0


From 7efba2f06fdc0a234442fbd08e69c5d684b9c0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 153/195] fix: types of strings and objects in records and
 options have dtypes and columns

---
 awkward0/type.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index fdaf467..ce6bfd1 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -310,7 +310,7 @@ class ArrayType(Type):
         elif isinstance(self._to, numpy.dtype):
             return True
         else:
-            return self._to._isnumpy(seen)
+            return isinstance(self._to, Type) and self._to._isnumpy(seen)
 
     def _hascolumn(self, name, seen):
         if id(self) in seen:
@@ -370,7 +370,9 @@ class TableType(Type):
     def dtype(self):
         out = []
         for n, x in self._fields.items():
-            if x.shape != ():
+            if not isinstance(x, (Type, numpy.dtype)):
+                out.append((n, numpy.dtype(object)))       # strings and objects
+            elif x.shape != ():
                 raise TypeError("Table with non-primitive fields has no Numpy dtype")
             elif isinstance(x, numpy.dtype):
                 out.append((n, x))
@@ -389,7 +391,7 @@ class TableType(Type):
         for x in self._fields.values():
             if isinstance(x, numpy.dtype):
                 return True
-            elif not isinstance(x, OptionType) and x._isnumpy(seen):
+            elif isinstance(x, Type) and not isinstance(x, OptionType) and x._isnumpy(seen):
                 return x.shape != ()
             else:
                 return False
@@ -421,7 +423,7 @@ class TableType(Type):
         return "TableType({0})".format(", ".join("{0}={1}".format(n, x._repr(labeled, seen) if isinstance(x, Type) else repr(x)) for n, x in self._fields.items()))
 
     def _substr(self, labeled, seen, indent):
-        width = max(len(repr(n)) for n in self._fields.keys())
+        width = max([len(repr(n)) for n in self._fields.keys()] + [0])
         subindent = indent + (" " * width) + "    "
         out = []
         for n, x in self._fields.items():
@@ -582,13 +584,16 @@ class OptionType(Type):
         if isinstance(self._type, numpy.dtype):
             return True
         else:
-            return self._type._isnumpy(seen)
+            return isinstance(self._type, Type) and self._type._isnumpy(seen)
 
     def _hascolumn(self, name, seen):
         if id(self) in seen:
             return False
         seen.add(id(self))
-        return self._type._hascolumn(name, seen)
+        if isinstance(self._type, Type):
+            return self._type._hascolumn(name, seen)
+        else:
+            return isinstance(self._type, numpy.dtype) and self._type.names is not None and name in self._type.names
 
     def _subrepr(self, labeled, seen):
         return "OptionType({0})".format(self._type._repr(labeled, seen) if isinstance(self._type, Type) else repr(self._type))
-- 
2.43.0


From ac9038ebb40340be33e2d72d97d8b26ca6b68da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:26 +0000
Subject: [PATCH 154/195] fix: virtual arrays accept any way of writing the
 type that is made

---
 awkward0/array/virtual.py | 2 +-
 awkward0/type.py          | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 2d546ca..67ed6cf 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -388,7 +388,7 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
 
         if self._type is not None:
             materializedtype = awkward0.type.fromarray(array)
-            if ((isinstance(self._type, awkward0.type.Type) and not self._type._eq(materializedtype, set(), ignoremask=True)) or
+            if ((isinstance(self._type, awkward0.type.Type) and not self._type._accepts(materializedtype)) or
                 (not isinstance(self._type, awkward0.type.Type) and not self._type == materializedtype)):
                 raise TypeError("materialized array has type\n\n{0}\n\nexpected type\n\n{1}".format(awkward0.type._str(awkward0.type.fromarray(array), indent="    "), awkward0.type._str(self._type, indent="    ")))
 
diff --git a/awkward0/type.py b/awkward0/type.py
index ce6bfd1..0d07f98 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -187,6 +187,12 @@ class Type(object):
             two = Type._canonical(Type._copy(other, {}), set())
             return one._eq(two, set(), ignoremask=False)
 
+    def _accepts(self, other):
+        # like ==, but what is declared as optional may turn out not to be masked
+        one = Type._canonical(Type._copy(self, {}), set())
+        two = Type._canonical(Type._copy(other, {}), set())
+        return one._eq(two, set(), ignoremask=True)
+
     def __ne__(self, other):
         return not self.__eq__(other)
 
-- 
2.43.0


From 28d1a74077d2ccfd26b0ade53e622ec429edffa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 155/195] fix: numbers are not of the same type as options and
 fixed-size arrays of them

---
 awkward0/type.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/type.py b/awkward0/type.py
index 0d07f98..5e89d04 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -221,6 +221,8 @@ class Type(object):
     def _eq2(one, two, seen, ignoremask=False):
         if isinstance(one, Type):
             return one._eq(two, seen, ignoremask=ignoremask)
+        elif isinstance(two, Type):
+            return False      # (Numpy would compare with its dtype)
         elif one == two:
             return True
         elif callable(one) and callable(two):
-- 
2.43.0


From 78840c48c86b28dcc037a2dc829e5085f374c061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 156/195] fix: types that are dropped while comparing do not
 hide others

---
 awkward0/type.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/awkward0/type.py b/awkward0/type.py
index 5e89d04..0a1c1d9 100644
--- a/awkward0/type.py
+++ b/awkward0/type.py
@@ -142,7 +142,7 @@ class Type(object):
     def _canonical(x, seen):
         # in place (x has to be a copy), with the parts of x before x itself
         if isinstance(x, Type) and id(x) not in seen:
-            seen.add(id(x))
+            seen[id(x)] = x          # (kept, so that its id is not used again)
             if isinstance(x, ArrayType):
                 Type._canonical(x._to, seen)
 
@@ -183,21 +183,21 @@ class Type(object):
         if not isinstance(other, Type):
             return False
         else:
-            one = Type._canonical(Type._copy(self, {}), set())
-            two = Type._canonical(Type._copy(other, {}), set())
+            one = Type._canonical(Type._copy(self, {}), {})
+            two = Type._canonical(Type._copy(other, {}), {})
             return one._eq(two, set(), ignoremask=False)
 
     def _accepts(self, other):
         # like ==, but what is declared as optional may turn out not to be masked
-        one = Type._canonical(Type._copy(self, {}), set())
-        two = Type._canonical(Type._copy(other, {}), set())
+        one = Type._canonical(Type._copy(self, {}), {})
+        two = Type._canonical(Type._copy(other, {}), {})
         return one._eq(two, set(), ignoremask=True)
 
     def __ne__(self, other):
         return not self.__eq__(other)
 
     def __hash__(self):
-        return Type._hash(Type._canonical(Type._copy(self, {}), set()), 5)
+        return Type._hash(Type._canonical(Type._copy(self, {}), {}), 5)
 
     @staticmethod
     def _hash(x, depth):
-- 
2.43.0


From 740a2cad3fbcfee9109368d78ab0bb992efbe659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 157/195] fix: virtual arrays whose construction failed are
 deleted without errors

---
 awkward0/array/virtual.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/virtual.py b/awkward0/array/virtual.py
index 67ed6cf..1119dd1 100644
--- a/awkward0/array/virtual.py
+++ b/awkward0/array/virtual.py
@@ -405,9 +405,10 @@ class VirtualArray(awkward0.array.base.AwkwardArray):
     def __del__(self):
         # TransientKeys are based on runtime ids, which Python may reuse after an object is garbage collected
         # they *MUST* be removed from the cache to avoid confusion; persistentkeys can (and should) stay in
-        if getattr(self, "_cache", None) is not None and isinstance(self._array, VirtualArray.TransientKey):
+        cache, array = self.__dict__.get("_cache"), self.__dict__.get("_array")      # (construction may have failed)
+        if cache is not None and isinstance(array, VirtualArray.TransientKey):
             try:
-                del self._cache[self._array]
+                del cache[array]
             except:
                 pass
 
-- 
2.43.0


From 39070393590ddc217a77183ed138075728d05f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 158/195] fix: JaggedArray assigned new parents or
 two-dimensional offsets is checked again

---
 awkward0/array/jagged.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 826c729..02547ab 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -146,6 +146,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             # If offsets is already a view, the base will not be offsets but its underlying base.
             # Make a copy to prevent that
             offsets = offsets.copy()
+        if len(offsets.shape) != 1:
+            raise ValueError("offsets must be a one-dimensional array")
         if len(offsets) == 0:
             raise ValueError("offsets must be a non-empty array")
         return cls(offsets[:-1], offsets[1:], content)
@@ -425,6 +427,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         self._starts, self._stops = self.parents2startsstops(value)
         self._offsets, self._counts = None, None
         self._parents = value
+        self._isvalid = False
 
     @property
     def localindex(self):
-- 
2.43.0


From 22f2e7c5ed0fe883983aed8fd4cdd0abb5cb2e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:14 +0000
Subject: [PATCH 159/195] fix: BitMaskedArray with fewer bits than content is
 not valid

---
 awkward0/array/masked.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index 8bbdb10..d7554fe 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -547,6 +547,9 @@ class BitMaskedArray(MaskedArray):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
+                if len(self._mask) < self._ceildiv8(len(self._content)):
+                    raise ValueError("mask length ({0} bytes) must have at least one bit for each element of the content (length {1})".format(len(self._mask), len(self._content)))
+
                 self._isvalid = True
 
     def __iter__(self, checkiter=True):
-- 
2.43.0


From 675336cbcda27b2ef8b8bbf109b61a283a8ba712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 160/195] fix: IndexedArray index must be strictly less than
 the length of the content

---
 awkward0/array/indexed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 3604ae0..e325f5c 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -126,8 +126,8 @@ class IndexedArray(awkward0.array.base.AwkwardArrayWithContent):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
-                if len(self._index) != 0 and self._index.reshape(-1).max() > len(self._content):
-                    raise ValueError("maximum index ({0}) is beyond the length of the content ({1})".format(self._index.reshape(-1).max(), len(self._content)))
+                if len(self._index) != 0 and self._index.reshape(-1).max() >= len(self._content):
+                    raise ValueError("maximum index ({0}) is at or beyond the length of the content ({1})".format(self._index.reshape(-1).max(), len(self._content)))
 
                 self._isvalid = True
 
-- 
2.43.0


From a08e3fc9216a7b397f4f82d2bc44a3548992f1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:22 +0000
Subject: [PATCH 161/195] fix: IndexedMaskedArray validity considers unmasked
 elements and is checked again for a new maskedwhen

---
 awkward0/array/masked.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/masked.py b/awkward0/array/masked.py
index d7554fe..c473d7e 100644
--- a/awkward0/array/masked.py
+++ b/awkward0/array/masked.py
@@ -757,6 +757,7 @@ class IndexedMaskedArray(MaskedArray):
             if not self._util_isinteger(value):
                 raise TypeError("maskedwhen must be an integer for IndexedMaskedArray")
         self._maskedwhen = value
+        self._isvalid = False
 
     def boolmask(self, maskedwhen=True):
         if maskedwhen is None:
@@ -776,10 +777,11 @@ class IndexedMaskedArray(MaskedArray):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
-                if len(self._mask) != 0:
-                    if self._mask.max() > len(self._content):
-                        raise ValueError("maximum mask-index ({0}) is beyond the length of the content ({1})".format(self._mask.max(), len(self._content)))
-                    if (self._mask[self._mask != self._maskedwhen] < 0).any():
+                index = self._mask[self._mask != self._maskedwhen]
+                if len(index) != 0:
+                    if index.max() >= len(self._content):
+                        raise ValueError("maximum mask-index ({0}) is at or beyond the length of the content ({1})".format(index.max(), len(self._content)))
+                    if (index < 0).any():
                         raise ValueError("mask-index has negative values (other than maskedwhen)")
 
                 self._isvalid = True
-- 
2.43.0


From e0b8ac2a4259e98462659eccffe411e91c0f90a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:25 +0000
Subject: [PATCH 162/195] fix: UnionArray refuses tags that are not integers
 and fewer indexes than tags

---
 awkward0/array/union.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 8d0c216..6ea64c9 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -103,6 +103,9 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     @tags.setter
     def tags(self, value):
         value = self._util_toarray(value, self.TAGTYPE, self.numpy.ndarray)
+        if self.check_prop_valid:
+            if not self._util_isintegertype(value.dtype.type):
+                raise TypeError("tags must have integer dtype")
         tagsmax = value.max()
         if tagsmax <= self.numpy.iinfo(self.TAGTYPE).max:
             value = value.astype(self.TAGTYPE)
@@ -120,8 +123,6 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         if self.check_prop_valid:
             if len(value) == 0:
                 raise ValueError("tags must be non-empty")
-            if not self._util_isintegertype(value.dtype.type):
-                raise TypeError("tags must have integer dtype")
             if (value < 0).any():
                 raise ValueError("tags must be a non-negative array")
         self._tags = value
@@ -258,8 +259,8 @@ class UnionArray(awkward0.array.base.AwkwardArray):
     def _valid(self):
         if self.check_whole_valid:
             if not self._isvalid:
-                if len(self._tags.shape) > len(self._index.shape):
-                    raise ValueError("tags length ({0}) must be less than or equal to index length ({1})".format(len(self._tags.shape), len(self._index.shape)))
+                if len(self._tags) > len(self._index):
+                    raise ValueError("tags length ({0}) must be less than or equal to index length ({1})".format(len(self._tags), len(self._index)))
 
                 if self._tags.shape[1:] != self._index.shape[1:]:
                     raise ValueError("tags dimensionality ({0}) must be equal to index dimensionality ({1})".format(self._tags.shape[1:], self._index.shape[1:]))
-- 
2.43.0


From 705d1ecfeb877b88938cad1e32ef2adc29b693ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:29 +0000
Subject: [PATCH 163/195] fix: iterating over a ChunkedArray checks its
 chunksizes

---
 awkward0/array/chunked.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index cec620b..39f5ff0 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -273,13 +273,16 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         offsets = self.offsets
         return [slice(start, stop) for start, stop in zip(offsets[:-1], offsets[1:])]
 
-    def _valid(self):
+    def _validsizes(self):
         if self.check_whole_valid:
             if len(self._chunksizes) > len(self._chunks):
                 raise ValueError("ChunkArray has more chunksizes than chunks")
             for i, count in enumerate(self._chunksizes):
                 if count != len(self._chunks[i]):
                     raise ValueError("count[{0}] does not agree with len(chunk[{0}])".format(i))
+
+    def _valid(self):
+        self._validsizes()
         self._gettype({})
 
     def __str__(self):
@@ -295,6 +298,7 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
     def __iter__(self, checkiter=True):
         if checkiter:
             self._checkiter()
+        self._validsizes()
         for i, chunk in enumerate(self._chunks):
             if i >= len(self._chunksizes):
                 self._chunksizes.append(len(chunk))
@@ -1019,6 +1023,9 @@ class AppendableArray(ChunkedArray):
     def __len__(self):
         return sum(self._chunksizes)
 
+    def _validsizes(self):
+        pass   # the last chunk may have unused space
+
     def _valid(self):
         if self.check_whole_valid:
             pass
-- 
2.43.0


From 79de69eccfa45b2de4047a0294afe44db0975e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 164/195] fix: StringArray is as valid as its starts, stops and
 content

---
 awkward0/array/objects.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 426f597..8f6b96d 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -626,6 +626,9 @@ class StringArray(StringMethods, ObjectArray):
     def index(self):
         return self._content.index
 
+    def _valid(self):
+        self._content._valid()
+
     def _gettype(self, seen):
         if self._encoding is None:
             return bytes
-- 
2.43.0


From 7cb5b4fa0332713507b135fafa629aea36c468b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:38 +0000
Subject: [PATCH 165/195] fix: AppendableArray.copy checks its chunkshape and
 dtype

---
 awkward0/array/chunked.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 39f5ff0..c7b62fc 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -864,9 +864,9 @@ class AppendableArray(ChunkedArray):
         out._chunksizes = list(self._chunksizes)
         out._types = list(self._types)
         if chunkshape is not None:
-            out._chunkshape = chunkshape
+            out.chunkshape = chunkshape
         if dtype is not None:
-            out._dtype = dtype
+            out.dtype = dtype
         if chunks is not None:
             out.chunks = chunks
         elif len(out._chunks) != 0 and out._chunksizes[-1] < len(out._chunks[-1]):
-- 
2.43.0


From dd4fd9b3ca431f67fd20e4309f9ac41445c72c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 166/195] fix: fromlocalindex refuses a local index that does
 not start with zero

---
 awkward0/array/jagged.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 02547ab..862a186 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -205,6 +205,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             raise ValueError("localindex array must be one-dimensional with the same length as content")
 
         if validate:
+            if len(index) != 0 and index[0] != 0:
+                raise ValueError("first localindex must be zero")
             if not ((index[1:] - index[:-1])[(index != 0)[1:]] == 1).all():
                 raise ValueError("every localindex that is not zero must be one greater than the previous")
 
-- 
2.43.0


From f71a53cc0837dfe0e84ce6c168b6870d55bc4b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 167/195] fix: converting unions of numbers to Numpy

---
 awkward0/array/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index c505a85..e1da541 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -67,7 +67,10 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         if dtype is None:
             dtype = self.dtype
 
-        shape = self.shape if self.dtype != self.numpy.dtype(self.numpy.object_) else (len(self),)
+        if self.dtype == self.numpy.dtype(self.numpy.object_) or isinstance(self.type.to, awkward0.type.UnionType):
+            shape = (len(self),)
+        else:
+            shape = self.shape
         out = self.numpy.empty(shape, dtype=dtype)
         for i, x in enumerate(self):
             out[i] = x
-- 
2.43.0


From eee360140ab0fbb73de1bb6fb8cb1095982eac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:29 +0000
Subject: [PATCH 168/195] fix: ufuncs with several results on ObjectArrays

---
 awkward0/array/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 8f6b96d..f59f27f 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -220,6 +220,8 @@ class ObjectArray(awkward0.array.base.AwkwardArrayWithContent):
 
         if self._util_iscomparison(ufunc):
             return result
+        elif isinstance(result, tuple):
+            return tuple(self.copy(content=x) for x in result)
         else:
             return self.copy(content=result)
 
-- 
2.43.0


From f3b7aaa7b8d69ca6dc2d32c0cd8f4c4d995aa0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:34 +0000
Subject: [PATCH 169/195] fix: methods of subclasses of classes with mix-in
 methods are transferred

---
 awkward0/array/objects.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index f59f27f..1e38e9e 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -22,11 +22,21 @@ class Methods(object):
         assert not issubclass(awkwardtype, Methods)
         return type(awkwardtype.__name__ + "Methods", (methods, awkwardtype), {})
 
+    @staticmethod
+    def _mixedin(cls):
+        out = ()
+        for x in cls.__bases__:
+            if not issubclass(x, awkward0.array.base.AwkwardArray):
+                out = out + (x,)
+            elif issubclass(x, Methods):
+                out = out + tuple(y for y in Methods._mixedin(x) if y not in out)
+        return out
+
     @staticmethod
     def maybemixin(sample, awkwardtype):
         if issubclass(sample, Methods):
             assert issubclass(sample, awkward0.array.base.AwkwardArray)
-            allbases = tuple(x for x in sample.__bases__ if not issubclass(x, awkward0.array.base.AwkwardArray)) + (awkwardtype,)
+            allbases = Methods._mixedin(sample) + (awkwardtype,)
             return type(awkwardtype.__name__ + "Methods", allbases, {})
         else:
             return awkwardtype
-- 
2.43.0


From 82978371ff99361728908b116c9212add7f6079f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:16 +0000
Subject: [PATCH 170/195] fix: flattening for Pandas depends on an array's
 values, not its layout

---
 awkward0/util.py | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/awkward0/util.py b/awkward0/util.py
index 358c664..04d9e93 100644
--- a/awkward0/util.py
+++ b/awkward0/util.py
@@ -231,7 +231,9 @@ def topandas_flatten(array):
 
     import awkward0.array.base
     import awkward0.array.chunked
+    import awkward0.array.indexed
     import awkward0.array.jagged
+    import awkward0.array.masked
     import awkward0.array.objects
     import awkward0.array.table
     import awkward0.array.virtual
@@ -246,14 +248,38 @@ def topandas_flatten(array):
         Table = awkward0.array.table.Table
 
     def unwrap(a):
+        # one arrangement of buffers for each type
         if isinstance(a, awkward0.array.chunked.ChunkedArray):
-            chunks = [unwrap(x) for x in a.chunks]
-            if any(isinstance(x, awkward0.array.jagged.JaggedArray) for x in chunks):
-                return awkward0.array.jagged.JaggedArray.concatenate(chunks)
+            chunks = [unwrap(x) for x in a.chunks if len(x) != 0]
+            if len(chunks) == 0:
+                return unwrap(a.chunks[0]) if len(a.chunks) != 0 else numpy.empty(0)
+            elif len(chunks) == 1:
+                return chunks[0]
+            elif isinstance(chunks[0], awkward0.array.base.AwkwardArray):
+                return chunks[0].concatenate(chunks[1:])
             else:
-                return numpy.concatenate([x.regular() for x in chunks])
+                return numpy.concatenate(chunks)
         elif isinstance(a, awkward0.array.virtual.VirtualArray):
-            return a.array
+            return unwrap(a.array)
+        elif isinstance(a, awkward0.array.indexed.IndexedArray):
+            return unwrap(a.content[a.index])
+        elif isinstance(a, awkward0.array.jagged.JaggedArray):
+            a = a.compact()
+            return JaggedArray(a.starts, a.stops, unwrap(a.content))
+        elif isinstance(a, awkward0.array.masked.MaskedArray):
+            mask = a.boolmask(maskedwhen=True)
+            present = a[~mask]
+            if isinstance(present, awkward0.array.masked.IndexedMaskedArray):
+                present = unwrap(present.content[present.mask])
+            else:
+                present = unwrap(present.content[:len(present)])
+            if isinstance(present, awkward0.array.base.AwkwardArray):
+                return a
+            content = numpy.zeros((len(a),) + present.shape[1:], dtype=present.dtype)
+            content[~mask] = present
+            return a.MaskedArray(mask, content)
+        elif isinstance(a, awkward0.array.objects.ObjectArray) and not isinstance(a, awkward0.array.objects.StringArray):
+            return unwrap(a.content)
         else:
             return a
 
@@ -273,8 +299,6 @@ def topandas_flatten(array):
                 tpen = tpe[n]
                 colsn = cols + (n,) if seriously else cols
 
-                if isinstance(arrayn, awkward0.array.objects.ObjectArray) and not isinstance(arrayn, awkward0.array.objects.StringArray):
-                    arrayn = arrayn.content
                 if not isinstance(tpen, (numpy.dtype, str, bytes, awkward0.type.Type)):
                     tpen = awkward0.type.fromarray(arrayn).to
                 if isinstance(tpen, numpy.dtype):
@@ -293,7 +317,7 @@ def topandas_flatten(array):
 
                 elif isinstance(tpen, awkward0.type.OptionType) and isinstance(arrayn.content, numpy.ndarray):
                     columns.append(colsn)
-                    tmp = numpy.ma.MaskedArray(arrayn.content, arrayn.boolmask(maskedwhen=True))
+                    tmp = arrayn
 
                 else:
                     raise ValueError("this array has unflattenable substructure:\n\n{0}".format(str(tpen)))
@@ -355,6 +379,9 @@ def topandas_flatten(array):
         x = tmp
         for c in col:
             x = x[c]
+        x = unwrap(x)
+        if isinstance(x, awkward0.array.masked.MaskedArray):
+            x = numpy.ma.MaskedArray(x.content, x.boolmask(maskedwhen=True))
         columns[i] = col + ("",) * (deepest - len(col))
         out[columns[i]] = x
 
-- 
2.43.0


From 5192a33a1024812f7efef639cfe6597e3135a930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 171/195] fix: flattening for Pandas reads only the elements
 that are in lists

---
 awkward0/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/awkward0/util.py b/awkward0/util.py
index 04d9e93..4e8ba17 100644
--- a/awkward0/util.py
+++ b/awkward0/util.py
@@ -264,8 +264,7 @@ def topandas_flatten(array):
         elif isinstance(a, awkward0.array.indexed.IndexedArray):
             return unwrap(a.content[a.index])
         elif isinstance(a, awkward0.array.jagged.JaggedArray):
-            a = a.compact()
-            return JaggedArray(a.starts, a.stops, unwrap(a.content))
+            return JaggedArray.fromcounts(a.counts, unwrap(a.flatten()))
         elif isinstance(a, awkward0.array.masked.MaskedArray):
             mask = a.boolmask(maskedwhen=True)
             present = a[~mask]
-- 
2.43.0


From 9f69cbf8b747d381a68798ec091df78fe173f56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:00 +0000
Subject: [PATCH 172/195] fix: columns of strings are not mixed up when a table
 is wrapped for Pandas

---
 awkward0/array/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/objects.py b/awkward0/array/objects.py
index 1e38e9e..83e1716 100644
--- a/awkward0/array/objects.py
+++ b/awkward0/array/objects.py
@@ -751,5 +751,5 @@ class StringArray(StringMethods, ObjectArray):
             out = seen[id(self)] = self.copy()
             out.__class__ = awkward0.pandas.mixin(type(self))
             if isinstance(self._content, awkward0.array.base.AwkwardArray):
-                out._content = out._content._topandas(seen)
+                out._content = self._content._topandas(seen)
             return out
-- 
2.43.0


From a9e3038f8dc6cfd1293bfc054333f0c815754871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:18 +0000
Subject: [PATCH 173/195] fix: AppendableArray keeps its chunkshape when
 property checks are switched off

---
 awkward0/array/chunked.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index c7b62fc..a1d524c 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -961,7 +961,7 @@ class AppendableArray(ChunkedArray):
                     raise TypeError("chunkshape must be a positive integer or a tuple of integers")
                 except AssertionError:
                     raise ValueError("chunkshape must be a positive integer or tuple of positive integers")
-                self._chunkshape = tuple(value)
+            self._chunkshape = tuple(value)
 
     @property
     def dtype(self):
-- 
2.43.0


From cb13a361ff933c183b349376898f43ed9a2094aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 174/195] fix: selecting with an Awkward Array does not iterate
 over it

---
 awkward0/array/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index e1da541..a6d9fe1 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -653,7 +653,7 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         elif isinstance(where, (cls.numpy.ndarray, AwkwardArray)) and issubclass(where.dtype.type, (numpy.str, numpy.str_)):
             return True
         elif isinstance(where, (cls.numpy.ndarray, AwkwardArray)) and issubclass(where.dtype.type, (numpy.object, numpy.object_)) and not issubclass(where.dtype.type, (numpy.bool, numpy.bool_)):
-            return len(where) > 0 and all(isinstance(x, awkward0.util.string) for x in where)
+            return len(where) > 0 and isinstance(where[0], awkward0.util.string) and all(isinstance(x, awkward0.util.string) for x in where)
         elif isinstance(where, (cls.numpy.ndarray, AwkwardArray)):
             return False
         try:
-- 
2.43.0


From 9f930028cbb32fd6f3aafae4e4b3d2dc3d47547c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 175/195] fix: arrays of strings and objects can be printed
 when iteration is forbidden

---
 awkward0/array/base.py    | 9 ++-------
 awkward0/array/chunked.py | 3 ++-
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index a6d9fe1..23f24d2 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -103,17 +103,12 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
 
     def __str__(self):
         if len(self) <= 6:
-            return "[{0}]".format(" ".join(self._util_arraystr(x) for x in self.__iter__(checkiter=False)))
+            return "[{0}]".format(" ".join(self._util_arraystr(self[i]) for i in range(len(self))))
 
         else:
             first = self[:3]
-            if isinstance(first, AwkwardArray):
-                first = first.__iter__(checkiter=False)
             last = self[-3:]
-            if isinstance(first, AwkwardArray):
-                last = last.__iter__(checkiter=False)
-
-            return "[{0} ... {1}]".format(" ".join(self._util_arraystr(x) for x in first), " ".join(self._util_arraystr(x) for x in last))
+            return "[{0} ... {1}]".format(" ".join(self._util_arraystr(first[i]) for i in range(3)), " ".join(self._util_arraystr(last[i]) for i in range(3)))
 
     def __repr__(self):
         return "<{0} {1} at 0x{2:012x}>".format(self.__class__.__name__, str(self), id(self))
diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index a1d524c..9d02542 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -289,7 +289,8 @@ class ChunkedArray(awkward0.array.base.AwkwardArray):
         if self.chunksizesknown:
             return super(ChunkedArray, self).__str__()
         else:
-            strs = [self._util_arraystr(x) for x in self[:7].__iter__(checkiter=False)]
+            first = self[:7]
+            strs = [self._util_arraystr(first[i]) for i in range(len(first))]
             if len(strs) < 7:
                 return super(ChunkedArray, self).__str__()
             else:
-- 
2.43.0


From 266ddb2d392978fecf424ac85a44905082ababee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 176/195] fix: negative tags are refused before they wrap
 around

---
 awkward0/array/union.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/union.py b/awkward0/array/union.py
index 6ea64c9..a0704e3 100644
--- a/awkward0/array/union.py
+++ b/awkward0/array/union.py
@@ -106,6 +106,8 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         if self.check_prop_valid:
             if not self._util_isintegertype(value.dtype.type):
                 raise TypeError("tags must have integer dtype")
+            if (value < 0).any():
+                raise ValueError("tags must be a non-negative array")
         tagsmax = value.max()
         if tagsmax <= self.numpy.iinfo(self.TAGTYPE).max:
             value = value.astype(self.TAGTYPE)
@@ -123,8 +125,6 @@ class UnionArray(awkward0.array.base.AwkwardArray):
         if self.check_prop_valid:
             if len(value) == 0:
                 raise ValueError("tags must be non-empty")
-            if (value < 0).any():
-                raise ValueError("tags must be a non-negative array")
         self._tags = value
         self._isvalid = False
 
-- 
2.43.0


From 55a2a6bffbb3cf7238ba2fb72045be2d2f20038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 177/195] fix: allow_tonumpy set on one AppendableArray applies
 to it

---
 awkward0/array/chunked.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/chunked.py b/awkward0/array/chunked.py
index 9d02542..9c73811 100644
--- a/awkward0/array/chunked.py
+++ b/awkward0/array/chunked.py
@@ -891,6 +891,7 @@ class AppendableArray(ChunkedArray):
             return super(AppendableArray, self).__getitem__(where)
 
     def __array__(self, *args, **kwargs):
+        self._checktonumpy()
         return super(AppendableArray, self._filled()).__array__(*args, **kwargs)
 
     def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
-- 
2.43.0


From cf4110bdc0bade570f743e126c90d3e4a856fb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 178/195] fix: sparse arrays with spare content, sparse masks,
 masks of sparse arrays with nothing stored, flatten and pad

---
 awkward0/array/indexed.py | 41 ++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index e325f5c..bc4b414 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -556,7 +556,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 mask[remainder != 0] = False
 
             index = index[mask]
-            content = self._content[mask]
+            content = self._content[:len(self._index)][mask]
             if step < 0:
                 index = index[::-1]
                 content = content[::-1]
@@ -568,23 +568,18 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if self._length != head._length:
                 raise IndexError("boolean index did not match indexed array along dimension 0; dimension is {0} but corresponding boolean dimension is {1}".format(self._length, head._length))
 
-            # the new index is a cumsum (starting at zero) of the boolean values
-            index = self.numpy.cumsum(head._content)
-            length = index[-1]
-            index[1:] = index[:-1]
-            index[0] = 0
-
-            # find my sparse elements in the mask's sparse elements
-            match1 = self.numpy.searchsorted(head._index, self._index, side="left")
-            match1[match1 >= len(head._index)] = len(head._index) - 1
-            content = self._content[self.numpy.logical_and(head._index[match1] == self._index, head._content[match1])]
-
-            # find the mask's sparse elements in my sparse elements
-            match2 = self.numpy.searchsorted(self._index, head._index, side="left")
-            match2[match2 >= len(head._index)] = len(head._index) - 1
-            index = index[self.numpy.logical_and(self._index[match2] == head._index, head._content)]
+            default = bool(head.default)
+            values = self._util_toarray(head._content, self.BOOLTYPE, self.numpy.ndarray)[:len(head._index)].astype(self.BOOLTYPE)
+            exceptions = head._index[(values != default) & (head._index < self._length)]      # where the mask is not its default
+            before = self.numpy.searchsorted(exceptions, self._index, side="left")
+            isexception = self.numpy.searchsorted(exceptions, self._index, side="right") != before
+            if default:
+                length, keep, index = self._length - len(exceptions), ~isexception, self._index - before
+            else:
+                length, keep, index = len(exceptions), isexception, before
+            keep &= (self._index < self._length)
 
-            return self.copy(length=length, index=index, content=content)
+            return self.copy(length=length, index=index[keep], content=self._content[:len(self._index)][keep])[tail]
 
         else:
             head = self._util_toarray(head, self.INDEXTYPE)
@@ -648,7 +643,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         self._valid()
 
         if len(self._index) == 0:
-            return self.numpy.empty(0, dtype=self.numpy.bool_)
+            return self.numpy.full(self._length, not maskedwhen, dtype=self.BOOLTYPE)
 
         if maskedwhen:
             return self._index[self._getinverse()] == self.numpy.arange(self._length, dtype=self.INDEXTYPE)
@@ -716,16 +711,10 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         return self.copy(content=self._util_flattentuple(self._content))
 
     def flatten(self, axis=0):
-        self._valid()
-        out = self._util_flatten(self._content, axis)
-        out = self.numpy.full(self.shape, self.default, dtype=content.dtype)
-        if len(self._index) != 0:
-            mask = self.boolmask(maskedwhen=True)
-            out[mask] = content[self._inverse[mask]]
-        return out
+        return self._util_flatten(self.dense, axis)
 
     def pad(self, length, maskedwhen=True, clip=False, axis=0):
-        return self._util_pad(self._content.dense, length, maskedwhen, clip, axis)
+        return self._util_pad(self.dense, length, maskedwhen, clip, axis)
 
     def astype(self, dtype):
         default = self._default
-- 
2.43.0


From a774a561622a7a43cad819cf6fcf6e4b77491192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 179/195] fix: inner dimensions of slices and selections of
 SparseArrays, dense after assigning the length

---
 awkward0/array/indexed.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index bc4b414..8358fd2 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -394,6 +394,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             if value < 0:
                 raise ValueError("length must be a non-negative integer")
         self._length = value
+        self._inverse = None
 
     @property
     def index(self):
@@ -561,7 +562,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 index = index[::-1]
                 content = content[::-1]
 
-            return self.copy(length=length, index=index, content=content)[tail]
+            return self._subdims(self.copy(length=length, index=index, content=content), tail)
 
         elif isinstance(head, SparseArray) and len(head.shape) == 1 and issubclass(head.dtype.type, (self.numpy.bool, self.numpy.bool_)):
             head._valid()
@@ -579,7 +580,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                 length, keep, index = len(exceptions), isexception, before
             keep &= (self._index < self._length)
 
-            return self.copy(length=length, index=index[keep], content=self._content[:len(self._index)][keep])[tail]
+            return self._subdims(self.copy(length=length, index=index[keep], content=self._content[:len(self._index)][keep]), tail)
 
         else:
             head = self._util_toarray(head, self.INDEXTYPE)
@@ -605,7 +606,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
                     explicit = (self._index[match] == head)
 
                 if len(head) == 0:
-                    return self._content[match][tail]
+                    return self._content[(match,) + tail]
                 tags = self.numpy.zeros(len(head), dtype=self.TAGTYPE)
                 index = self.numpy.zeros(len(head), dtype=self.INDEXTYPE)
                 tags[explicit] = 1
@@ -613,11 +614,17 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
                 content = self._content[match[explicit]]
                 default = self.numpy.array([self.default])
-                return self.UnionArray(tags, index, [default, content])[tail]
+                return self.UnionArray(tags, index, [default, content])[(slice(None),) + tail if tail != () else ()]
 
             else:
                 raise TypeError("cannot interpret shape {0}, dtype {1} as a fancy index or mask".format(head.shape, head.dtype))
 
+    def _subdims(self, out, tail):
+        if tail == ():
+            return out
+        else:
+            return out.copy(content=out._content[(slice(None),) + tail], default=out.default[tail])
+
     def _getinverse(self):
         if self._inverse is None:
             self._inverse = self.numpy.searchsorted(self._index, self.numpy.arange(self._length, dtype=self.INDEXTYPE), side="left")
-- 
2.43.0


From 847c15bccae097a1f2a377ac675469a2753598e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 180/195] fix: deep copies of SparseArrays copy an array-valued
 default

---
 awkward0/array/indexed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 8358fd2..941c23c 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -342,6 +342,8 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
         out = self.copy(length=length, index=index, content=content, default=default)
         out._index = self._util_deepcopy(out._index)
         out._content = self._util_deepcopy(out._content)
+        if isinstance(out._default, self.numpy.ndarray):
+            out._default = self._util_deepcopy(out._default)
         out._inverse = self._util_deepcopy(out._inverse)
         return out
 
-- 
2.43.0


From 24b998ed5a7fd795afe3c33436fc1b62614e9d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:41 +0000
Subject: [PATCH 181/195] fix: conversion to Numpy of a union whose
 alternatives have the same inner dimensions

---
 awkward0/array/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/base.py b/awkward0/array/base.py
index 23f24d2..73e7e4a 100644
--- a/awkward0/array/base.py
+++ b/awkward0/array/base.py
@@ -67,8 +67,11 @@ class AwkwardArray(awkward0.util.NDArrayOperatorsMixin):
         if dtype is None:
             dtype = self.dtype
 
-        if self.dtype == self.numpy.dtype(self.numpy.object_) or isinstance(self.type.to, awkward0.type.UnionType):
+        if self.dtype == self.numpy.dtype(self.numpy.object_):
             shape = (len(self),)
+        elif isinstance(self.type.to, awkward0.type.UnionType):
+            inner = set(x.shape for x in self.type.to)
+            shape = (len(self),) + (inner.pop() if len(inner) == 1 else ())
         else:
             shape = self.shape
         out = self.numpy.empty(shape, dtype=dtype)
-- 
2.43.0


From 58a9307d42c84efedb70644250ffd65c675cf933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:58 +0000
Subject: [PATCH 182/195] fix: nested crosses of nested crosses of more than
 two arrays keep flat tuples

---
 awkward0/array/jagged.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 862a186..79eed5e 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1368,14 +1368,17 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
         else:
             thyself = self
 
-        argcross = thyself._argcross(other)
-        left, right = argcross._content._contents.values()
+        if hasattr(thyself, "_nestedcross"):
+            out = thyself.cross(other, nested=nested)      # it regroups by itself
+        else:
+            argcross = thyself._argcross(other)
+            left, right = argcross._content._contents.values()
 
-        out = self.JaggedArray.fromoffsets(argcross._offsets, self.Table.named("tuple", thyself._content[left], other._content[right]).flattentuple())
-        out._parents = argcross._parents
-        out._iscross = True
+            out = self.JaggedArray.fromoffsets(argcross._offsets, self.Table.named("tuple", thyself._content[left], other._content[right]).flattentuple())
+            out._parents = argcross._parents
+            out._iscross = True
 
-        if nested:
+        if nested and not hasattr(thyself, "_nestedcross"):
             old = out
             out = self.JaggedArray.fromcounts(thyself.counts, self.JaggedArray.fromcounts(self.numpy.repeat(other.counts, awkward0.util.windows_safe(thyself.counts)), out._content))
             out._nestedcross = old
-- 
2.43.0


From b78bebeb302404525d24d05fae17aefb5be33dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 183/195] fix: a column of a nested cross is not the nested
 cross

---
 awkward0/array/jagged.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 79eed5e..e903a76 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -529,6 +529,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             out.__dict__.update(self.__dict__)
             out._content = content
             out.__doc__ = content.__doc__
+            out.__dict__.pop("_nestedcross", None)
             return out
 
         if isinstance(where, tuple) and len(where) == 0:
-- 
2.43.0


From b3405b81e25df35ecbef48829f79bb49c2aec708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:13 +0000
Subject: [PATCH 184/195] fix: dir() of a row needs the keyword module

---
 awkward0/array/table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 1db7476..6591db9 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -2,6 +2,7 @@
 
 # BSD 3-Clause License; see https://github.com/scikit-hep/awkward-0.x/blob/master/LICENSE
 
+import keyword
 import numbers
 import re
 import types
-- 
2.43.0


From 7adcde18d6866f2758947ea5bb0b362f48acfac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 185/195] fix: arithmetic on a row of a selection uses that row

---
 awkward0/array/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 6591db9..8f311ee 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -111,7 +111,7 @@ class Table(awkward0.array.base.AwkwardArray):
             inputs = list(inputs)
             for i in range(len(inputs)):
                 if isinstance(inputs[i], Table.Row):
-                    inputs[i] = inputs[i]._table[inputs[i]._index : inputs[i]._index + 1]
+                    inputs[i] = inputs[i]._table.fromview((inputs[i]._index, 1, 1), inputs[i]._table)
 
             result = getattr(ufunc, method)(*inputs, **kwargs)
 
-- 
2.43.0


From 302104a25c3dfa0f0970e0cc18bb7377142c9f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 186/195] fix: comparing rows by order gives a boolean

---
 awkward0/array/table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 8f311ee..1ecccbe 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -127,6 +127,8 @@ class Table(awkward0.array.base.AwkwardArray):
                     return tuple(out)
                 elif method == "at":
                     return None
+                elif not isinstance(result, Table):
+                    return result[0]
                 else:
                     out = awkward0.array.objects.Methods.maybemixin(type(result), self._table.Table.Row)(result, 0)
                     out._table._showdict = True
-- 
2.43.0


From 6156cd58a606f3a3bd8be6320d7cc0a16b6fb5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:46 +0000
Subject: [PATCH 187/195] fix: a table combined with a row combines their
 columns

---
 awkward0/array/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index 1ecccbe..e84599c 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -701,7 +701,7 @@ class Table(awkward0.array.base.AwkwardArray):
         if "out" in kwargs:
             raise NotImplementedError("in-place operations not supported")
 
-        if method != "__call__" or self._util_deferufunc(inputs):
+        if method != "__call__" or self._util_deferufunc(inputs) or any(isinstance(x, Table.Row) for x in inputs):
             return NotImplemented
 
         if any(isinstance(x, self.JaggedArray) and len(x.columns) != 0 for x in inputs) and not any(isinstance(y, self.JaggedArray) for x in inputs if isinstance(x, Table) for y in x._contents.values()):
-- 
2.43.0


From a95979f1b5da6a3507a6528a30b803b229e1e9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:57 +0000
Subject: [PATCH 188/195] fix: reductions of jagged arrays with regular outer
 dimensions after their counts have been used

---
 awkward0/array/jagged.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index e903a76..6979de5 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1520,8 +1520,8 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
             return self.copy(content=ufunc.reduce(content, axis=-1))
 
         if len(thyself._starts.shape) > 1:
-            thyself._starts = thyself._starts.reshape(-1)
-            thyself._stops = thyself._stops.reshape(-1)
+            thyself._starts, thyself._stops = thyself._starts.reshape(-1), thyself.stops.reshape(-1)
+            thyself._offsets, thyself._counts, thyself._parents = None, None, None     # had the former shape
 
         if not thyself._canuseoffset():
             offsets = self.counts2offsets(thyself.counts)
-- 
2.43.0


From 952f213a46361dcc40bf65c272b2521da1bc97ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 189/195] fix: argmin and argmax of jagged arrays with regular
 outer dimensions

---
 awkward0/array/jagged.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 6979de5..61125ce 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -1613,8 +1613,7 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
 
         # workaround for lack of general out[...,:1] support
         nonempty = out.counts > 0
-        if self.offsetsaliased(out._starts, out._stops):
-            out.stops = out.stops.copy()
+        out.stops = out.stops.copy()        # it might share memory with starts
         out.stops[nonempty] = out.starts[nonempty] + 1
         return out
 
-- 
2.43.0


From 14ee28b218e56e07c70ecb0b0c51c210fdc65b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 190/195] fix: slices and positions in lists that have regular
 outer dimensions

---
 awkward0/array/jagged.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/awkward0/array/jagged.py b/awkward0/array/jagged.py
index 61125ce..b123538 100644
--- a/awkward0/array/jagged.py
+++ b/awkward0/array/jagged.py
@@ -546,6 +546,11 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                     raise ValueError("doubly jagged array used as index has different counts from the jagged array it is selecting from")
                 return type(self).fromcounts(self.counts, self.flatten()[head.flatten()])
 
+            elif len(self._starts.shape) > 1 and head.shape == self.shape:
+                flat = [x.copy(starts=x._starts.reshape(-1), stops=x.stops.reshape(-1)) for x in (self, head)]
+                out = flat[0][flat[1]]
+                return out.copy(starts=out._starts.reshape(self.shape), stops=out.stops.reshape(self.shape))
+
             elif self._util_isintegertype(head._content.dtype.type):
                 if len(head.shape) == 1 and head._starts.shape != self._starts.shape:
                     raise ValueError("jagged array used as index has a different shape {0} from the jagged array it is selecting from {1}".format(head._starts.shape, self._starts.shape))
@@ -628,6 +633,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 if len(node) == 0:
                     return node
 
+                shape = node._starts.shape
+                if len(shape) > 1:
+                    node = node.copy(starts=node._starts.reshape(-1), stops=node.stops.reshape(-1))
+
                 counts = (node.stops - node._starts).astype(self.INDEXTYPE)
                 step = 1 if head.step is None else head.step
 
@@ -692,7 +701,10 @@ class JaggedArray(awkward0.array.base.AwkwardArrayWithContent):
                 newoffsets = self.counts2offsets(newcounts.reshape(-1))
                 newcontent = node._content[(indexes + node._starts.reshape((len(node), 1)))[mask]]
 
-                node = node.copy(starts=newoffsets[:-1], stops=newoffsets[1:], content=newcontent)
+                if len(shape) > 1:
+                    node = node.copy(starts=newoffsets[:-1].reshape(shape), stops=newoffsets[1:].reshape(shape), content=newcontent)
+                else:
+                    node = node.copy(starts=newoffsets[:-1], stops=newoffsets[1:], content=newcontent)
 
             else:
                 head = self.numpy.array(head, copy=False)
-- 
2.43.0


From e1d2fd575da053ec06f5e65562d76e592c527e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:31 +0000
Subject: [PATCH 191/195] fix: assigning a column through a SparseArray never
 ended, and put the values in other rows

---
 awkward0/array/indexed.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 941c23c..52f68c0 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -664,13 +664,16 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             raise ValueError("cannot assign array of length {0} to sparse table of length {1}".format(len(what), self._length))
 
         test = what[self.boolmask(maskedwhen=False)].any()
-        while not isinstance(test, bool):
+        while not isinstance(test, (bool, self.numpy.bool_)):
             test = test.any()
 
         if test:
             raise ValueError("cannot assign an array with non-zero elements in the undefined spots of a sparse table")
 
-        return IndexedArray(self._inverse, what)
+        stored = self._index[self._index < self._length]
+        index = self.numpy.zeros(len(self._content) if len(what) != 0 else 0, dtype=self.INDEXTYPE)
+        index[:len(stored)] = stored
+        return what[index]
 
     def __setitem__(self, where, what):
         if isinstance(where, awkward0.util.string):
-- 
2.43.0


From 8925c4ddeec14cdfba248258c6a7b887c3061a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:38 +0000
Subject: [PATCH 192/195] fix: the default of a SparseArray of lists is an
 empty list

---
 awkward0/array/indexed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 52f68c0..1eae292 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -433,7 +433,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
 
         if self._default is None:
             if isinstance(self._content, awkward0.array.jagged.JaggedArray):
-                return self.JaggedArray([0], [0], self._content.content)
+                return self._content.content[:0]
             elif self._content.shape[1:] == ():
                 return self._content.dtype.type(0)
             else:
-- 
2.43.0


From 039550d5857e3faaf4e18e6d927deb0276ac4f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:44 +0000
Subject: [PATCH 193/195] fix: regular() of tables

---
 awkward0/array/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index e84599c..feb5cbf 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -815,7 +815,7 @@ class Table(awkward0.array.base.AwkwardArray):
 
     def regular(self):
         self._valid()
-        pairs = [(n, self._util_regular(x)) for n, x in self.items()]
+        pairs = [(n, self._util_regular(self[n][:len(self)])) for n in self._contents]
         out = self.numpy.empty(len(self), [(n, x.dtype, x.shape[1:]) for n, x in pairs])
         for n, x in pairs:
             out[n] = x
-- 
2.43.0


From 814483aa7b7c43334cd43d4ebd7117111338757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:31 +0000
Subject: [PATCH 194/195] fix: comparisons of tables whose columns have lists
 or missing values

---
 awkward0/array/table.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/awkward0/array/table.py b/awkward0/array/table.py
index feb5cbf..5689187 100644
--- a/awkward0/array/table.py
+++ b/awkward0/array/table.py
@@ -748,12 +748,10 @@ class Table(awkward0.array.base.AwkwardArray):
         if self._util_iscomparison(ufunc):
             out = None
             for x in newcolumns.values():
-                assert isinstance(x, self.numpy.ndarray)
-                assert issubclass(x.dtype.type, (self.numpy.bool_, self.numpy.bool))
                 if out is None:
                     out = x
                 else:
-                    out = self.numpy.bitwise_and(out, x, out=out)
+                    out = self.numpy.bitwise_and(out, x)
             assert out is not None
             return out
 
-- 
2.43.0


From 785e76618d48b6e76cf98e39090075a0d0be347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:37 +0000
Subject: [PATCH 195/195] fix: counts of SparseArrays of fixed-size rows

---
 awkward0/array/indexed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/awkward0/array/indexed.py b/awkward0/array/indexed.py
index 1eae292..3d3b3a0 100644
--- a/awkward0/array/indexed.py
+++ b/awkward0/array/indexed.py
@@ -712,7 +712,7 @@ class SparseArray(awkward0.array.base.AwkwardArrayWithContent):
             defaultlen = len(self.default)
         except:
             defaultlen = -1
-        out = self.numpy.full(self.shape, defaultlen, dtype=content.dtype)
+        out = self.numpy.full(self._length, defaultlen, dtype=content.dtype)
         if len(self._index) != 0:
             mask = self.boolmask(maskedwhen=True)
             out[mask] = content[self._inverse[mask]]
-- 
2.43.0

