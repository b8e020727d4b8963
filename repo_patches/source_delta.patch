From 16c44bd5c98cced15744c750fca77e0a93671b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:21 +0000
Subject: [PATCH 01/12] fix: StoreBits22 stores exactly the 22
 least-significant bits

It passed the 4 bytes of the 32-bit value with a width of 22 to StoreBits,
which stored the wrong (most significant) bits and left 30 bits in the bucket.
---
 compressor/bohe/bit_bucket.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/bohe/bit_bucket.py b/compressor/bohe/bit_bucket.py
index 05cceb3..7947acb 100644
--- a/compressor/bohe/bit_bucket.py
+++ b/compressor/bohe/bit_bucket.py
@@ -63,8 +63,8 @@ class BitBucket:
     """
     Stores the 22 least-significant bits from val in network order (big endian)
     """
-    tmp_val = struct.pack(">I", val)
-    self.StoreBits ( (StrToList(tmp_val), 22))
+    tmp_val = struct.pack(">I", (val & 0x3fffff) << 10)
+    self.StoreBits ( (StrToList(tmp_val)[:3], 22))
 
   def StoreBits32(self, val):
     """
-- 
2.43.0


From 18ce49af54b81708e6af31680bafc572cf62ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:58 +0000
Subject: [PATCH 02/12] fix: print_summary uses locale.format_string
 (locale.format was removed in Python 3.12)

---
 lib/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/stream.py b/lib/stream.py
index f5a7681..5493838 100755
--- a/lib/stream.py
+++ b/lib/stream.py
@@ -41,7 +41,7 @@ class Stream(object):
     for proc in self.procs:
       ttl_size = sum(self.sizes[proc])
       ttl_time = sum(self.times[proc])
-      pretty_size = locale.format("%13d", ttl_size, grouping=True)
+      pretty_size = locale.format_string("%13d", ttl_size, grouping=True)
       ratio = 1.0 * ttl_size / baseline_size
       try:
         std = meanstdv(self.ratios[proc])[1]
-- 
2.43.0


From 1b89b9dff70238e6d1495040721cf3075fbb3372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:58 +0000
Subject: [PATCH 03/12] fix: adding two Streams does not extend the messages of
 the first

---
 lib/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/stream.py b/lib/stream.py
index 5493838..f2c0897 100755
--- a/lib/stream.py
+++ b/lib/stream.py
@@ -72,7 +72,7 @@ class Stream(object):
 
   def __add__(self, other):
     assert self.msg_type == other.msg_type
-    new = Stream('', self.messages, self.msg_type, self.procs)
+    new = Stream('', list(self.messages), self.msg_type, self.procs)
     new.messages.extend(other.messages) # NB: not great for memory
     new.sizes = merge_dols(self.sizes, other.sizes)
     new.ratios = merge_dols(self.ratios, other.ratios)
-- 
2.43.0


From 1bc85b196b00fdeae4ec5c684bce12e856fc5997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:19 +0000
Subject: [PATCH 04/12] fix: the TOTAL summary is a new Stream even when there
 is only one stream to add

---
 compare_compressors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compare_compressors.py b/compare_compressors.py
index db38e0b..0fee036 100755
--- a/compare_compressors.py
+++ b/compare_compressors.py
@@ -59,7 +59,7 @@ class CompressionTester(object):
         session.print_summary(self.output, self.options.baseline)
     self.processors.done()
     for msg_type in self.msg_types:
-      ttl_stream = reduce(operator.add, [s for s in sessions if s.msg_type == msg_type])
+      ttl_stream = reduce(operator.add, [s for s in sessions if s.msg_type == msg_type], 0)
       ttl_stream.name = "TOTAL"
       ttl_stream.print_header(self.output)
       ttl_stream.print_summary(self.output, self.options.baseline)
-- 
2.43.0


From fdb8661ca8f7a46a26cd921b82791a148281a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:19 +0000
Subject: [PATCH 05/12] fix: http1_gzip, http1_huffman and the SPDY dictionary
 work on bytes

---
 compressor/http1_gzip/__init__.py    | 4 ++--
 compressor/http1_huffman/__init__.py | 4 ++--
 compressor/spdy_dictionary.py        | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/compressor/http1_gzip/__init__.py b/compressor/http1_gzip/__init__.py
index 825eeed..de774fd 100644
--- a/compressor/http1_gzip/__init__.py
+++ b/compressor/http1_gzip/__init__.py
@@ -15,8 +15,8 @@ class Processor(BaseProcessor):
 
   def compress(self, in_headers, host):
     http1_msg = format_http1(in_headers)
-    return ''.join([
-                   self.compressor.compress(http1_msg),
+    return b''.join([
+                   self.compressor.compress(http1_msg.encode('utf-8')),
                    self.compressor.flush(zlib.Z_SYNC_FLUSH)
                   ])
   
\ No newline at end of file
diff --git a/compressor/http1_huffman/__init__.py b/compressor/http1_huffman/__init__.py
index 5f8b304..6236765 100644
--- a/compressor/http1_huffman/__init__.py
+++ b/compressor/http1_huffman/__init__.py
@@ -15,8 +15,8 @@ class Processor(BaseProcessor):
 
   def compress(self, in_headers, host):
     http1_msg = format_http1(in_headers)
-    return ''.join([
-                   self.compressor.compress(http1_msg),
+    return b''.join([
+                   self.compressor.compress(http1_msg.encode('utf-8')),
                    self.compressor.flush(zlib.Z_SYNC_FLUSH)
                   ])
   
\ No newline at end of file
diff --git a/compressor/spdy_dictionary.py b/compressor/spdy_dictionary.py
index 0b16514..93fadda 100644
--- a/compressor/spdy_dictionary.py
+++ b/compressor/spdy_dictionary.py
@@ -3,7 +3,7 @@
 # Use of this source code is governed by a BSD-style license that can be
 # found in the LICENSE file.
 
-spdy_dict = ''.join(chr(x) for x in [
+spdy_dict = bytes(bytearray([
         0x00, 0x00, 0x00, 0x07, 0x6f, 0x70, 0x74, 0x69,   # - - - - o p t i
         0x6f, 0x6e, 0x73, 0x00, 0x00, 0x00, 0x04, 0x68,   # o n s - - - - h
         0x65, 0x61, 0x64, 0x00, 0x00, 0x00, 0x04, 0x70,   # e a d - - - - p
@@ -182,4 +182,4 @@ spdy_dict = ''.join(chr(x) for x in [
         0x73, 0x6f, 0x2d, 0x38, 0x38, 0x35, 0x39, 0x2d,   # s o - 8 8 5 9 -
         0x31, 0x2c, 0x75, 0x74, 0x66, 0x2d, 0x2c, 0x2a,   # 1 - u t f - - -
         0x2c, 0x65, 0x6e, 0x71, 0x3d, 0x30, 0x2e          # - e n q - 0 -
-    ])
+    ]))
-- 
2.43.0


From e72d7ca6bba25ebeecf311e780e84df865b11ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:19 +0000
Subject: [PATCH 06/12] fix: har2hdrs keeps the Host header of a request and
 takes the host of any URL

---
 lib/harfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 3bac9b7..900b84b 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -50,8 +50,8 @@ def har2hdrs(har):
       headers[":path"] += "?%s" % url.query
     headers[":scheme"] = url.scheme.lower()
     headers[":version"] = request["httpVersion"]
-    if not ":host" in request_headers:
-      headers[":host"] = re.sub("^[^:]*://([^/]*)/.*$", "\\1", request["url"])
+    if not ":host" in headers:
+      headers[":host"] = url.netloc
     request_headers.append(headers)
 
     response = entry["response"]
-- 
2.43.0


From 9feddd213a1c9d59ef3e3bb1820a953d225957c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:51 +0000
Subject: [PATCH 07/12] fix: http2 encoder carries the remaining headers to the
 next round of re-encoding

referenced_headers was never replaced by the headers still to be written: a header
was encoded again in every round, without end when two headers keep evicting each other.
---
 compressor/http2/http2Codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/http2/http2Codec.py b/compressor/http2/http2Codec.py
index 736200d..7845550 100644
--- a/compressor/http2/http2Codec.py
+++ b/compressor/http2/http2Codec.py
@@ -430,7 +430,7 @@ class HTTP2Codec(object):
           encoded_headers = True
         else:
           remaining_headers.append(header)
-      
+      referenced_headers = remaining_headers
     
     # Return frame
     frame = pack("!HBBL", len(self.encoded_stream), 0, 0, 0)
-- 
2.43.0


From c97ca757c31088866f3acc851266edf3e88b2259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:51 +0000
Subject: [PATCH 08/12] fix: headerdiff writes a two-byte prefix that is full

A value of 16383 or more with the 14-bit prefix was packed into one byte (struct.error).
---
 compressor/headerdiff/headerDiffCodec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index 565633d..fce46f6 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -580,7 +580,10 @@ class HeaderDiffCodec(object):
     else:
       # If prefix size is greater than 0,
       # write MAX_VALUE as the prefix
-      if prefixBits > 0:
+      if prefixBits > 8:
+        currentByte = (currentByte << 8) | MAX_VALUES[prefixBits]
+        self.encodedStream+= pack("!H", currentByte)
+      elif prefixBits > 0:
         currentByte = currentByte | MAX_VALUES[prefixBits]
         self.encodedStream+= pack("!B", currentByte)
       # Write value on next byte or bytes
-- 
2.43.0


From da37cf80f24b41779bc19c479b3268bc0427f292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:51 +0000
Subject: [PATCH 09/12] fix: headerdiff tells apart headers whose name and
 value concatenate to the same string

("a", "bc") and ("ab", "c") shared one entry of the indexing table.
---
 compressor/headerdiff/headerDiffCodec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index fce46f6..409a7c2 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -67,7 +67,7 @@ class IndexedHeader(object):
     self.value = value
     self.index = index
     # Full is used by encoder as a key to find an indexed header
-    self.full = name + value
+    self.full = (name, value)
     # Age is used by encoder when determining header representation
     self.age = 0
     # Number of usage as a reference for a delta-encoding
@@ -363,7 +363,7 @@ class HeaderDiffCodec(object):
     for he in headerTuples:
       headerName = he.name
       headerValue = he.value
-      headerFull = headerName + headerValue
+      headerFull = (headerName, headerValue)
       # Determine representation
       hr = self.determineRepresentation(
         headerName,
@@ -472,7 +472,7 @@ class HeaderDiffCodec(object):
     # Default encoding: literal without indexing
     hr = HeaderRepresentation()
     # Check possibility of indexed representation
-    headerFull = headerName + headerValue
+    headerFull = (headerName, headerValue)
     if headerFull in self.headersTableEncoder:
       hr.representation = INDEXED_REPRESENTATION
       hr.referenceHeader = self.headersTableEncoder[headerFull]
-- 
2.43.0


From bfa629f5c3330ffd9efd8588c720822faf6a3f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:51 +0000
Subject: [PATCH 10/12] fix: headerdiff inflates the payload of the frame, not
 its header

With deflate enabled no frame could be decoded.
---
 compressor/headerdiff/headerDiffCodec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index 409a7c2..1763b2b 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -176,7 +176,7 @@ class HeaderDiffCodec(object):
     self.decodedStreamIndex = 0
     # If Deflate was used, apply Inflate
     if self.windowSize != None:
-      self.decodedStream = self.decomp.decompress(stream)
+      self.decodedStream = self.decomp.decompress(self.decodedStream)
     # Initialize variables
     headers = [] # List of decoded headers
     # Decode number of headers
-- 
2.43.0


From c19c15c51889870ea02549e0d2d361497dcedb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:51 +0000
Subject: [PATCH 11/12] fix: delta2 Huffman codes longer than 32 bits are
 shortened

Every weight was divided by the same number, so the tree kept its depth and the
divisor grew until OverflowError.
---
 compressor/delta2/huffman.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/delta2/huffman.py b/compressor/delta2/huffman.py
index efcdc2c..b6a11c7 100644
--- a/compressor/delta2/huffman.py
+++ b/compressor/delta2/huffman.py
@@ -50,9 +50,9 @@ class Huffman(object):
     internals = deque()
     for elem in freq_table:
       (sym, freq) = elem
-      if freq == 0:
-        freq = 1.0/512
-      weight = freq * 1.0 / divisor
+      # the floor applies to the divided weight: dividing every weight by the
+      # same number would leave the shape of the tree as it is
+      weight = max(freq * 1.0 / divisor, 1.0/512)
       leaves.append( (weight, MN(sym), 0, []) )
 
     # freq_table is (symbol, count)
-- 
2.43.0


From 2b1fab3c8ddd00f222ebfc0cf316276453223d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:51 +0000
Subject: [PATCH 12/12] fix: delta2 canonical Huffman codes are assigned in
 order of length

The order of a dictionary was used; when it is not ascending the codes are not prefix-free.
---
 compressor/delta2/huffman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/delta2/huffman.py b/compressor/delta2/huffman.py
index b6a11c7..d5c39c3 100644
--- a/compressor/delta2/huffman.py
+++ b/compressor/delta2/huffman.py
@@ -118,7 +118,7 @@ class Huffman(object):
     code = -1
     prev_code_length = 0
     canonical_code_table = {}
-    for k,v in depth_to_sym.iteritems():
+    for k,v in sorted(depth_to_sym.iteritems()):
       current_code_length = k
       #print k
       for sym in sorted(map(lambda x: x[1], v)):
-- 
2.43.0

