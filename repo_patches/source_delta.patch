From 6a323122c5506de1b1ddef5eb822baaa39f864bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 01/50] fix: raise SteimException for a difference too large
 for Steim2

Building the message added a str and an int, so TypeError was raised.
---
 src/simplemseed/steim2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index edfc702..b608584 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -426,7 +426,7 @@ def encodeSteim2FrameBlock(
             nibble = 2
         else:
             raise SteimException(
-                "Unable to encode " + nbits + " bit difference in Steim2 format"
+                f"Unable to encode {nbits} bit difference in Steim2 format"
             )
 
         word = steimPackWord(diff, nbits, ndiff, bitmask, submask)
-- 
2.43.0


From b6c718c4861765d1eb006515d7429bdd77711eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 02/50] fix: raise SteimException for a bad Steim1 offset

Building the message added a str and an int, so TypeError was raised.
---
 src/simplemseed/steim1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index cf44750..6342364 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -211,11 +211,11 @@ def encodeSteim1FrameBlock(
         raise SteimException("number of frames is a negative value")
 
     if offset < 0:
-        raise SteimException("Offset cannot be negatuve: " + offset)
+        raise SteimException(f"Offset cannot be negatuve: {offset}")
 
     if offset >= len(samples):
         raise SteimException(
-            "Offset bigger than samples array: " + offset + " >= " + len(samples)
+            f"Offset bigger than samples array: {offset} >= {len(samples)}"
         )
 
     # check if numpy array
-- 
2.43.0


From 3b7bb44930227c7eb5356d97151287b8cc382319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 03/50] fix: raise UnsupportedCompressionType when the encoding
 cannot be guessed

Building the message added a str and an int, so TypeError was raised.
---
 src/simplemseed/seedcodec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/seedcodec.py b/src/simplemseed/seedcodec.py
index 5eecf7c..ecf82c0 100644
--- a/src/simplemseed/seedcodec.py
+++ b/src/simplemseed/seedcodec.py
@@ -244,7 +244,7 @@ def encode(data, encoding=None, littleEndian=True):
             encoding = mseed3EncodingFromArrayTypecode(data.typecode, data.itemsize)
         else:
             raise UnsupportedCompressionType(
-                "Unable to guess encoding for data, encoding is " + encoding
+                f"Unable to guess encoding for data, encoding is {encoding}"
             )
     try:
         compCode = arrayTypecodeFromMSeed(encoding)
-- 
2.43.0


From ad31f5cf38b71b1251ca34271ebf9920a09da22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 04/50] fix: check both ends of the range before casting
 samples to 32 bits

Only abs(max) was compared, so an array whose minimum is below -2^31 but whose
maximum is small was silently wrapped into 32 bits, while one whose largest
value is -2^31 was refused although it fits.
---
 src/simplemseed/steim1.py | 5 +++--
 src/simplemseed/steim2.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index 6342364..404f542 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -226,8 +226,9 @@ def encodeSteim1FrameBlock(
             raise SteimException(f"Cannot steim1 compress floating point numpy array: {samples.dtype}")
         if np.issubdtype(samples.dtype, np.integer) and \
                 not np.can_cast(samples.dtype, np.int32, casting="safe"):
-            if abs(np.max(samples)) > np.iinfo(np.int32).max:
-                raise SteimException(f"max value of numpy array, {np.max(samples)} cannot fit into 32 bit integer")
+            if np.max(samples) > np.iinfo(np.int32).max \
+                    or np.min(samples) < np.iinfo(np.int32).min:
+                raise SteimException(f"values of numpy array, {np.min(samples)} to {np.max(samples)}, cannot fit into 32 bit integer")
             samples = samples.astype(np.int32)
     elif isinstance(samples[0], float):
         raise SteimException(f"Cannot steim1 compress floating point list, first sample is float: {samples[0]}")
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index b608584..09ce0ef 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -328,8 +328,9 @@ def encodeSteim2FrameBlock(
             raise SteimException(f"Cannot steim2 compress floating point numpy array: {samples.dtype}")
         if np.issubdtype(samples.dtype, np.integer) and \
                 not np.can_cast(samples.dtype, np.int32, casting="safe"):
-            if abs(np.max(samples)) > np.iinfo(np.int32).max:
-                raise SteimException(f"max value of numpy array, {np.max(samples)} cannot fit into 32 bit integer")
+            if np.max(samples) > np.iinfo(np.int32).max \
+                    or np.min(samples) < np.iinfo(np.int32).min:
+                raise SteimException(f"values of numpy array, {np.min(samples)} to {np.max(samples)}, cannot fit into 32 bit integer")
             samples = samples.astype(np.int32)
     if isinstance(samples[0], float):
         raise SteimException(f"Cannot steim2 compress floating point list, first sample is float: {samples[0]}")
-- 
2.43.0


From 79a2cb9e4ee681f3a92d9855834db04fea0e0a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 05/50] fix: check both ends of the range before storing 64 bit
 data in a miniseed3 record

Same as for Steim encoding: values below -2^31 were silently wrapped.
---
 src/simplemseed/mseed3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index f160ab2..cea3693 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -362,8 +362,9 @@ class MSeed3Record:
             # special case for int64
             if np.issubdtype(data.dtype, np.integer) and \
                     not np.can_cast(data.dtype, np.int32, casting="safe"):
-                if abs(np.max(data)) > np.iinfo(np.int32).max:
-                    raise Miniseed3Exception(f"max value of numpy array, {np.max(data)} cannot fit into 32 bit integer")
+                if len(data) > 0 and (np.max(data) > np.iinfo(np.int32).max
+                        or np.min(data) < np.iinfo(np.int32).min):
+                    raise Miniseed3Exception(f"values of numpy array, {np.min(data)} to {np.max(data)}, cannot fit into 32 bit integer")
                 data = data.astype(np.int32)
 
             encoding = mseed3EncodingFromNumpyDT(data.dtype)
-- 
2.43.0


From 6d8a764234b24071c7d10395d10ab4116f50d6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:13 +0000
Subject: [PATCH 06/50] fix: compute Steim differences of narrow integer arrays
 in 32 bits

Differences between neighbours of an int16, int8 or uint8 array were computed
in that type, so they wrapped and the samples could not be recovered.
---
 src/simplemseed/steim1.py | 3 ++-
 src/simplemseed/steim2.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index 404f542..82a1f3b 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -229,7 +229,8 @@ def encodeSteim1FrameBlock(
             if np.max(samples) > np.iinfo(np.int32).max \
                     or np.min(samples) < np.iinfo(np.int32).min:
                 raise SteimException(f"values of numpy array, {np.min(samples)} to {np.max(samples)}, cannot fit into 32 bit integer")
-            samples = samples.astype(np.int32)
+        # differences of narrower types would wrap, so always work in 32 bits
+        samples = samples.astype(np.int32)
     elif isinstance(samples[0], float):
         raise SteimException(f"Cannot steim1 compress floating point list, first sample is float: {samples[0]}")
 
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index 09ce0ef..b88492f 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -331,7 +331,8 @@ def encodeSteim2FrameBlock(
             if np.max(samples) > np.iinfo(np.int32).max \
                     or np.min(samples) < np.iinfo(np.int32).min:
                 raise SteimException(f"values of numpy array, {np.min(samples)} to {np.max(samples)}, cannot fit into 32 bit integer")
-            samples = samples.astype(np.int32)
+        # differences of narrower types would wrap, so always work in 32 bits
+        samples = samples.astype(np.int32)
     if isinstance(samples[0], float):
         raise SteimException(f"Cannot steim2 compress floating point list, first sample is float: {samples[0]}")
 
-- 
2.43.0


From 10479950f95ba49ccfebe0271da1a51c5ab8e7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:19 +0000
Subject: [PATCH 07/50] fix: handle lists like arrays in Steim encoding

Differences of a list of int were computed without wrapping to 32 bits, so a
large one raised OverflowError, while values outside 32 bits in the middle of
the list, or floats after the first sample, were encoded as something else.
---
 src/simplemseed/steim1.py | 8 ++++++--
 src/simplemseed/steim2.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index 82a1f3b..f14557a 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -218,6 +218,12 @@ def encodeSteim1FrameBlock(
             f"Offset bigger than samples array: {offset} >= {len(samples)}"
         )
 
+    if not isinstance(samples, np.ndarray):
+        # list of numbers, same checks as for a numpy array
+        samples = np.asarray(samples)
+        if samples.dtype.kind not in "iuf":
+            raise SteimException(f"Cannot steim1 compress list, not all 32 bit integers: {samples.dtype}")
+
     # check if numpy array
     if isinstance(samples, np.ndarray):
         if len(np.shape(samples)) != 1:
@@ -231,8 +237,6 @@ def encodeSteim1FrameBlock(
                 raise SteimException(f"values of numpy array, {np.min(samples)} to {np.max(samples)}, cannot fit into 32 bit integer")
         # differences of narrower types would wrap, so always work in 32 bits
         samples = samples.astype(np.int32)
-    elif isinstance(samples[0], float):
-        raise SteimException(f"Cannot steim1 compress floating point list, first sample is float: {samples[0]}")
 
     # all encoding will be contained within a frame block
     # Steim encoding 1
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index b88492f..bdda28a 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -320,6 +320,12 @@ def encodeSteim2FrameBlock(
         raise SteimException("number of frames is  a negative value")
 
     # check if numpy array
+    if not isinstance(samples, np.ndarray):
+        # list of numbers, same checks as for a numpy array
+        samples = np.asarray(samples)
+        if samples.dtype.kind not in "iuf":
+            raise SteimException(f"Cannot steim2 compress list, not all 32 bit integers: {samples.dtype}")
+
     # check if numpy array
     if isinstance(samples, np.ndarray):
         if len(np.shape(samples)) != 1:
@@ -333,8 +339,6 @@ def encodeSteim2FrameBlock(
                 raise SteimException(f"values of numpy array, {np.min(samples)} to {np.max(samples)}, cannot fit into 32 bit integer")
         # differences of narrower types would wrap, so always work in 32 bits
         samples = samples.astype(np.int32)
-    if isinstance(samples[0], float):
-        raise SteimException(f"Cannot steim2 compress floating point list, first sample is float: {samples[0]}")
 
     # all encoding will be contained within a frame block
     # Steim encoding 2
-- 
2.43.0


From 5151cf033a62680c7af11db7a1de635c5e9e48e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 08/50] fix: do not decode unused words of the first Steim
 frame as samples

A word whose control nibble is 00 holds no differences. In the first frame such
words were returned as differences, so asking for more samples than a short
block holds gave invented samples instead of an error, and a frame without any
difference could fail with IndexError. X(0) and X(N) are now taken by position.
---
 src/simplemseed/steim1.py | 14 ++++++++------
 src/simplemseed/steim2.py | 15 +++++++++------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index f14557a..945d73f 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -75,13 +75,12 @@ def decodeSteim1(
             #  end = tempSamples[2]    # X(n) is byte 2 for frame 0
             firstData = 3  # d(0) is byte 3 for frame 0
 
-            # if bias was zero, then we want the first sample to be X(0) constant
-            if bias == 0:
-                lastValue = start - tempSamples[3]  # X(-1) = X(0) - d(0)
-
         for j in range(firstData, len(tempSamples)):
             if current >= numSamples:
                 break
+            if current == 0 and bias == 0:
+                # if bias was zero, then we want the first sample to be X(0) constant
+                lastValue = start - tempSamples[j]  # X(-1) = X(0) - d(0)
             samples[current] = lastValue + tempSamples[j]  # X(n) = X(n-1) + d(n)
 
             lastValue = samples[current]
@@ -139,12 +138,15 @@ def extractSteim1Samples(
         # It would seem that the W(0) word is swap-checked, though, which is confusing...
         # maybe it has to do with the reference to high-order bits for c(0)
         # switch (currNibble):
-        if currNibble == 0:
-            #  ("0 means header info")
+        if i == 0 or (offset == 0 and i < 3):
+            #  header info: W(0), and X(0) and X(N) in the first frame
             # only include header info if offset is 0
             if offset == 0:
                 temp.append(getInt32(dataBytes, offset + i * 4, False))
                 currNum += 1
+        elif currNibble == 0:
+            #  ("0 means no data in this word")
+            continue
         elif currNibble == 1:
             #  ("1 means 4 one byte differences")
 
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index bdda28a..4bc3339 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -103,13 +103,12 @@ def decodeSteim2(
             # end = tempSamples[2]    # X(n) is byte 2 for frame 0
             firstData = 3  # d(0) is byte 3 for frame 0
 
-            # if bias was zero, then we want the first sample to be X(0) constant
-            if bias == 0:
-                lastValue = start - tempSamples[3]  # X(-1) = X(0) - d(0)
-
         for j in range(firstData, len(tempSamples)):
             if current >= numSamples:
                 break
+            if current == 0 and bias == 0:
+                # if bias was zero, then we want the first sample to be X(0) constant
+                lastValue = start - tempSamples[j]  # X(-1) = X(0) - d(0)
             samples[current] = lastValue + tempSamples[j]  # X(n) = X(n-1) + d(n)
 
             lastValue = samples[current]
@@ -169,13 +168,17 @@ def extractSteim2Samples(
         currNibble = (nibbles >> (30 - i * 2)) & 0x03
 
         # switch (currNibble):
-        if currNibble == 0:
-            # "0 means header info"
+        if i == 0 or (offset == 0 and i < 3):
+            # header info: W(0), and X(0) and X(N) in the first frame
             # only include header info if offset is 0
             if offset == 0:
                 temp[currNum] = getInt32(dataBytes, offset + i * 4, False)
                 currNum += 1
 
+        elif currNibble == 0:
+            # "0 means no data in this word"
+            continue
+
         elif currNibble == 1:
 
             endianChar = "<" if littleEndian else ">"
-- 
2.43.0


From b95ca6ee40bd7a15bc47b8d7ed26b5e380191e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 09/50] fix: raise CodecException for a Steim1 control word
 that does not start with 00

If the first bit was set converting it to int32 raised OverflowError. Steim2
already refuses such a frame.
---
 src/simplemseed/steim1.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index 945d73f..de992fd 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -118,7 +118,10 @@ def extractSteim1Samples(
     offset: int,
 ) -> list:
     # get nibbles
-    nibbles = np.int32(getUint32(dataBytes, offset, False))
+    nibbles = getInt32(dataBytes, offset, False)
+    if (nibbles >> 30) & 0x03 != 0:
+        raise CodecException(f"nibble bytes must start with 00, but was {(nibbles >> 30) & 0x03:02b}")
+    nibbles = np.int32(nibbles)
     currNibble = np.int32(0)
     temp = []  # 4 samples * 16 longwords, can't be more than 64
 
-- 
2.43.0


From 2d512459fe497aa8d9b4706cfeb46d14fe979955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:10 +0000
Subject: [PATCH 10/50] fix: compare the sample rates of both records before
 merging

---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index cea3693..cfaefa2 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -818,7 +818,7 @@ def areCompatible(ms3a: MSeed3Record, ms3b: MSeed3Record, timeTolFactor=0.5) ->
     """
     out = True
     out = out and ms3a.identifier == ms3b.identifier
-    out = out and ms3b.header.sampleRatePeriod == ms3b.header.sampleRatePeriod
+    out = out and ms3a.header.sampleRatePeriod == ms3b.header.sampleRatePeriod
     out = out and ms3a.header.encoding == ms3b.header.encoding
     out = out and ms3a.header.publicationVersion == ms3b.header.publicationVersion
     out = out and ms3a.endtime < ms3b.starttime
-- 
2.43.0


From b4ea2ebdcc31f71c19a64e55de93c77f384d18fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:10 +0000
Subject: [PATCH 11/50] fix: allow leap seconds in the start time of a
 miniseed3 header

---
 src/simplemseed/mseed3.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index cfaefa2..35f1c21 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -237,13 +237,12 @@ class MSeed3Header:
             1,
             hour=self.hour,
             minute=self.minute,
-            second=self.second,
             microsecond=int(self.nanosecond / 1000),
             tzinfo=timezone.utc,
         )
         # start Jan 1, so shift by dayOfYear minus 1
-        doyMinusOne = timedelta(days=self.dayOfYear - 1)
-        return st + doyMinusOne
+        # seconds added separately as may be 60 for a leap second
+        return st + timedelta(days=self.dayOfYear - 1, seconds=self.second)
 
     @starttime.setter
     def starttime(self, stime):
-- 
2.43.0


From 51334c05cbea7034780f3bfa25b162433cb04441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:10 +0000
Subject: [PATCH 12/50] fix: raise Miniseed3Exception for truncated miniseed3
 records

---
 src/simplemseed/mseed3.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 35f1c21..ed842d2 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -710,6 +710,10 @@ def unpackMSeed3Record(recordBytes, check_crc=True):
         tempBytes = bytearray(recordBytes[:FIXED_HEADER_SIZE])
         struct.pack_into("<I", tempBytes, CRC_OFFSET, 0)
         crc = crc32c.crc32c(tempBytes)
+    if len(recordBytes) < ms3header.recordSize():
+        raise Miniseed3Exception(
+            f"Not enough bytes for record: {len(recordBytes)} < {ms3header.recordSize()}"
+        )
     offset = FIXED_HEADER_SIZE
     idBytes = recordBytes[offset : offset + ms3header.identifierLength]
     if check_crc:
@@ -766,16 +770,22 @@ def readMSeed3Records(
             struct.pack_into("<I", crcHeadBytes, CRC_OFFSET, 0)
             crc = crc32c.crc32c(crcHeadBytes)
         identifierBytes = fileptr.read(ms3header.identifierLength)
+        if len(identifierBytes) < ms3header.identifierLength:
+            raise Miniseed3Exception("Not enough bytes for identifier, record is truncated")
         if check_crc:
             crc = crc32c.crc32c(identifierBytes, crc)
         identifier = identifierBytes.decode("utf-8")
         if matchPat is None or matchPat.search(identifier) is not None:
             # match pass
             ehBytes = fileptr.read(ms3header.extraHeadersLength)
+            if len(ehBytes) < ms3header.extraHeadersLength:
+                raise Miniseed3Exception("Not enough bytes for extra headers, record is truncated")
             if check_crc:
                 crc = crc32c.crc32c(ehBytes, crc)
             extraHeadersStr = ehBytes.decode("utf-8")
             encodedDataBytes = fileptr.read(ms3header.dataLength)
+            if len(encodedDataBytes) < ms3header.dataLength:
+                raise Miniseed3Exception("Not enough bytes for data, record is truncated")
             if check_crc:
                 crc = crc32c.crc32c(encodedDataBytes, crc)
                 if ms3header.crc != crc:
-- 
2.43.0


From bc86d19978f26496c184d03a682dd5c4a73c5b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:10 +0000
Subject: [PATCH 13/50] fix: miniseed3 record without data does have a size

---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index ed842d2..683155c 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -506,7 +506,7 @@ class MSeed3Record:
         if (
             self.header.identifierLength is not None
             and self.header.extraHeadersLength is not None
-            and self.header.dataLength
+            and (self.header.dataLength or self._data is None or len(self._data) == 0)
         ):
             return (
                 FIXED_HEADER_SIZE
-- 
2.43.0


From d0579e0a7ca0dc772948cdb4d5a7f545c2ff10aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:10 +0000
Subject: [PATCH 14/50] fix: data length of decompressed and merged miniseed3
 records

---
 src/simplemseed/mseed3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 683155c..d3e5583 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -471,6 +471,7 @@ class MSeed3Record:
         data = self.decompress()
         header = self.header.clone()
         header.encoding = mseed3EncodingFromNumpyDT(data.dtype)
+        header.dataLength = data.nbytes
         return MSeed3Record(header, self.identifier, data, self._eh)
 
     @property
@@ -871,6 +872,7 @@ def mseed3merge(ms3a: MSeed3Record, ms3b: MSeed3Record) -> list[MSeed3Record]:
         encodedDataBytes = bytearray()
         encodedDataBytes.extend(ms3a.encodedDataBytes())
         encodedDataBytes.extend(ms3b.encodedDataBytes())
+        header.dataLength = len(encodedDataBytes)
         if ms3a.hasExtraHeaders():
             eh = json.loads(json.dumps(ms3a.eh))
         else:
-- 
2.43.0


From 6cf9ea65ecaa2791620a59a6e29abded5df73622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:10 +0000
Subject: [PATCH 15/50] fix: sample period and end time of a miniseed3 record
 with sample rate zero

---
 src/simplemseed/mseed3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index d3e5583..325d32c 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -181,9 +181,9 @@ class MSeed3Header:
     def samplePeriod(self):
         """ Sampling as a period, number of seconds between samples."""
         return (
-            -1 * self.sampleRatePeriod
-            if self.sampleRatePeriod < 0
-            else 1.0 / self.sampleRatePeriod
+            1.0 / self.sampleRatePeriod
+            if self.sampleRatePeriod > 0
+            else -1 * self.sampleRatePeriod
         )
 
     @samplePeriod.setter
-- 
2.43.0


From 5c18f023a60100e039fbffbb2d294ccd5e5c1d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:10 +0000
Subject: [PATCH 16/50] fix: record stays usable after its extra headers are
 deleted

---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 325d32c..6217412 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -416,7 +416,7 @@ class MSeed3Record:
 
     @eh.deleter
     def eh(self):
-        del self._eh
+        self._eh = None
         self.header.extraHeadersLength = 0
 
     def parseIdentifier(self) -> FDSNSourceId:
-- 
2.43.0


From d35678a940b4b1e4da9f80cf75b887f5dee150ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 17/50] fix: merged reading keeps the order of records that
 cannot be merged

---
 src/simplemseed/mseed3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 6217412..03c18f0 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -808,6 +808,10 @@ def readMSeed3Records(
                 else:
                     prev = mlist[0]
             else:
+                if prev is not None:
+                    # keep records in order
+                    yield prev
+                    prev = None
                 yield ms3
         else:
             # failed match, can skip ahead to next record
-- 
2.43.0


From 3679a0079361f20a84195f56a288708a5df726f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 18/50] fix: set all extra headers of miniseed3 records in
 files

With an empty or / pointer the extra headers were left as they were.
---
 src/simplemseed/mseed3details.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 27616a5..3ed44b3 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -124,6 +124,7 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
                         else:
                             # replace all
                             ehptr = setjson
+                            ms3.eh = setjson
                         if verbose:
                             print(ms3.summary())
                             print(f"  {json.dumps(ehptr)}")
-- 
2.43.0


From d4861ba5b4e392d9ed51a4bcd917eff754ca2eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 19/50] fix: keep records that do not match when extra headers
 are set in a file

---
 src/simplemseed/mseed3details.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 3ed44b3..bceb343 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -4,6 +4,7 @@ import argparse
 from datetime import datetime
 import json
 import os
+import re
 import sys
 from jsonpointer import set_pointer, JsonPointer, JsonPointerException
 from .mseed3 import readMSeed3Records
@@ -111,12 +112,17 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
     now = datetime.utcnow().strftime("%Y%m%dT%H%M%S.%f")
     # empty or "/" mean replace all extra headers
     usePointer = len(setptr) > 1
+    matchPat = re.compile(matchsid) if matchsid is not None else None
     for ms3file in ms3files:
         tmpfile = f"{ms3file}_tmp{now}"
         with open(tmpfile, "wb") as fp:
             with open(ms3file, "rb") as inms3file:
-                for ms3 in readMSeed3Records(inms3file, matchsid=matchsid):
-                    if looking or setall:
+                # all records are written back, only matching ones are changed
+                for ms3 in readMSeed3Records(inms3file):
+                    matched = (
+                        matchPat is None or matchPat.search(ms3.identifier) is not None
+                    )
+                    if matched and (looking or setall):
                         looking = False
                         # only set in first record
                         if usePointer:
-- 
2.43.0


From 009f54095e44b8a1806f74f120844e17849a1d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 20/50] fix: sample rate factor and multiplier of miniseed2 are
 signed

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 639fb8b..c702bf5 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -573,7 +573,7 @@ def unpackMiniseedHeader(recordBytes, endianChar=">"):
         timeCorr,
         dataOffset,
         blocketteOffset,
-    ) = struct.unpack(endianChar + "6scc5s2s3s2sHHBBBxHHHHBBBBiHH", recordBytes[0:48])
+    ) = struct.unpack(endianChar + "6scc5s2s3s2sHHBBBxHHhhBBBBiHH", recordBytes[0:48])
     if endianChar == ">":
         byteorder = BIG_ENDIAN
     else:
-- 
2.43.0


From b5a06a7e42ce8d4e0753b5dacfa1eb6958aaefe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 21/50] fix: miniseed2 header with zero sample rate factor or
 multiplier has no rate

---
 src/simplemseed/miniseed.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index c702bf5..0dc70fd 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -100,7 +100,7 @@ class MiniseedHeader:
 
         self.sampRateFactor = sampRateFactor
         self.sampRateMult = sampRateMult
-        if sampleRate == 0 and not (sampRateFactor == 0 and sampRateMult == 0):
+        if sampleRate == 0 and sampRateFactor != 0 and sampRateMult != 0:
             # calc sampleRate from sampRateFactor and sampRateMult
             if sampRateFactor > 0:
                 if sampRateMult > 0:
@@ -225,9 +225,14 @@ class MiniseedHeader:
 
     def setSampleRate(self, sampleRate):
         self.sampleRate = sampleRate
-        self.sampPeriod = timedelta(
-            microseconds=MICRO / self.sampleRate
-        )  # Nominal sample period (Sec) */
+        if self.sampleRate == 0:
+            self.sampPeriod = timedelta(
+                microseconds=0
+            )
+        else:
+            self.sampPeriod = timedelta(
+                microseconds=MICRO / self.sampleRate
+            )  # Nominal sample period (Sec) */
 
     def setStartTime(self, starttime):
         if type(starttime).__name__ == "str":
-- 
2.43.0


From 13f0000a1ae5361580a58eed435eaecc85b5bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 22/50] fix: keep quality, flags and time correction when
 packing a miniseed2 header

---
 src/simplemseed/miniseed.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 0dc70fd..7e610b2 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -162,7 +162,7 @@ class MiniseedHeader:
             header,
             0,
             seq,
-            b"D",
+            self.dataquality.ljust(1).encode("UTF-8"),
             b" ",
             sta,
             loc,
@@ -182,6 +182,18 @@ class MiniseedHeader:
             tempsampRateFactor,
             tempsampRateMult,
         )
+        struct.pack_into(
+            self.endianChar + "BBBBiHH",
+            header,
+            36,
+            self.actFlag,
+            self.ioFlag,
+            self.qualFlag,
+            self.numBlockettes,
+            self.timeCorr,
+            self.dataOffset,
+            self.blocketteOffset,
+        )
         return header
 
     def calcSeedMultipilerFactor(self):
-- 
2.43.0


From f557b478076bb5892dd2664a4cd58d5603666276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 23/50] fix: factor and multiplier for very high and very low
 sample rates

Both were zero, so the sample rate was lost.
---
 src/simplemseed/miniseed.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 7e610b2..4936fd0 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -204,6 +204,15 @@ class MiniseedHeader:
         if self.sampleRate == 0:
             factor = 0
             divisor = 0
+        elif self.sampleRate > SHORT_MAX_VALUE - 2:
+            # too big for factor alone, use product of both
+            divisor = math.ceil(self.sampleRate / (SHORT_MAX_VALUE - 2))
+            factor = round(self.sampleRate / divisor)
+        elif self.sampleRate < 1 / (SHORT_MAX_VALUE - 2):
+            # period too big for factor alone, use product of both, as neg
+            period = 1 / self.sampleRate
+            divisor = -1 * math.ceil(period / (SHORT_MAX_VALUE - 2))
+            factor = round(period / divisor)
         elif self.sampleRate >= 1:
             # don't get too close to the max for a short, use ceil as neg
             divisor = math.ceil((SHORT_MIN_VALUE + 2) / self.sampleRate)
-- 
2.43.0


From 636e03ac6329c87f744d42864b1f9cf960fcb707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 24/50] fix: sample rate in blockette 100 is a float and the
 blockette has 12 bytes

---
 src/simplemseed/miniseed.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 4936fd0..8366eb3 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -461,18 +461,18 @@ class MiniseedRecord:
 
     def packB100(self, recordBytes, offset, b):
         struct.pack_into(
-            self.header.endianChar + "HHixxxx",
+            self.header.endianChar + "HHfxxxx",
             recordBytes,
             offset,
             b.blocketteNum,
             b.nextOffset,
             b.sampleRate,
         )
-        return offset + 8
+        return offset + 12
 
     def createB100(self):
         return Blockette100(
-            1000,
+            100,
             0,
             self.header.sampleRate,
         )
@@ -659,7 +659,7 @@ def unpackBlockette(recordBytes, offset, endianChar, dataOffset):
 def unpackBlockette100(recordBytes, offset, endianChar):
     """named Tuple of blocketteNum, nextOffset, sample rate"""
     blocketteNum, nextOffset, sampRate = struct.unpack(
-        endianChar + "HHixxxx", recordBytes[offset : offset + 12]
+        endianChar + "HHfxxxx", recordBytes[offset : offset + 12]
     )
     return Blockette100(blocketteNum, nextOffset, sampRate)
 
-- 
2.43.0


From cb0e5498e6db8c3fd76b5e69f6962730208529b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 25/50] fix: keep start time when packing a miniseed2 record
 with blockette 1001

Microseconds of 100 or more were added to the start time once more.
---
 src/simplemseed/miniseed.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 8366eb3..a1131c0 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -427,6 +427,12 @@ class MiniseedRecord:
         recordBytes[39] = len(self.blockettes)
         for b in self.blockettes:
             offset = self.packBlockette(recordBytes, offset, b)
+            if b.blocketteNum == 1001 and not 0 <= b.microseconds < 100:
+                # start time in fixed header is the one before correction
+                self.header.packBTime(
+                    recordBytes,
+                    self.header.starttime - timedelta(microseconds=b.microseconds),
+                )
         # set offset to data in header
         if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
             offset = 64
@@ -515,7 +521,7 @@ class MiniseedRecord:
     def createB1001(self):
         microseconds = self.starttime().microsecond % 100
         return Blockette1001(
-            1000,
+            1001,
             0,
             0,  # time quality
             microseconds,  # microseconds
-- 
2.43.0


From 0c3628e409149f4ccca41ab6c3d9cafcde52aa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 26/50] fix: allow leap seconds in the start time of a
 miniseed2 header

---
 src/simplemseed/miniseed.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index a1131c0..b5be841 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -282,10 +282,9 @@ class MiniseedHeader:
                 1,
                 hour=self.btime.hour,
                 minute=self.btime.minute,
-                second=self.btime.second,
                 microsecond=100 * self.btime.tenthMilli,
                 tzinfo=timezone.utc,
-            ) + timedelta(days=self.btime.yday - 1)
+            ) + timedelta(days=self.btime.yday - 1, seconds=self.btime.second)
         else:
             raise MiniseedException(
                 f"unknown type of starttime {type(starttime)}"
-- 
2.43.0


From ad1886a8e70917bae3fb618d6f88be43b772a74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 27/50] fix: miniseed2 record of Steim data can be packed after
 it was decompressed

---
 src/simplemseed/miniseed.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index b5be841..468028f 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -436,7 +436,9 @@ class MiniseedRecord:
         if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
             offset = 64
         struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
-        if self.encodedDataBytes is not None and self._data is None:
+        if self.encodedDataBytes is not None and (
+            self._data is None or self.header.encoding in (STEIM1, STEIM2)
+        ):
             recordBytes[offset : offset + len(self.encodedDataBytes)] = self.encodedDataBytes
         else:
             self.packData(recordBytes, offset, self._data)
-- 
2.43.0


From 5ce405826c1cf07a840154c9bb92b6475f3fa2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 28/50] fix: refuse data that does not fit in a miniseed2
 record

---
 src/simplemseed/miniseed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 468028f..1d7e476 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -442,6 +442,10 @@ class MiniseedRecord:
             recordBytes[offset : offset + len(self.encodedDataBytes)] = self.encodedDataBytes
         else:
             self.packData(recordBytes, offset, self._data)
+        if len(recordBytes) != self.header.recordLength:
+            raise MiniseedException(
+                f"not enough bytes in record to fit data: {len(recordBytes):d} > {self.header.recordLength:d}"
+            )
         return recordBytes
 
     def packBlockette(self, recordBytes, offset, b):
-- 
2.43.0


From d0e4cba36e92768e28581b2a00197b37021ecb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 29/50] fix: chain blockettes of a packed miniseed2 record

---
 src/simplemseed/miniseed.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 1d7e476..7083bb1 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -424,8 +424,16 @@ class MiniseedRecord:
             # make sure we have a b1000 to be valid miniseed
             self.blockettes.insert(0, self.createB1000())
         recordBytes[39] = len(self.blockettes)
-        for b in self.blockettes:
+        for i, b in enumerate(self.blockettes):
+            bOffset = offset
             offset = self.packBlockette(recordBytes, offset, b)
+            # offset of next blockette, zero for last one
+            struct.pack_into(
+                self.header.endianChar + "H",
+                recordBytes,
+                bOffset + 2,
+                offset if i < len(self.blockettes) - 1 else 0,
+            )
             if b.blocketteNum == 1001 and not 0 <= b.microseconds < 100:
                 # start time in fixed header is the one before correction
                 self.header.packBTime(
-- 
2.43.0


From 589b39ffa3b1d7b9ebb6734c747ecf69e4b481c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 30/50] fix: blockettes are in the byte order of the miniseed2
 fixed header

---
 src/simplemseed/miniseed.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 7083bb1..8ddf606 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -789,8 +789,7 @@ def readMiniseed2Records(fileptr, matchsid=None):
                     blockettes.append(b)
                     if type(b).__name__ == "Blockette1000":
                         header.encoding = b.encoding
-                        header.byteorder = b.byteorder
-                        endianChar = "<" if header.byteorder == LITTLE_ENDIAN else ">"
+                        header.byteorder = b.byteorder  # of data, not of blockettes
                         header.recordLengthExp = b.recLength
                         header.recordLength = 2**header.recordLengthExp
                         foundB1000 = b
-- 
2.43.0


From ea4410fa18399cb21964cf3a42ffb9036095d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 31/50] fix: first blockette may start after the end of the
 miniseed2 fixed header

---
 src/simplemseed/miniseed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 8ddf606..ab27f5e 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -763,6 +763,10 @@ def readMiniseed2Records(fileptr, matchsid=None):
         if header.numBlockettes > 0:
             blocketteNextOffset = header.blocketteOffset
             prevBOffset = blocketteNextOffset
+            if blocketteNextOffset > numRecBytesRead:
+                numRecBytesRead += len(
+                    fileptr.read(blocketteNextOffset - numRecBytesRead)
+                )
             while blocketteNextOffset > 0 and len(blockettes) < header.numBlockettes:
                 try:
                     blocketteFourBytes = fileptr.read(4)
-- 
2.43.0


From a3358324b400b7bdd5ac2a614ab50f559a622b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 32/50] fix: raise MiniseedException for a truncated miniseed2
 record

---
 src/simplemseed/miniseed.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index ab27f5e..fa29f4b 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -819,9 +819,15 @@ def readMiniseed2Records(fileptr, matchsid=None):
             numBytesToRead = header.dataOffset - numRecBytesRead
             _skipBytes = fileptr.read(numBytesToRead)
             encodedDataBytes = fileptr.read(header.recordLength - header.dataOffset)
+            numRecBytesRead += len(_skipBytes) + len(encodedDataBytes)
         else:
             numBytesToRead = header.recordLength - numRecBytesRead
             _skipBytes = fileptr.read(numBytesToRead)
+            numRecBytesRead += len(_skipBytes)
+        if numRecBytesRead < header.recordLength:
+            raise MiniseedException(
+                f"Not enough bytes for record: {numRecBytesRead:d} < {header.recordLength:d}"
+            )
         identifier = str(header.fdsnSourceId())
         if matchPat is None or matchPat.search(identifier) is not None:
             yield MiniseedRecord(
-- 
2.43.0


From 792b6cd18208b7ffc0bcbf695b8da7d3aa96e8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 33/50] fix: big endian samples were byte swapped once too
 often in miniseed2 to 3 conversion

---
 src/simplemseed/mseed2to3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 0ea4919..447e81c 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -52,8 +52,8 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     ms3Header.publicationVersion = UNKNOWN_PUBLICATION_VERSION
     if ms2.encodedDataBytes is not None:
         if isPrimitiveCompression(b1000.encoding) and ms2H.byteorder == BIG_ENDIAN:
-            # need to decompress to byte swap primitive array
-            data = ms2.decompressed().byteswap()
+            # need to decompress, primitive array is packed as little endian
+            data = ms2.decompressed()
         else:
             ms3Header.dataLength = len(ms2.encodedDataBytes)
             data = ms2.encodedDataBytes
-- 
2.43.0


From fdc926c7ba7e104e4eabb56c3f5b60bdfd9612f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 34/50] fix: flags in miniseed2 to 3 conversion

---
 src/simplemseed/mseed2to3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 447e81c..fca6e17 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -19,7 +19,9 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
 
     ms2H = ms2.header
     ms3Header.flags = (
-        (ms2H.actFlag & 1) * 2 + (ms2H.ioFlag & 64) * 4 + (ms2H.qualFlag & 16) * 8
+        (ms2H.actFlag & 1)  # calibration signals present
+        + (2 if ms2H.qualFlag & 128 else 0)  # time tag questionable
+        + (4 if ms2H.ioFlag & 32 else 0)  # clock locked
     )
     ms3Header.publicationVersion = 0
 
-- 
2.43.0


From d9fc2b1d3e1e2b79664e4d9b7258812dc28d7189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 35/50] fix: microseconds of blockette 1001 in miniseed2 to 3
 conversion

They were added twice when 100 or more, and lost when time quality was zero.
---
 src/simplemseed/mseed2to3.py | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index fca6e17..be2b2dc 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -30,7 +30,8 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     ms3Header.hour = ms2H.btime.hour
     ms3Header.minute = ms2H.btime.minute
     ms3Header.second = ms2H.btime.second
-    ms3Header.nanosecond = ms2H.btime.tenthMilli * 100000
+    # includes microseconds of blockette 1001
+    ms3Header.nanosecond = ms2H.starttime.microsecond * 1000
     if ms2.header.sampleRate == 0:
         ms3Header.sampleRatePeriod = 0
     else:
@@ -70,7 +71,6 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     if ms2H.dataquality != 0 and ms2H.dataquality != "D":
         fdsnExtras["DataQuality"] = ms2H.dataquality
         ms3Extras["FDSN"] = fdsnExtras
-    nanos = 0
     for b in ms2.blockettes:
         if b.blocketteNum == 100:
             ms3Header.sampleRatePeriod = b.sampleRate
@@ -78,31 +78,12 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
             if "Time" not in fdsnExtras:
                 fdsnExtras["Time"] = {}
             fdsnExtras["Time"]["Quality"] = b.timeQuality
-            nanos = 1000 * b.microseconds
 
     if ms2H.btime.second == 60:
         if "Time" not in fdsnExtras:
             fdsnExtras["Time"] = {}
         fdsnExtras["Time"]["LeapSecond"] = 1
 
-    ms3Header.nanosecond += nanos
-    if ms3Header.nanosecond < 0:
-        ms3Header.second -= 1
-        ms3Header.nanosecond += 1000000000
-        if ms3Header.second < 0:
-            # might be wrong for leap seconds
-            ms3Header.second += 60
-            ms3Header.minute -= 1
-            if ms3Header.minute < 0:
-                ms3Header.minute += 60
-                ms3Header.hour -= 1
-                if ms3Header.hour < 0:
-                    ms3Header.hour += 24
-                    ms3Header.dayOfYear = -1
-                    if ms3Header.dayOfYear < 0:
-                        # wrong for leap years
-                        ms3Header.year -= 1
-                        ms3Header.dayOfYear += 365 if ms3Header.year % 4 != 0 else 366
     if len(fdsnExtras) > 0:
         ms3Extras["FDSN"] = fdsnExtras
     if len(ms3Extras) == 0:
-- 
2.43.0


From 3b83c4f506168dc0d8023cf9e22bb4176e650f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 36/50] fix: mseed2to3 command failed on args.version

---
 src/simplemseed/mseed2to3.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index be2b2dc..035840f 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -128,9 +128,6 @@ def do_parseargs():
 def main():
 
     args = do_parseargs()
-    if args.version:
-        print(f"mseed2to3 Version {VERSION}")
-        return 0
     bytesWritten = 0
     with args.ms2 as inms2:
         with args.ms3 as outms3:
-- 
2.43.0


From 8692f2112b6e5362c623d6e46f2b37bc665cbcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 37/50] fix: factor and multiplier of a period of 32765 seconds
 are not zero

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index fa29f4b..be6a974 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -222,7 +222,7 @@ class MiniseedHeader:
         else:
             # don't get too close to the max for a short, use ceil as neg
             factor = -1 * round(
-                math.floor(1.0 * self.sampleRate * (SHORT_MAX_VALUE - 2))
+                max(1, math.floor(1.0 * self.sampleRate * (SHORT_MAX_VALUE - 2)))
                 / self.sampleRate
             )
             # don't get too close to the max for a short
-- 
2.43.0


From a2c30c62337b419c4db561148bfd20f0913f3e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:53 +0000
Subject: [PATCH 38/50] fix: steim data starts on a frame boundary after more
 than 16 bytes of blockettes

---
 src/simplemseed/miniseed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index be6a974..c390f79 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -441,8 +441,9 @@ class MiniseedRecord:
                     self.header.starttime - timedelta(microseconds=b.microseconds),
                 )
         # set offset to data in header
-        if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
-            offset = 64
+        if self.header.encoding in (STEIM1, STEIM2):
+            # steim frames are 64 bytes and must start on a frame boundary
+            offset = 64 * math.ceil(offset / 64)
         struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
         if self.encodedDataBytes is not None and (
             self._data is None or self.header.encoding in (STEIM1, STEIM2)
-- 
2.43.0


From 209f226238d127b9dc7c570be2a2a6695ef89b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 39/50] fix: source id codes may only have ASCII digits

The class \d also matches the digits of other scripts, so that codes with
them were valid and could be taken for temporary networks.
---
 src/simplemseed/fdsnsourceid.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index d214a5e..72a400e 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -14,29 +14,29 @@ from .version import VERSION
 
 
 
-TEMP_NET_SEED = re.compile(r"[\dXYZ][A-Z\d]")
+TEMP_NET_SEED = re.compile(r"[0-9XYZ][A-Z0-9]")
 """
 Older SEED style temp networks, like XD. Starts with XYZ or a digit.
 """
 
-TEMP_NET_MAPPING = re.compile(r"[\dXYZ][A-Z\d]\d{4}")
+TEMP_NET_MAPPING = re.compile(r"[0-9XYZ][A-Z0-9][0-9]{4}")
 """
 Mapping of older SEED style temp networks to include start year,
 like XD maps to XD1994. Starts with XYZ or a digit and ends with 4 digit year.
 """
 
-TEMP_NET_CONVENTION = re.compile(r"[A-Z\d]{1,4}\d{4}")
+TEMP_NET_CONVENTION = re.compile(r"[A-Z0-9]{1,4}[0-9]{4}")
 """
 Network codes for temporary networks convention, ends with 4 digit year.
 """
 
-NET_VALID = re.compile(r"[A-Z\d]{1,8}")
+NET_VALID = re.compile(r"[A-Z0-9]{1,8}")
 "Regular expression for network code"
-STATION_VALID = re.compile(r"[A-Z\d-]{1,8}")
+STATION_VALID = re.compile(r"[A-Z0-9-]{1,8}")
 "Regular expression for station code"
-LOCATION_VALID = re.compile(r"[A-Z\d-]{0,8}")
+LOCATION_VALID = re.compile(r"[A-Z0-9-]{0,8}")
 "Regular expression for location code"
-SOURCE_SUBSOURCE_VALID = re.compile(r"[A-Z\d]+") # current spec has no length restrictions
+SOURCE_SUBSOURCE_VALID = re.compile(r"[A-Z0-9]+") # current spec has no length restrictions
 "Regular expression for source and subsource codes"
 
 FDSN_PREFIX = "FDSN:"
-- 
2.43.0


From 76ca1c9b371502f2c3ee37d3e466d56b2076d2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 40/50] fix: long channel codes are parsed as a whole

Text after the third item was dropped, a source with the separator in it
was accepted, _H_ was taken for the three single character codes _, H and _,
and the long channel code of an id without a band code was rejected.
---
 src/simplemseed/fdsnsourceid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 72a400e..458310a 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -226,20 +226,20 @@ class FDSNSourceId:
         Optionally give the start year of the network, which will be appended
         if it is a SEED-style temporary network like XD.
         """
-        if len(channelCode) == 3:
+        if len(channelCode) == 3 and SEP not in channelCode:
             band = channelCode[0]
             source = channelCode[1]
             subsource = channelCode[2]
         else:
-            b_s_ss = r"(\w)_(\w+)_(\w*)"
-            match = re.match(b_s_ss, channelCode)
+            b_s_ss = r"([A-Za-z0-9]?)_([A-Za-z0-9]+)_([A-Za-z0-9]*)"
+            match = re.fullmatch(b_s_ss, channelCode)
             if match:
                 band = match[1]
                 source = match[2]
                 subsource = match[3]
             else:
                 raise FDSNSourceIdException(
-                    f"channel code must be length 3 or have 3 items separated by '{SEP}', first len 1, last may be missing: {channelCode}"
+                    f"channel code must be length 3 or have 3 items separated by '{SEP}', first len 1 or missing, last may be missing: {channelCode}"
                 )
         netId = NetworkSourceId(net, startYear)
 
-- 
2.43.0


From b1e5534be2648bfdafd20bd05f2e378750c14c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 41/50] fix: parseNslc keeps everything after the third
 separator as the channel

Extra items were dropped, and the text of an NslcId with a long channel
code could not be parsed.
---
 src/simplemseed/fdsnsourceid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 458310a..3c77fa2 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -252,7 +252,8 @@ class FDSNSourceId:
         location, channel, wheret the 4 sections are separated by the given
         separator, which defaults to a dot, '.'.
         """
-        items = nslc.split(sep)
+        # long channel codes may contain the separator
+        items = nslc.split(sep, 3)
         if len(items) < 4:
             raise FDSNSourceIdException(
                 f"channel nslc must have 4 items separated by '{sep}': {nslc}"
-- 
2.43.0


From 552b2fa05e928c11ae532c181298440e1098bdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 42/50] fix: start year of a network given as text must be four
 digits

---
 src/simplemseed/fdsnsourceid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 3c77fa2..40baf3f 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -342,7 +342,7 @@ class NetworkSourceId:
         self.networkCode = networkCode
         if self.isSeedTempNet() and startYear is not None:
             if isinstance(startYear, str):
-                if len(startYear) != 4:
+                if not re.fullmatch(r"[0-9]{4}", startYear):
                     raise FDSNSourceIdException(f"Start year for network be 4 digit year, {startYear}")
             elif isinstance(startYear, int):
                 if startYear<1880 or 2100<startYear:
-- 
2.43.0


From 4f494af972672ca7ee47ca1adf93efd240aae729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 43/50] fix: no location code in a channel source id is an
 empty one

It was formatted as the text None.
---
 src/simplemseed/fdsnsourceid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 40baf3f..17a21d6 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -148,6 +148,8 @@ class FDSNSourceId:
             self.networkCode = networkCode.networkCode
         else:
             self.networkCode = networkCode
+        if locationCode is None:
+            locationCode = ""
         self.stationCode = stationCode
         self.locationCode = locationCode
         self.bandCode = bandCode
-- 
2.43.0


From b93bfdab45b2ff106df308d50d5708570b9c0612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 44/50] fix: a response down to exactly 10 seconds is broadband

The band code table has >= 10 sec for the broadband codes.
---
 src/simplemseed/fdsnsourceid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 17a21d6..5978677 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -563,19 +563,19 @@ def bandCodeForRate(
     if sampRate >= 5000:
         return "J"
     if 1000 <= sampRate < 5000:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "F"
         return "G"
     if 250 <= sampRate < 1000:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "C"
         return "D"
     if 80 <= sampRate < 250:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "H"
         return "E"
     if 10 <= sampRate < 80:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "B"
         return "S"
     if 1 < sampRate < 10:
-- 
2.43.0


From 5d03c73be354fcc9060038798241ea8b0bd02db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 45/50] fix: validate the characters of the band code

---
 src/simplemseed/fdsnsourceid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 5978677..09746b3 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -273,6 +273,8 @@ class FDSNSourceId:
         if not valid:
             return (valid, reason)
         # band code allowed to be empty
+        if len(self.bandCode)>0 and not SOURCE_SUBSOURCE_VALID.fullmatch(self.bandCode):
+            return (False, f"Band code allowed chars only A-Z and 0-9, {self.bandCode}")
         if len(self.sourceCode) == 0:
             return (False, "Source code empty")
         if not SOURCE_SUBSOURCE_VALID.fullmatch(self.sourceCode):
-- 
2.43.0


From 4ff0b95cbe998e70dc7508e017a2a13a02896827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 46/50] fix: parseNslc refuses text of more than four items

Other than a long channel code with the separator between its items.
---
 src/simplemseed/fdsnsourceid.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 09746b3..ac8b996 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -254,9 +254,11 @@ class FDSNSourceId:
         location, channel, wheret the 4 sections are separated by the given
         separator, which defaults to a dot, '.'.
         """
-        # long channel codes may contain the separator
-        items = nslc.split(sep, 3)
-        if len(items) < 4:
+        items = nslc.split(sep)
+        if sep == SEP and len(items) == 6:
+            # long channel code
+            items = items[:3] + [SEP.join(items[3:])]
+        if len(items) != 4:
             raise FDSNSourceIdException(
                 f"channel nslc must have 4 items separated by '{sep}': {nslc}"
             )
-- 
2.43.0


From 4302e866eb28e1a7402d3c8075a5ca618fa68daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 47/50] fix: array type code of the 32 bit integer encoding is
 i

Items of type l have 8 bytes on most systems, and such an array has no
encoding. Packing is not affected, with an explicit byte order both have 4.
---
 src/simplemseed/seedcodec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/seedcodec.py b/src/simplemseed/seedcodec.py
index ecf82c0..f04a3d6 100644
--- a/src/simplemseed/seedcodec.py
+++ b/src/simplemseed/seedcodec.py
@@ -163,7 +163,7 @@ def arrayTypecodeFromMSeed(encoding: int) -> str:
     if encoding == SHORT:
         return "h"
     if encoding == INTEGER:
-        return "l"
+        return "i"
     if encoding == FLOAT:
         return "f"
     if encoding == DOUBLE:
-- 
2.43.0


From d6e656fb8a6223f8e4e05f7710791fb8e867a4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:38 +0000
Subject: [PATCH 48/50] fix: fdsnsourceid command fails for partial source ids
 and codes without description

---
 src/simplemseed/fdsnsourceid.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index ac8b996..a65c6a7 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -722,6 +722,14 @@ def _do_parseargs():
     return args
 
 
+def _describe(code: str, describer) -> str:
+    """Description of a band or source code, also when it is not in the tables."""
+    try:
+        return describer(code)
+    except KeyError:
+        return "unknown"
+
+
 def main():
     args = _do_parseargs()
 
@@ -740,7 +748,7 @@ def main():
         for bands in args.band:
             # in case no space between arg chars
             for bandCode in bands:
-                print(f"      Band: {bandCode} - {bandCodeDescribe(bandCode)}")
+                print(f"      Band: {bandCode} - {_describe(bandCode, bandCodeDescribe)}")
 
     if args.allsources:
         for sourceCode in SOURCE_CODE_JSON:
@@ -748,17 +756,24 @@ def main():
 
     if args.source is not None:
         for sourceCode in args.source:
-            print(f"    Source: {sourceCode} - {sourceCodeDescribe(sourceCode)}")
-            print(f"       {SOURCE_CODE_JSON[sourceCode]['desc']}")
+            print(f"    Source: {sourceCode} - {_describe(sourceCode, sourceCodeDescribe)}")
+            if sourceCode in SOURCE_CODE_JSON:
+                print(f"       {SOURCE_CODE_JSON[sourceCode]['desc']}")
 
     for a in args.sid:
         sid = FDSNSourceId.parse(a)
         print(f"      {sid}")
         print(f"       Net: {sid.networkCode}")
+        if isinstance(sid, NetworkSourceId):
+            continue
         print(f"       Sta: {sid.stationCode}")
+        if isinstance(sid, StationSourceId):
+            continue
         print(f"       Loc: {sid.locationCode}")
-        print(f"      Band: {sid.bandCode} - {bandCodeDescribe(sid.bandCode)}")
-        print(f"    Source: {sid.sourceCode} - {sourceCodeDescribe(sid.sourceCode)}")
+        if isinstance(sid, LocationSourceId):
+            continue
+        print(f"      Band: {sid.bandCode} - {_describe(sid.bandCode, bandCodeDescribe)}")
+        print(f"    Source: {sid.sourceCode} - {_describe(sid.sourceCode, sourceCodeDescribe)}")
         print(f" Subsource: {sid.subsourceCode}")
 
 
-- 
2.43.0


From fc5b474955fcc862fac61697fb43c3394c1711d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 49/50] fix: big endian DWWSSN samples were copied as little
 endian in miniseed2 to 3 conversion

---
 src/simplemseed/mseed2to3.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 035840f..9d084e7 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -6,7 +6,7 @@ import sys
 from .mseed3 import MSeed3Record, MSeed3Header, UNKNOWN_PUBLICATION_VERSION
 from .miniseed import MiniseedRecord, MiniseedException, readMiniseed2Records
 from .fdsnsourceid import FDSNSourceId
-from .seedcodec import isPrimitiveCompression, BIG_ENDIAN
+from .seedcodec import isPrimitiveCompression, BIG_ENDIAN, DWWSSN, SHORT
 from .version import VERSION
 
 
@@ -54,9 +54,14 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     ms3Header.encoding = b1000.encoding
     ms3Header.publicationVersion = UNKNOWN_PUBLICATION_VERSION
     if ms2.encodedDataBytes is not None:
-        if isPrimitiveCompression(b1000.encoding) and ms2H.byteorder == BIG_ENDIAN:
+        if (
+            isPrimitiveCompression(b1000.encoding) or b1000.encoding == DWWSSN
+        ) and ms2H.byteorder == BIG_ENDIAN:
             # need to decompress, primitive array is packed as little endian
             data = ms2.decompressed()
+            if b1000.encoding == DWWSSN:
+                # plain 16 bit integers once decompressed
+                ms3Header.encoding = SHORT
         else:
             ms3Header.dataLength = len(ms2.encodedDataBytes)
             data = ms2.encodedDataBytes
-- 
2.43.0


From 258482aeb16fc1943f8a904af7bf1d7940948c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 50/50] fix: big endian encoded segment of primitive samples in
 a miniseed3 record

---
 src/simplemseed/mseed3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 03c18f0..f0020dc 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -10,6 +10,7 @@ import crc32c
 
 from .seedcodec import (
     canDecompress,
+    isPrimitiveCompression,
     decompress,
     encode,
     STEIM1,
@@ -341,6 +342,9 @@ class MSeed3Record:
             encoding = 0
             numSamples = 0
         elif isinstance(data, EncodedDataSegment):
+            if isPrimitiveCompression(data.compressionType) and not data.littleEndian:
+                # primitive values are little endian in miniseed3
+                data = encode(data.decode(), data.compressionType)
             self._data = data.dataBytes
             encoding = data.compressionType
             numSamples = data.numSamples
-- 
2.43.0

