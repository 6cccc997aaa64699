From d37606eb21f0dcdeb8c59c9de0c0a556a98f18f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:05 +0000
Subject: [PATCH 01/13] fix: pair replacer dropped the last byte of 3 and 4
 byte blocks

The in-place variant of writeReplacedVersion flushed at most length-1 bytes
from its buffer. When the whole block fitted into the buffer the last byte
was lost, and the block could not be decompressed.
---
 preprocessors/PairReplacer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index 62ccd61..59066ef 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -359,7 +359,7 @@ writeReplacedVersion(byte *src, size_t length) const {
     }
     ++i;
   }
-  filled += buffer.consume(src + filled, i);
+  filled += buffer.consume(src + filled, length);
   return filled;
 }
 
-- 
2.43.0


From 42fa0ed0c08d6826f3f74f105c4a5a447aa1c4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:05 +0000
Subject: [PATCH 02/13] fix: preprocessing aborted on blocks of one or two
 bytes

PairReplacer needs at least three bytes of data, so compress --prepr and
preprocess aborted for tiny files and for files whose last block is tiny.
---
 preprocessors/Precompressor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessors/Precompressor.cpp b/preprocessors/Precompressor.cpp
index 6cf3e3a..448059a 100644
--- a/preprocessors/Precompressor.cpp
+++ b/preprocessors/Precompressor.cpp
@@ -73,7 +73,8 @@ void Precompressor::precompress(PrecompressorBlock& block) const {
     size_t oldLength = length;
     bool useTempArray = false;
 
-    for(size_t i = 0; i < m_preprocessingOptions.size(); ++i) {
+    // Blocks with less than 3 bytes have nothing to be replaced.
+    for(size_t i = 0; i < m_preprocessingOptions.size() && length > 2; ++i) {
       char c = m_preprocessingOptions[i];
       double ratio = (double)length/block.originalSize();
       if(ratio < 0.666 && !useTempArray) {
-- 
2.43.0


From f7f1bb1a32f279d58b2fb7efe053f9045c69f0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:21 +0000
Subject: [PATCH 03/13] fix: pair replacer could make the block longer and
 overflow its buffer

Frequency of a pair of equal symbols was counted only approximately: from a run
of three symbols two overlapping pairs could be counted although only one of
them can be replaced. Based on such frequencies the replacer made replacements
which lengthened the data, and wrote it past the end of the block's memory.
Count the pairs exactly as they are going to be replaced.
---
 preprocessors/PairReplacer.cpp | 15 ++++++---------
 preprocessors/PairReplacer.hpp | 21 ++++++++-------------
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/preprocessors/PairReplacer.cpp b/preprocessors/PairReplacer.cpp
index 59066ef..1d96c98 100644
--- a/preprocessors/PairReplacer.cpp
+++ b/preprocessors/PairReplacer.cpp
@@ -37,14 +37,14 @@
 namespace bwtc {
 
 PairReplacer::PairReplacer(Grammar& grammar)
-    : m_grammar(grammar), m_prev(0), m_numOfReplacements(0),
-      m_numOfFreedSymbols(0), m_numOfNewSpecials(0), m_commonByte(0),
+    : m_grammar(grammar), m_prev(0), m_prevCounted(false),
+      m_numOfReplacements(0), m_numOfFreedSymbols(0), m_numOfNewSpecials(0), m_commonByte(0),
       m_analysationStarted(false), m_verbose(false)
 {}
 
 PairReplacer::PairReplacer(Grammar& grammar, bool verbose)
-    : m_grammar(grammar), m_prev(0), m_numOfReplacements(0),
-      m_numOfFreedSymbols(0), m_numOfNewSpecials(0), m_commonByte(0),
+    : m_grammar(grammar), m_prev(0), m_prevCounted(false),
+      m_numOfReplacements(0), m_numOfFreedSymbols(0), m_numOfNewSpecials(0), m_commonByte(0),
       m_analysationStarted(false), m_verbose(verbose)
 {}
 
@@ -55,11 +55,7 @@ void PairReplacer::analyseData(const byte *data, size_t length, bool reset) {
   size_t i = 0;
   if(!m_analysationStarted) beginAnalysing(data[i++], reset);
 
-  for(; i < ((length-1) & 0xfffffffe); ++i) {
-    analyseData0(data[i]);
-    analyseData(data[++i]);
-  }
-  if((length & 0x1) == 0) analyseData0(data[i]);
+  for(; i < length; ++i) analyseData(data[i]);
 }
 
 void PairReplacer::finishAnalysation() {}
@@ -72,6 +68,7 @@ void PairReplacer::resetAnalyseData() {
 void PairReplacer::beginAnalysing(byte first, bool reset) {
   beginAnalysing(reset);
   m_prev = first;
+  m_prevCounted = false;
   ++m_frequencies[first];
   const size_t* grammarFreq = m_grammar.frequencies();
   for(int i = 0; i < 256; ++i) m_frequencies[i] += grammarFreq[i];
diff --git a/preprocessors/PairReplacer.hpp b/preprocessors/PairReplacer.hpp
index 2c9363d..96f4aa5 100644
--- a/preprocessors/PairReplacer.hpp
+++ b/preprocessors/PairReplacer.hpp
@@ -48,22 +48,14 @@ class PairReplacer {
     assert(m_analysationStarted);
     assert(m_pairFrequencies);
     assert(m_frequencies);
-    m_prev = (m_prev << 8) | next;
-    
-    ++m_pairFrequencies[m_prev];
-    ++m_frequencies[next];
-  }
-
-  inline void analyseData0(byte next) {
-    ++m_frequencies[next];
     uint16 prev = m_prev;
     m_prev = (m_prev << 8) | next;
+    ++m_frequencies[next];
 
-    int pXc = prev ^ m_prev;
-    // compute min(pXc,1)
-    int min = 1 + ((pXc - 1) & ((pXc - 1) >> (sizeof(int)*__CHAR_BIT__ - 1)));
-    
-    m_pairFrequencies[m_prev] += min;
+    // Overlapping occurrences (run of a single symbol) can't be replaced at the
+    // same time, so they are not counted.
+    m_prevCounted = !(m_prevCounted && prev == m_prev);
+    if(m_prevCounted) ++m_pairFrequencies[m_prev];
   }
 
   void beginAnalysing(bool reset);
@@ -124,6 +116,9 @@ class PairReplacer {
   /**Used in the analysation phase. */
   uint16 m_prev;
 
+  /**Was the pair in m_prev counted into m_pairFrequencies? */
+  bool m_prevCounted;
+
   /** Stores the total number of replacements stored and to be executed. */
   uint16 m_numOfReplacements;
 
-- 
2.43.0


From 46ebce12a400ef1ea6185d3818be25a8c54f252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:37 +0000
Subject: [PATCH 04/13] fix: history array of SimpleMarkov was one element too
 short

The state of the history consisting only of ones was kept outside of the
allocated memory. Encoder and decoder could see different initial values for it
and the data compressed with options 'm' or 'M' didn't always decompress.
---
 probmodels/ProbabilityModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probmodels/ProbabilityModel.cpp b/probmodels/ProbabilityModel.cpp
index 9db31af..3be8f78 100644
--- a/probmodels/ProbabilityModel.cpp
+++ b/probmodels/ProbabilityModel.cpp
@@ -88,7 +88,7 @@ template <typename UnsignedInt>
 SimpleMarkov<UnsignedInt>::SimpleMarkov() :
     m_prev(static_cast<UnsignedInt>(0)), m_history(0)
 {
-  uint64 size = (static_cast<uint64>(1) << 8*sizeof(UnsignedInt)) - 1;
+  uint64 size = static_cast<uint64>(1) << 8*sizeof(UnsignedInt);
   m_history = new char[size];
   std::fill(m_history, m_history + size, 0);
 }
@@ -123,7 +123,7 @@ template <typename UnsignedInt>
 void SimpleMarkov<UnsignedInt>::resetModel() {
   /* Seems to work better when not resetting the model for different
    * contexts. */
-  uint64 size = (static_cast<uint64>(1) << 8*sizeof(UnsignedInt)) - 1;
+  uint64 size = static_cast<uint64>(1) << 8*sizeof(UnsignedInt);
   std::fill(m_history, m_history + size, 0);
 }
 
-- 
2.43.0


From 43de642beac508b9e49fa07eacd11058493e52f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:47 +0000
Subject: [PATCH 05/13] fix: compress aborted with the largest block size

Maximal block size chosen by Compressor (when the memory limit is 11609 MB or
more) did not pass the assertion in PrecompressorBlock::sliceIntoBlocks.
---
 PrecompressorBlock.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PrecompressorBlock.cpp b/PrecompressorBlock.cpp
index e74b5db..e797eff 100644
--- a/PrecompressorBlock.cpp
+++ b/PrecompressorBlock.cpp
@@ -123,7 +123,7 @@ readBlockHeader(InStream* in, MetaData metadata) {
 void PrecompressorBlock::sliceIntoBlocks(size_t blockSize) {
   //Have at least one additional byte for the sentinel of BWT
   assert(m_used < m_reserved);
-  assert(blockSize < (0x80000000 - 2));
+  assert(blockSize <= (0x80000000 - 2));
   m_bwtBlocks.clear();
   size_t begin = 0;
   while(begin < m_used) {
-- 
2.43.0


From 567e6808a5013810e75937a0a5dec02be21b20fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:57 +0000
Subject: [PATCH 06/13] fix: truncated compressed data was not noticed

Reading past the end of the data gave bytes 0xFF forever, so decompressing a
truncated file could loop endlessly, crash, or write garbage. Report the error
and exit when the data ends although more of it is expected.
---
 HuffmanCoders.cpp      |  1 -
 PrecompressorBlock.cpp |  6 +++++-
 Streams.cpp            | 12 +++++++++++-
 Streams.hpp            |  6 ++++--
 WaveletCoders.cpp      |  1 -
 5 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/HuffmanCoders.cpp b/HuffmanCoders.cpp
index 5fcb2f0..fea4e32 100644
--- a/HuffmanCoders.cpp
+++ b/HuffmanCoders.cpp
@@ -337,7 +337,6 @@ readBlockHeader(BWTBlock& block, std::vector<uint64>* stats, InStream* in) {
 
 void HuffmanDecoder::decodeBlock(BWTBlock& block, InStream* in) {
   PROFILE("HuffmanDecoder::decodeBlock");
-  if(in->compressedDataEnding()) return;
 
   std::vector<uint64> context_lengths;
   uint64 compr_len = readBlockHeader(block, &context_lengths, in);
diff --git a/PrecompressorBlock.cpp b/PrecompressorBlock.cpp
index e797eff..4f93dbb 100644
--- a/PrecompressorBlock.cpp
+++ b/PrecompressorBlock.cpp
@@ -30,6 +30,7 @@
 #include "Utils.hpp"
 
 #include <cassert>
+#include <cstdio>
 #include <cstdlib>
 
 namespace bwtc {
@@ -113,7 +114,10 @@ readBlockHeader(InStream* in, MetaData metadata) {
     if(compressedSize != 0) {
       pb->grammar().readGrammar(in);
       uint64 read = in->readBlock(pb->begin(), compressedSize);
-      assert(read == compressedSize);
+      if(read != compressedSize) {
+        fprintf(stderr, "Unexpected end of data!\n");
+        exit(1);
+      }
       pb->setSize(read);
     }
     return pb;
diff --git a/Streams.cpp b/Streams.cpp
index 7f9cd35..ae83491 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -120,7 +120,7 @@ uint64 RawInStream::read48bits() {
   uint64 result = 0;
   for(int i = 0; i < 6; ++i) {
     result <<= 8;
-    result |= static_cast<byte>(fetchByte());
+    result |= fetchExistingByte();
   }
   return result;
 }
@@ -174,6 +174,16 @@ int32 RawInStream::fetchByte() {
   return m_bigbuf[m_bigbuf_pos++];
 }
 
+byte RawInStream::fetchExistingByte() {
+  int32 c = fetchByte();
+  if (c == EOF) {
+    fprintf(stderr, "%s: Unexpected end of data!\n",
+            m_name != "" ? m_name.c_str() : "stdin");
+    exit(1);
+  }
+  return static_cast<byte>(c);
+}
+
 int32 RawInStream::peekByte() {
   if (m_bigbuf_left <= 0) {
     m_bigbuf_pos = 0;
diff --git a/Streams.hpp b/Streams.hpp
index 236c4c4..38d275d 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -119,7 +119,7 @@ class RawInStream : public InStream {
 
   virtual inline bool readBit() {
     if (m_bitsInBuffer == 0) {
-      m_buffer = static_cast<byte>(fetchByte());
+      m_buffer = fetchExistingByte();
       m_bitsInBuffer = 8;
     }
     return (m_buffer >> --m_bitsInBuffer) & 1;
@@ -127,7 +127,7 @@ class RawInStream : public InStream {
 
   virtual inline byte readByte() {
     assert(m_bitsInBuffer < 8);
-    byte nextByte = static_cast<byte>(fetchByte());
+    byte nextByte = fetchExistingByte();
     m_buffer = (m_buffer << 8) | nextByte;
     return (m_buffer >> m_bitsInBuffer) & 0xff;
   }
@@ -165,6 +165,8 @@ class RawInStream : public InStream {
 
   int fetchByte();
   int peekByte();
+  /* Reads a byte which has to exist: the end of data is an error. */
+  byte fetchExistingByte();
   RawInStream& operator=(const RawInStream& os);
   RawInStream(const RawInStream& os);
 };
diff --git a/WaveletCoders.cpp b/WaveletCoders.cpp
index d647adc..1f89f2c 100644
--- a/WaveletCoders.cpp
+++ b/WaveletCoders.cpp
@@ -245,7 +245,6 @@ WaveletDecoder::readBlockHeader(BWTBlock& block, std::vector<uint64>* stats,
 
 void WaveletDecoder::decodeBlock(BWTBlock& block, InStream* in) {
   PROFILE("WaveletDecoder::decodeBlock");
-  if(in->compressedDataEnding()) return;
 
   std::vector<uint64> context_lengths;
   uint64 compr_len = readBlockHeader(block, &context_lengths, in);
-- 
2.43.0


From eb1519978fd0e6deb610007396d50e1272d73aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:11 +0000
Subject: [PATCH 07/13] fix: read errors were treated as the end of the input

For example compressing a directory produced an archive of an empty file and
reported success.
---
 Streams.cpp | 15 +++++++++++----
 Streams.hpp |  1 +
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/Streams.cpp b/Streams.cpp
index ae83491..91b79fa 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -164,10 +164,18 @@ size_t RawInStream::readBlock(byte* to, size_t max_block_size) {
   return have_read;
 }
 
+void RawInStream::fillBuffer() {
+  m_bigbuf_pos = 0;
+  m_bigbuf_left = fread(m_bigbuf, 1, kBigbufSize, m_fileptr);
+  if (ferror(m_fileptr)) {
+    perror(m_name != "" ? m_name.c_str() : "stdin");
+    exit(1);
+  }
+}
+
 int32 RawInStream::fetchByte() {
   if (m_bigbuf_left <= 0) {
-    m_bigbuf_pos = 0;
-    m_bigbuf_left = fread(m_bigbuf, 1, kBigbufSize, m_fileptr);
+    fillBuffer();
     if (m_bigbuf_left <= 0) return EOF;
   }
   --m_bigbuf_left;
@@ -186,8 +194,7 @@ byte RawInStream::fetchExistingByte() {
 
 int32 RawInStream::peekByte() {
   if (m_bigbuf_left <= 0) {
-    m_bigbuf_pos = 0;
-    m_bigbuf_left = fread(m_bigbuf, 1, kBigbufSize, m_fileptr);
+    fillBuffer();
     if (m_bigbuf_left <= 0) return EOF;
   }
   return m_bigbuf[m_bigbuf_pos];
diff --git a/Streams.hpp b/Streams.hpp
index 38d275d..36ea788 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -163,6 +163,7 @@ class RawInStream : public InStream {
   int32 m_bigbuf_left;
   uint32 m_bigbuf_pos;
 
+  void fillBuffer();
   int fetchByte();
   int peekByte();
   /* Reads a byte which has to exist: the end of data is an error. */
-- 
2.43.0


From d1299f36efc90b47f101624a0aff8f61c7bedf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:05 +0000
Subject: [PATCH 08/13] fix: errors in writing were not noticed

Tools reported success even though the output could not be written, for
example because the disk was full.
---
 Streams.cpp | 25 ++++++++++++++++---------
 Streams.hpp |  4 ++++
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/Streams.cpp b/Streams.cpp
index 91b79fa..b78c581 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -62,29 +62,36 @@ RawOutStream::RawOutStream(const std::string& file_name)
 
 RawOutStream::~RawOutStream() {
   PROFILE("RawOutStream::~RawOutStream()");
-  if (m_filled > 0) {
-    flush();
-  }
+  flush();
   if (m_fileptr != stdout) {
-    fclose(m_fileptr);
+    if (fclose(m_fileptr) != 0) fail();
   }
   delete[] m_buffer;
 }
 
+void RawOutStream::fail() const {
+  perror(m_name != "" ? m_name.c_str() : "stdout");
+  exit(1);
+}
+
+void RawOutStream::writeToFile(const byte *begin, size_t size) {
+  if (fwrite(begin, 1, size, m_fileptr) != size) fail();
+}
+
 void RawOutStream::writeByte(byte b) {
   m_buffer[m_filled++] = b;
   if (m_filled == kBufferSize) {
-    fwrite(m_buffer, 1, m_filled, m_fileptr);
+    writeToFile(m_buffer, m_filled);
     m_filled = 0;
   }
 }
 
 void RawOutStream::flush() {
   if (m_filled > 0) {
-    fwrite(m_buffer, 1, m_filled, m_fileptr);
+    writeToFile(m_buffer, m_filled);
     m_filled = 0;
   }
-  fflush(m_fileptr);
+  if (fflush(m_fileptr) != 0) fail();
 }
 
 long int RawOutStream::getPos() {
@@ -99,7 +106,7 @@ void RawOutStream::writeBlock(const byte *begin, const byte *end) {
     m_filled += size;
   } else {
     flush();
-    fwrite(begin, 1, size, m_fileptr);
+    writeToFile(begin, size);
   }
 }
 
@@ -111,7 +118,7 @@ void RawOutStream::write48bits(uint64 to_written, long int position) {
   fseek(m_fileptr, position, SEEK_SET);
   for(int i = 5; i >= 0; --i) {
     byte b = 0xFF & (to_written >> i*8);
-    fputc(b, m_fileptr);
+    writeToFile(&b, 1);
   }
   fseek(m_fileptr, current, SEEK_SET);
 }
diff --git a/Streams.hpp b/Streams.hpp
index 36ea788..35ff1ae 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -103,6 +103,10 @@ class RawOutStream : public OutStream {
   uint32 m_filled;
   byte *m_buffer;
 
+  /* Reports the error in writing and exits. */
+  void fail() const;
+  void writeToFile(const byte *begin, size_t size);
+
   RawOutStream& operator=(const RawOutStream& os);
   RawOutStream(const RawOutStream& os);
 };
-- 
2.43.0


From 75e104f30330bf93bac08ceaa29de9e57b27d709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:35 +0000
Subject: [PATCH 09/13] fix: compressing into a pipe produced a corrupted
 archive

Lengths of the compressed blocks are written afterwards by seeking, which
doesn't work for pipes and for files opened in append mode. In these cases
collect the data into temporary file and copy it to target in the end.
---
 Streams.cpp | 33 +++++++++++++++++++++++++++++++--
 Streams.hpp |  7 ++++++-
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/Streams.cpp b/Streams.cpp
index b78c581..4350671 100644
--- a/Streams.cpp
+++ b/Streams.cpp
@@ -27,6 +27,8 @@
 
 #include <cassert>
 
+#include <fcntl.h>
+
 #include <fstream>
 #include <iostream>
 #include <iterator>
@@ -57,12 +59,14 @@ RawOutStream::RawOutStream(const std::string& file_name)
     m_fileptr = stdout;
   }
   m_filled = 0;
+  m_target = 0;
   assert(m_fileptr);
 }
 
 RawOutStream::~RawOutStream() {
   PROFILE("RawOutStream::~RawOutStream()");
   flush();
+  if (m_target) copyToTarget();
   if (m_fileptr != stdout) {
     if (fclose(m_fileptr) != 0) fail();
   }
@@ -94,8 +98,33 @@ void RawOutStream::flush() {
   if (fflush(m_fileptr) != 0) fail();
 }
 
+bool RawOutStream::canSeek() const {
+  int flags = fcntl(fileno(m_fileptr), F_GETFL);
+  return ftell(m_fileptr) >= 0 && (flags < 0 || (flags & O_APPEND) == 0);
+}
+
+void RawOutStream::copyToTarget() {
+  rewind(m_fileptr);
+  FILE *source = m_fileptr;
+  m_fileptr = m_target;
+  size_t size;
+  while ((size = fread(m_buffer, 1, kBufferSize, source)) > 0) {
+    writeToFile(m_buffer, size);
+  }
+  if (ferror(source)) fail();
+  fclose(source);
+  if (fflush(m_fileptr) != 0) fail();
+}
+
 long int RawOutStream::getPos() {
   flush();
+  if (!m_target && !canSeek()) {
+    // Target is a pipe or alike, so the rest of the data has to be collected
+    // elsewhere before it is possible to write there.
+    m_target = m_fileptr;
+    m_fileptr = tmpfile();
+    if (!m_fileptr) fail();
+  }
   return ftell(m_fileptr);
 }
 
@@ -115,12 +144,12 @@ void RawOutStream::write48bits(uint64 to_written, long int position) {
   flush();
   long int current = ftell(m_fileptr);
   // fseeking with negative offset from SEEK_CUR might be faster.
-  fseek(m_fileptr, position, SEEK_SET);
+  if (fseek(m_fileptr, position, SEEK_SET) != 0) fail();
   for(int i = 5; i >= 0; --i) {
     byte b = 0xFF & (to_written >> i*8);
     writeToFile(&b, 1);
   }
-  fseek(m_fileptr, current, SEEK_SET);
+  if (fseek(m_fileptr, current, SEEK_SET) != 0) fail();
 }
 
 uint64 RawInStream::read48bits() {
diff --git a/Streams.hpp b/Streams.hpp
index 35ff1ae..a1a531f 100644
--- a/Streams.hpp
+++ b/Streams.hpp
@@ -89,7 +89,7 @@ class RawOutStream : public OutStream {
    */
   virtual void writeBlock(const byte *begin, const byte *end);
 
-  bool isStdout() const { return m_fileptr == stdout; }
+  bool isStdout() const { return m_fileptr == stdout || m_target == stdout; }
 
   virtual long int getPos();
   virtual void write48bits(uint64 to_written, long int position);
@@ -100,12 +100,17 @@ class RawOutStream : public OutStream {
 
   std::string m_name;
   FILE *m_fileptr;
+  /* Actual target of the data if it doesn't support seeking and it was needed.
+   * In that case m_fileptr is a temporary file. */
+  FILE *m_target;
   uint32 m_filled;
   byte *m_buffer;
 
   /* Reports the error in writing and exits. */
   void fail() const;
   void writeToFile(const byte *begin, size_t size);
+  bool canSeek() const;
+  void copyToTarget();
 
   RawOutStream& operator=(const RawOutStream& os);
   RawOutStream(const RawOutStream& os);
-- 
2.43.0


From fe3a6e830eb9e1be7877f491c45c9bec922ab121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:09 +0000
Subject: [PATCH 10/13] fix: archives of SimpleMarkov depended on the compiler

The history was used as a negative shift count when zeros had been more
common, which is undefined: optimized build predicted 64/4096 and
unoptimized 0, so a build couldn't uncompress the archives (-e m, -e M) of
another one.
---
 probmodels/ProbabilityModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probmodels/ProbabilityModel.cpp b/probmodels/ProbabilityModel.cpp
index 3be8f78..bf206a5 100644
--- a/probmodels/ProbabilityModel.cpp
+++ b/probmodels/ProbabilityModel.cpp
@@ -116,7 +116,7 @@ template <typename UnsignedInt>
 Probability SimpleMarkov<UnsignedInt>::probabilityOfOne() const {
   Probability val = kProbabilityScale >> (kLogProbabilityScale/2);
   if (m_history[m_prev] > 0) return val << 2*m_history[m_prev];
-  else return val >> 2*m_history[m_prev];
+  else return val >> -2*m_history[m_prev];
 }
 
 template <typename UnsignedInt>
-- 
2.43.0


From 8fe673d4c1e1c633ada5c733da6fc1a48b042a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:06 +0000
Subject: [PATCH 11/13] fix: preprocess told a wrong total size for an empty
 input

(blocks-1)*block_size + last_s wraps around when there are no blocks.
---
 preprocess.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocess.cpp b/preprocess.cpp
index 8514858..6c2b638 100644
--- a/preprocess.cpp
+++ b/preprocess.cpp
@@ -72,7 +72,7 @@ void preprocess(const std::string& input_name, const std::string& output_name,
   bwtc::RawOutStream out(output_name);
 
   unsigned blocks = 0;
-  bwtc::uint64 last_s = 0;
+  bwtc::uint64 total_size = 0;
   while(bwtc::PrecompressorBlock* block = preprocessor.readBlock(block_size, &in)) {
     if(block->originalSize() == 0) {
       delete block;
@@ -84,7 +84,7 @@ void preprocess(const std::string& input_name, const std::string& output_name,
     block->writeBlockHeader(&out, PRECOMP_COMPRESSED_SIZE); 
     out.writeBlock(block->begin(), block->end());
 
-    last_s = block->originalSize();
+    total_size += block->originalSize();
     delete block;
   }
 
@@ -92,7 +92,7 @@ void preprocess(const std::string& input_name, const std::string& output_name,
   
   if (verbosity > 0) {
     std::clog << "Read " << blocks << " block" << ((blocks < 2)?"":"s") << "\n";
-    std::clog << "Total size: " << (blocks-1)*block_size + last_s << "B\n";
+    std::clog << "Total size: " << total_size << "B\n";
   }
 }
 
-- 
2.43.0


From 2cfc105dfb59d01853ff9aa4db685b145eb5f14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:09 +0000
Subject: [PATCH 12/13] fix: running out of memory in the BWT produced a
 corrupted archive

Both algorithms tell about failed allocations with their return value, which
was ignored, and compress wrote the untransformed block with exit status 0.
---
 bwtransforms/Divsufsorter.hpp | 8 ++++++--
 bwtransforms/sais.hxx         | 7 +++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/bwtransforms/Divsufsorter.hpp b/bwtransforms/Divsufsorter.hpp
index 140b1b2..810434d 100644
--- a/bwtransforms/Divsufsorter.hpp
+++ b/bwtransforms/Divsufsorter.hpp
@@ -30,6 +30,7 @@
 #include <cassert>
 
 #include <algorithm>
+#include <new>
 #include <vector>
 
 #include "BWTransform.hpp"
@@ -54,14 +55,17 @@ class Divsufsorter : public BWTransform {
   void
   doTransform(byte *begin, uint32 length, std::vector<uint32>& LFpowers) const {
     PROFILE("Divsufsorter::doTransform");
-    divbwt(begin, begin, 0, length, &LFpowers[0], LFpowers.size());
+    if (divbwt(begin, begin, 0, length, &LFpowers[0], LFpowers.size()) < 0)
+      throw std::bad_alloc();
   }
 
   void
   doTransform(byte *begin, uint32 length, std::vector<uint32>& LFpowers,
               uint32 *freqs) const {
     PROFILE("Divsufsorter::doTransform");
-    divbwtf(begin, begin, 0, length, &LFpowers[0], LFpowers.size(), freqs);
+    if (divbwtf(begin, begin, 0, length, &LFpowers[0], LFpowers.size(),
+                freqs) < 0)
+      throw std::bad_alloc();
   }
 
   /* The following values aren't correct */
diff --git a/bwtransforms/sais.hxx b/bwtransforms/sais.hxx
index e9dd4f7..6bb1029 100644
--- a/bwtransforms/sais.hxx
+++ b/bwtransforms/sais.hxx
@@ -33,6 +33,7 @@
 #include <cassert>
 #include <iterator>
 #include <limits>
+#include <new>
 
 #ifdef __INTEL_COMPILER
 #pragma warning(disable : 383 981 1418)
@@ -793,7 +794,8 @@ index_type i, pidx;
     pidx = saisxx_private::suffixsort(T, A, 0, n, k, true, LFpowers);
   }
 
-  if(0 <= pidx) {
+  if(pidx < 0) { throw std::bad_alloc(); }
+  else {
     for(i = 0; i < n; ++i) {
       if(i != pidx) U[i] = (char_type)A[i];
     }
@@ -819,7 +821,8 @@ index_type i, pidx;
     pidx = saisxx_private::suffixsort(T, A, 0, n, k, true, LFpowers);
   }
 
-  if(0 <= pidx) {
+  if(pidx < 0) { throw std::bad_alloc(); }
+  else {
     for(i = 0; i < n; ++i) {
       if(i != pidx) {
         U[i] = (char_type)A[i];
-- 
2.43.0


From 702341299dcdb3700684eb31fe8b7bb4837362bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:11 +0000
Subject: [PATCH 13/13] fix: FrequencyTable::increase compared with the entry
 behind the last one

After a removal that entry is the removed key, which could come back; without
one it lies outside of the array.
---
 preprocessors/FrequencyTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessors/FrequencyTable.cpp b/preprocessors/FrequencyTable.cpp
index fab008c..961b326 100644
--- a/preprocessors/FrequencyTable.cpp
+++ b/preprocessors/FrequencyTable.cpp
@@ -132,7 +132,7 @@ void FrequencyTable::increase(byte key, size_t value) {
   assert(m_frequencies[freqIndex].first == key);
   std::pair<byte, size_t> pair = std::make_pair(key, value);
   
-  while (freqIndex < m_last && value > m_frequencies[freqIndex + 1].second)
+  while (freqIndex + 1 < m_last && value > m_frequencies[freqIndex + 1].second)
   {
     --m_location[m_frequencies[freqIndex + 1].first];
     m_frequencies[freqIndex] = m_frequencies[freqIndex + 1];
-- 
2.43.0

