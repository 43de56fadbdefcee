From 7c1f1625f0efdce825b5124aea423c214ddd70d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:25 +0000
Subject: [PATCH 001/118] fix: report stray UTF-8 continuation bytes and F8-FF
 as invalid, not truncated

---
 repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp b/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
index 097ec1f..e6f4885 100644
--- a/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/string/TextEncoding.cpp
@@ -62,6 +62,8 @@ PLY_NO_INLINE DecodeResult UTF8::decodePointSlowPath(StringView view) {
         }
 
         default:
+            // Unexpected continuation byte, or a byte that never appears in UTF-8
+            result.status = DecodeResult::Status::Invalid;
             break;
     }
 
-- 
2.43.0


From 72a102dfcf62ca4388f2202fb80c138a7bcd1daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:11 +0000
Subject: [PATCH 002/118] fix: keep unread bytes when an input stream needs a
 new block to satisfy a look-ahead

---
 .../src/runtime/ply-runtime/io/InStream.cpp   | 64 +++++++++++--------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
index ca9a764..3b05c48 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/InStream.cpp
@@ -77,25 +77,27 @@ PLY_NO_INLINE u32 InStream::tryMakeBytesAvailableInternal(u32 numRequestedBytes)
         if (numBytesNeededToCompleteRequest <= numUnreadBytesInCurrentBlock)
             break; // Current block has enough data to fulfill the remainder of the request.
 
-        if (this->block->nextBlock) {
-            // Another block follows this one in the list, and we already know, from the previous
-            // check, that this block doesn't contain enough unread data to fulfill the rest of the
-            // request.
-            PLY_ASSERT(numUnreadBytesInCurrentBlock < numBytesNeededToCompleteRequest);
-            if (numUnreadBytesInCurrentBlock > 0) {
-                // Copy unread data to overlayBlock (creating overlayBlock first, if needed).
-                if (!overlayBlock) {
-                    PLY_ASSERT(numBytesNeededToCompleteRequest == numRequestedBytes);
-                    overlayBlock = BlockList::createOverlayBlock({this->block, this->block->bytes},
-                                                                 numRequestedBytes);
-                }
-                if (overlayBlock) {
-                    memcpy(overlayBlock->bytes + numRequestedBytes -
-                               numBytesNeededToCompleteRequest,
-                           this->curByte, numUnreadBytesInCurrentBlock);
-                }
-                numBytesNeededToCompleteRequest -= numUnreadBytesInCurrentBlock;
+        // This block doesn't contain enough unread data to fulfill the rest of the request. If it
+        // can't be extended, either because another block already follows it or because it doesn't
+        // have enough storage, copy its unread data to overlayBlock (creating overlayBlock first,
+        // if needed).
+        bool needNewBlock = !this->block->nextBlock &&
+                            safeDemote<u32>(this->block->end() - this->curByte) <
+                                numBytesNeededToCompleteRequest;
+        bool keepBlock = numUnreadBytesInCurrentBlock > 0;
+        if ((this->block->nextBlock || needNewBlock) && keepBlock) {
+            if (!overlayBlock) {
+                PLY_ASSERT(numBytesNeededToCompleteRequest == numRequestedBytes);
+                overlayBlock = BlockList::createOverlayBlock(
+                    {this->block, const_cast<char*>(this->curByte)},
+                    max(numRequestedBytes, this->getBlockSize()));
             }
+            memcpy(overlayBlock->unused(), this->curByte, numUnreadBytesInCurrentBlock);
+            overlayBlock->numBytesUsed += numUnreadBytesInCurrentBlock;
+            numBytesNeededToCompleteRequest -= numUnreadBytesInCurrentBlock;
+        }
+
+        if (this->block->nextBlock) {
             // Advance to next block.
             BlockList::Footer* nextBlock = this->block->nextBlock;
             u32 offsetIntoNextBlock =
@@ -106,10 +108,15 @@ PLY_NO_INLINE u32 InStream::tryMakeBytesAvailableInternal(u32 numRequestedBytes)
             this->curByte = nextBlock->bytes + offsetIntoNextBlock;
             this->endByte = nextBlock->bytes + nextBlock->numBytesUsed;
         } else {
-            u32 unreadStorageInCurrentBlock = safeDemote<u32>(this->block->end() - this->curByte);
-            if (unreadStorageInCurrentBlock < numBytesNeededToCompleteRequest) {
-                // Append a new block
-                BlockList::appendBlockWithRecycle(this->block, max(numBytesNeededToCompleteRequest, this->getBlockSize()));
+            if (needNewBlock) {
+                // Append a new block. The current block can't be recycled if it still contains
+                // unread data.
+                u32 blockSize = max(numBytesNeededToCompleteRequest, this->getBlockSize());
+                if (keepBlock) {
+                    this->block = BlockList::appendBlock(this->block, blockSize);
+                } else {
+                    BlockList::appendBlockWithRecycle(this->block, blockSize);
+                }
                 this->curByte = this->block->bytes;
                 this->endByte = this->block->bytes; // nothing written to this block yet
             }
@@ -147,11 +154,14 @@ PLY_NO_INLINE u32 InStream::tryMakeBytesAvailableInternal(u32 numRequestedBytes)
     // If we created a overlayBlock, finish copying data to it now, and expose the overlayBlock to
     // the caller.
     if (overlayBlock) {
-        PLY_ASSERT(numBytesNeededToCompleteRequest > 0);
-        memcpy(overlayBlock->bytes + numRequestedBytes - numBytesNeededToCompleteRequest,
-               this->curByte, numBytesNeededToCompleteRequest);
-        this->curByte = overlayBlock->bytes;
-        this->endByte = overlayBlock->bytes + numBytesToReturn;
+        u32 numBytesToCopy = min(numBytesNeededToCompleteRequest, numBytesAvailableToReadInBlock);
+        memcpy(overlayBlock->unused(), this->curByte, numBytesToCopy);
+        overlayBlock->numBytesUsed += numBytesToCopy;
+        overlayBlock->nextBlock = this->block;
+        this->block = std::move(overlayBlock);
+        this->curByte = this->block->bytes;
+        this->endByte = this->block->unused();
+        return this->block->numBytesUsed;
     }
 
     return numBytesToReturn;
-- 
2.43.0


From da64e4bbdc526ee142d911764b8201e012239a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:51 +0000
Subject: [PATCH 003/118] fix: stop block list iteration at an end position
 inside a block

---
 .../ply-runtime/container/BlockList.cpp       |  3 ++-
 .../runtime/ply-runtime/container/BlockList.h | 23 +++++++++++++++----
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
index f505e16..b5943fe 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.cpp
@@ -113,7 +113,8 @@ PLY_NO_INLINE String BlockList::toString(Ref&& start, const WeakRef& end) {
 
     // Check for special case: When there is only one block and only one reference to the block,
     // we can truncate this block and return it as a String directly.
-    if (!start.block->nextBlock && start.block->refCount == 1 && start.block->bytes == start.byte) {
+    if (!end.block && !start.block->nextBlock && start.block->refCount == 1 &&
+        start.block->bytes == start.byte) {
         u32 numBytes = start.block->numBytesUsed;
         char* bytes = (char*) PLY_HEAP.realloc(start.byte, numBytes);
         String result = String::adopt(bytes, numBytes);
diff --git a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
index f002996..6ef79d9 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/BlockList.h
@@ -152,17 +152,30 @@ struct BlockList {
         PLY_INLINE RangeForIterator& end() {
             return *this;
         }
+        // Adjacent blocks can overlap, so endPos isn't necessarily reached in endPos.block itself.
+        PLY_INLINE u64 getEndOffset() const {
+            return this->endPos.block->fileOffset +
+                   safeDemote<u64>(this->endPos.byte - this->endPos.block->bytes);
+        }
+        PLY_INLINE bool reachesEnd() const {
+            return this->endPos.block &&
+                   (this->curPos.block->fileOffset + this->curPos.block->numBytesUsed >=
+                    this->getEndOffset());
+        }
         PLY_INLINE void operator++() {
-            this->curPos = this->curPos.block->weakRefToNext();
+            this->curPos =
+                this->reachesEnd() ? this->endPos : this->curPos.block->weakRefToNext();
         }
         PLY_INLINE bool operator!=(const RangeForIterator&) const {
             return this->curPos != this->endPos;
         }
         PLY_INLINE StringView operator*() const {
-            return StringView::fromRange(this->curPos.byte,
-                                         (this->curPos.block == this->endPos.block)
-                                             ? this->endPos.byte
-                                             : this->curPos.block->unused());
+            const char* viewEnd = this->curPos.block->unused();
+            if (this->reachesEnd()) {
+                viewEnd = this->curPos.block->bytes +
+                          (this->getEndOffset() - this->curPos.block->fileOffset);
+            }
+            return StringView::fromRange(this->curPos.byte, viewEnd);
         }
     };
 
-- 
2.43.0


From f015fec1749cbdff91043df15384f5f15848c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 004/118] fix: output streams survive and report a failing
 destination

---
 repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp b/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
index 85938ed..40dd2d0 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/OutStream.cpp
@@ -60,7 +60,8 @@ PLY_NO_INLINE bool OutStream::flushInternal() {
         return true;
 
     // this->block->numBytesUsed is the last flushed offset
-    PLY_ASSERT(this->endByte == this->block->bytes + this->block->blockSize);
+    // endByte comes before the end of the block if a previous write failed
+    PLY_ASSERT(this->endByte == this->block->end() || this->status.eof);
     u32 newWritePos = safeDemote<u32>(this->curByte - this->block->bytes);
     PLY_ASSERT(newWritePos >= this->block->numBytesUsed);
     PLY_ASSERT(newWritePos <= this->block->blockSize);
@@ -78,9 +79,8 @@ PLY_NO_INLINE bool OutStream::flushInternal() {
 }
 
 PLY_NO_INLINE bool OutStream::flush(bool toDevice) {
-    this->flushInternal();
-    bool rc = true;
-    if (this->status.type == (u32) Type::Pipe) {
+    bool rc = this->flushInternal();
+    if (rc && this->status.type == (u32) Type::Pipe) {
         rc = this->outPipe->flush(toDevice);
     }
     return rc;
-- 
2.43.0


From 45b684ec961c0392f7b30b6fe63375c23a0b7877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 005/118] fix: a failing read ends a descriptor pipe instead of
 asserting

---
 repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
index 8913365..5c30aa7 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
@@ -27,7 +27,6 @@ PLY_NO_INLINE u32 InPipe_FD_readSome(InPipe* inPipe_, MutableStringView buf) {
     do {
         rc = (s32)::read(inPipe->fd, buf.bytes, buf.numBytes);
     } while (rc == -1 && errno == EINTR);
-    PLY_ASSERT(rc >= 0); // Note: Will probably need to detect closed pipes here
     if (rc < 0)
         return 0;
     return rc;
-- 
2.43.0


From 2b07a5d663aecb35a1e7d2a61e24060ca44f6cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 006/118] fix: retry interrupted writes to a descriptor pipe

---
 repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
index 5c30aa7..5d7a66b 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/Pipe_FD.cpp
@@ -65,6 +65,8 @@ PLY_NO_INLINE bool OutPipe_FD_write(OutPipe* outPipe_, StringView buf) {
     PLY_ASSERT(outPipe->fd >= 0);
     while (buf.numBytes > 0) {
         s32 sent = (s32)::write(outPipe->fd, buf.bytes, buf.numBytes);
+        if (sent == -1 && errno == EINTR)
+            continue;
         if (sent <= 0)
             return false;
         PLY_ASSERT((u32) sent <= buf.numBytes);
-- 
2.43.0


From 11aed2d2d1a0ddc8ac2c74c78d9b1af88fc7b8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:11 +0000
Subject: [PATCH 007/118] fix: text converter keeps each piece of a character
 that arrives in more than two pieces

---
 .../src/runtime/ply-runtime/io/text/TextConverter.cpp      | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
index 2c0fdf2..0ef7896 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
@@ -62,9 +62,12 @@ PLY_NO_INLINE bool TextConverter::convert(MutableStringView* dstBuf, StringView*
             PLY_ASSERT(this->srcSmallBuf.numBytes < 4); // Sanity check
             PLY_ASSERT((decoded.point >= 0) == (decoded.numBytes > 0));
             // If flush is true and there's an (invalid) point to consume, we'll consume it below.
-            // Otherwise, don't consume anything and return from here:
-            if (!(flush && decoded.point >= 0))
+            // Otherwise, keep the input for later and return from here:
+            if (!(flush && decoded.point >= 0)) {
+                this->srcSmallBuf.numBytes += numCopiedFromSrc;
+                srcBuf->offsetHead(numCopiedFromSrc);
                 return wroteAnything;
+            }
         }
         PLY_ASSERT((decoded.point >= 0) && (decoded.numBytes > 0));
 
-- 
2.43.0


From 44f4919ae7936306d987a16435db706f0ca7c9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:28 +0000
Subject: [PATCH 008/118] fix: text converter ignores an incomplete code unit
 at the end instead of asserting

---
 .../src/runtime/ply-runtime/io/text/TextConverter.cpp       | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
index 0ef7896..10e5a9c 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/TextConverter.cpp
@@ -180,11 +180,9 @@ PLY_NO_INLINE u32 TextConverter::readFrom(InStream* ins, MutableStringView* dstB
         // If anything was written, stop.
         if (numBytesWritten > 0)
             break;
-        // If input was exhausted, stop.
-        if (flush) {
-            PLY_ASSERT(ins->numBytesAvailable() == 0);
+        // If input was exhausted, stop. An incomplete code unit may remain at the end.
+        if (flush)
             break;
-        }
     }
     return totalBytesWritten;
 }
-- 
2.43.0


From 48fa1497d829409f2649b0c59ddc211f2bfc00c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 009/118] fix: convert text written in 8-bit format

---
 repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp
index c48091d..bf05f9f 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/TextFormat.cpp
@@ -268,7 +268,9 @@ PLY_NO_INLINE Owned<OutStream> TextFormat::createExporter(OptionallyOwned<OutStr
     OptionallyOwned<OutStream> exporter = std::move(outs);
 
     switch (this->encoding) {
-        case TextFormat::Encoding::Bytes: { // FIXME: Bytes needs to be converted
+        case TextFormat::Encoding::Bytes: {
+            exporter = Owned<OutStream>::create(Owned<OutPipe_TextConverter>::create(
+                std::move(exporter), TextEncoding::get<Enc_Bytes>(), TextEncoding::get<UTF8>()));
             break;
         }
 
-- 
2.43.0


From 9f7d517cdeb54726b55e64db2a0cfde6997aa6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:23 +0000
Subject: [PATCH 010/118] fix: negate the most negative 64-bit value without
 signed overflow

---
 repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp | 2 +-
 repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
index fa6aa5c..8bfe2a5 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
@@ -43,7 +43,7 @@ PLY_NO_INLINE void printString(OutStream* outs, s64 value, u32 radix, bool capit
         printString(outs, (u64) value, radix, capitalize);
     } else {
         outs->writeByte('-');
-        printString(outs, (u64) -value, radix, capitalize);
+        printString(outs, 0 - (u64) value, radix, capitalize);
     }
 }
 
diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index b3bb437..51ebf19 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -123,7 +123,7 @@ PLY_NO_INLINE s64 fmt::TypeParser<s64>::parse(InStream* ins, Radix radix) {
 
     u64 unsignedComponent = fmt::TypeParser<u64>::parse(ins, radix);
     if (negate) {
-        s64 result = -(s64) unsignedComponent;
+        s64 result = (s64) (0 - unsignedComponent);
         if (result > 0) {
             ins->status.parseError = 1;
         }
-- 
2.43.0


From a86749f38780dc2419c83d594494093fc4ba0976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:35 +0000
Subject: [PATCH 011/118] fix: Array::eraseQuick with fewer than count items
 behind the gap

---
 repos/plywood/src/runtime/ply-runtime/container/Array.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Array.h b/repos/plywood/src/runtime/ply-runtime/container/Array.h
index 421a2dd..66be27a 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Array.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Array.h
@@ -487,9 +487,11 @@ public:
     PLY_NO_INLINE void eraseQuick(u32 pos, u32 count) {
         PLY_ASSERT(pos + count <= this->numItems_);
         subst::destructArray(this->items + pos, count);
+        // There may be fewer than count items left to move.
+        u32 numToMove = min(count, this->numItems_ - (pos + count));
         memmove(static_cast<void*>(this->items + pos),
-                static_cast<const void*>(this->items + this->numItems_ - count),
-                count * sizeof(T)); // Underlying type is relocatable
+                static_cast<const void*>(this->items + this->numItems_ - numToMove),
+                numToMove * sizeof(T)); // Underlying type is relocatable
         this->numItems_ -= count;
     }
     /*!
-- 
2.43.0


From 324d659042809100a51c2a6fc88f8318c582ac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:35 +0000
Subject: [PATCH 012/118] fix: FixedArray's list constructor constructed its
 items twice

---
 repos/plywood/src/runtime/ply-runtime/container/FixedArray.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/FixedArray.h b/repos/plywood/src/runtime/ply-runtime/container/FixedArray.h
index fb71ad0..8c9d8b8 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/FixedArray.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/FixedArray.h
@@ -36,7 +36,10 @@ struct FixedArray {
 
     PLY_INLINE FixedArray(InitList<T> args) {
         PLY_ASSERT(Size == args.size());
-        subst::constructArrayFrom(this->items, args.begin(), Size);
+        // The items are already constructed.
+        for (u32 i = 0; i < Size; i++) {
+            this->items[i] = args.begin()[i];
+        }
     }
 
     template <typename... Args>
-- 
2.43.0


From e9a870b6b908dbe22a461836e38c7cc5185579de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:14 +0000
Subject: [PATCH 013/118] fix: Sequence::truncate destructs the items it drops

---
 .../plywood/src/runtime/ply-runtime/container/Sequence.cpp | 7 ++++++-
 repos/plywood/src/runtime/ply-runtime/container/Sequence.h | 5 +++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Sequence.cpp b/repos/plywood/src/runtime/ply-runtime/container/Sequence.cpp
index 8781daf..4136823 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Sequence.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/Sequence.cpp
@@ -49,7 +49,12 @@ PLY_NO_INLINE void popTail(BlockList::Footer** tail, u32 numBytes, void (*destru
     }
 }
 
-PLY_NO_INLINE void truncate(BlockList::Footer** tail, const BlockList::WeakRef& to) {
+PLY_NO_INLINE void truncate(BlockList::Footer** tail, const BlockList::WeakRef& to,
+                            void (*destructViewAs)(StringView)) {
+    destructViewAs(StringView::fromRange(to.byte, to.block->unused()));
+    for (BlockList::Footer* block = to.block->nextBlock; block; block = block->nextBlock) {
+        destructViewAs(block->viewUsedBytes());
+    }
     if (to.byte == to.block->start() && to.block->prevBlock) {
         *tail = to.block->prevBlock;
     } else  {
diff --git a/repos/plywood/src/runtime/ply-runtime/container/Sequence.h b/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
index 4695305..26939b2 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
@@ -14,7 +14,8 @@ PLY_DLL_ENTRY void destructSequence(Reference<BlockList::Footer>* headRef,
 PLY_DLL_ENTRY void beginWriteInternal(BlockList::Footer** tail, u32 numBytes);
 PLY_DLL_ENTRY void popTail(BlockList::Footer** tail, u32 numBytes,
                            void (*destructViewAs)(StringView));
-PLY_DLL_ENTRY void truncate(BlockList::Footer** tail, const BlockList::WeakRef& to);
+PLY_DLL_ENTRY void truncate(BlockList::Footer** tail, const BlockList::WeakRef& to,
+                            void (*destructViewAs)(StringView));
 PLY_DLL_ENTRY u32 getTotalNumBytes(BlockList::Footer* head);
 PLY_DLL_ENTRY char* read(BlockList::WeakRef* weakRef, u32 itemSize);
 } // namespace details
@@ -267,7 +268,7 @@ public:
         details::popTail(&this->tailBlock, numItems * (u32) sizeof(T), subst::destructViewAs<T>);
     }
     PLY_INLINE void truncate(const WeakSequenceRef<T>& to) {
-        details::truncate(&this->tailBlock, to.impl);
+        details::truncate(&this->tailBlock, to.impl, subst::destructViewAs<T>);
     }
 
     /*!
-- 
2.43.0


From 16ec41511fc554a4a556f9124cde71451e5cc0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:01 +0000
Subject: [PATCH 014/118] fix: Sequence of items larger than a block was
 considered empty

---
 repos/plywood/src/runtime/ply-runtime/container/Sequence.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Sequence.h b/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
index 26939b2..bb07578 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Sequence.h
@@ -126,7 +126,9 @@ public:
 
         Sequence<String> list;
     */
-    PLY_INLINE Sequence() : headBlock{BlockList::createBlock()}, tailBlock{headBlock} {
+    PLY_INLINE Sequence()
+        : headBlock{BlockList::createBlock(max(BlockList::DefaultBlockSize, (u32) sizeof(T)))},
+          tailBlock{headBlock} {
     }
 
     /*!
-- 
2.43.0


From fbb10d73fe4caf78a3d864b350bca112281df1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:07 +0000
Subject: [PATCH 015/118] fix: HashMap erase looked for the next item of a
 chain in the wrong cell group

---
 repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp b/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
index 2fa0408..ae7131e 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
@@ -299,7 +299,8 @@ PLY_NO_INLINE void HashMap::erase(FindInfo* info, const Callbacks* cb, u8*& link
             break;
         }
         u32 nextIdx = idx + *curLink;
-        CellGroup* nextGroup = m_cellGroups + ((nextIdx & m_sizeMask) >> 2);
+        CellGroup* nextGroup = (CellGroup*) PLY_PTR_OFFSET(
+            m_cellGroups, cellGroupSize * ((nextIdx & m_sizeMask) >> 2));
         if (prevLink) {
             u32 prevIdx = idx - *prevLink;
             if (nextIdx - prevIdx < 256) {
-- 
2.43.0


From 9ff5cf412fa354ee6d1a719d92109aefb4b663a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:11 +0000
Subject: [PATCH 016/118] fix: HashMap erase could write a link that marks the
 cell as empty

---
 repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp b/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
index ae7131e..4919a45 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/container/HashMap.cpp
@@ -303,7 +303,7 @@ PLY_NO_INLINE void HashMap::erase(FindInfo* info, const Callbacks* cb, u8*& link
             m_cellGroups, cellGroupSize * ((nextIdx & m_sizeMask) >> 2));
         if (prevLink) {
             u32 prevIdx = idx - *prevLink;
-            if (nextIdx - prevIdx < 256) {
+            if (nextIdx - prevIdx < EmptySlot) {
                 // Just redirect the previous link
                 cb->destruct(PLY_PTR_OFFSET(curGroup + 1, cb->itemSize * (idx & 3)));
                 *curLink = EmptySlot;
-- 
2.43.0


From 9f74e758123559088dfbb4565c46e1221be81a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:38 +0000
Subject: [PATCH 017/118] fix: assigning a String to itself used its memory
 after freeing it

---
 repos/plywood/src/runtime/ply-runtime/string/String.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/string/String.h b/repos/plywood/src/runtime/ply-runtime/string/String.h
index a42cd5c..ee5c832 100644
--- a/repos/plywood/src/runtime/ply-runtime/string/String.h
+++ b/repos/plywood/src/runtime/ply-runtime/string/String.h
@@ -110,8 +110,10 @@ struct String : StringMixin<String> {
     is reset to an empty string.
     */
     PLY_INLINE void operator=(const String& other) {
-        this->~String();
-        new (this) String{other.view()};
+        if (this != &other) {
+            this->~String();
+            new (this) String{other.view()};
+        }
     }
     PLY_INLINE void operator=(String&& other) {
         this->~String();
-- 
2.43.0


From 9fa7f3b8a8af1f670e15acb6897c7c8b1ce16085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:38 +0000
Subject: [PATCH 018/118] fix: assigning a HybridString to itself used its
 memory after freeing it

---
 repos/plywood/src/runtime/ply-runtime/string/String.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/string/String.h b/repos/plywood/src/runtime/ply-runtime/string/String.h
index ee5c832..092741a 100644
--- a/repos/plywood/src/runtime/ply-runtime/string/String.h
+++ b/repos/plywood/src/runtime/ply-runtime/string/String.h
@@ -393,8 +393,10 @@ struct HybridString : StringMixin<HybridString> {
     Copy assignment operator.
     */
     PLY_INLINE void operator=(const HybridString& other) {
-        this->~HybridString();
-        new (this) HybridString(other);
+        if (this != &other) {
+            this->~HybridString();
+            new (this) HybridString(other);
+        }
     }
 
     /*!
-- 
2.43.0


From a8c43b359553e70ef6229a3888216952884d538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:38 +0000
Subject: [PATCH 019/118] fix: Functor did not destroy the callable it holds

---
 repos/plywood/src/runtime/ply-runtime/container/Functor.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Functor.h b/repos/plywood/src/runtime/ply-runtime/container/Functor.h
index 6ce6846..5018a5f 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Functor.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Functor.h
@@ -15,6 +15,7 @@ struct Functor<Return(Args...)> {
 private:
     struct BaseWrapper {
         Return (*thunk)(BaseWrapper* wrapper, Args... args) = nullptr;
+        void (*destroy)(BaseWrapper* wrapper) = nullptr;
     };
 
     template <typename Callable>
@@ -24,9 +25,12 @@ private:
         static PLY_NO_INLINE Return thunk(BaseWrapper* wrapper, Args... args) {
             return static_cast<Wrapper*>(wrapper)->callable(std::forward<Args>(args)...);
         }
+        static PLY_NO_INLINE void destroyThunk(BaseWrapper* wrapper) {
+            delete static_cast<Wrapper*>(wrapper);
+        }
         template <typename I>
         PLY_INLINE Wrapper(I&& callable)
-            : BaseWrapper{&thunk}, callable{std::forward<I>(callable)} {
+            : BaseWrapper{&thunk, &destroyThunk}, callable{std::forward<I>(callable)} {
         }
     };
 
@@ -44,7 +48,7 @@ public:
     }
     PLY_INLINE ~Functor() {
         if (this->wrapper) {
-            delete this->wrapper;
+            this->wrapper->destroy(this->wrapper);
         }
     }
     PLY_INLINE void operator=(Functor&& other) {
-- 
2.43.0


From ada67a99cdd4e0cde69b1ee34e8ef5ca953ce5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:38 +0000
Subject: [PATCH 020/118] fix: assigning to a Functor leaked what it held
 before

---
 repos/plywood/src/runtime/ply-runtime/container/Functor.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Functor.h b/repos/plywood/src/runtime/ply-runtime/container/Functor.h
index 5018a5f..d7f8602 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Functor.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Functor.h
@@ -52,8 +52,14 @@ public:
         }
     }
     PLY_INLINE void operator=(Functor&& other) {
+        BaseWrapper* oldWrapper = this->wrapper;
         this->wrapper = other.wrapper;
-        other.wrapper = nullptr;
+        if (this != &other) {
+            other.wrapper = nullptr;
+            if (oldWrapper) {
+                oldWrapper->destroy(oldWrapper);
+            }
+        }
     }
     PLY_INLINE bool isValid() const {
         return this->wrapper != nullptr;
-- 
2.43.0


From 868bbb0062d53ce64c0744066c354456b8d082ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:38 +0000
Subject: [PATCH 021/118] fix: moving a Reference onto itself, or out of the
 object that is let go

---
 .../src/runtime/ply-runtime/container/Reference.h     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Reference.h b/repos/plywood/src/runtime/ply-runtime/container/Reference.h
index 754a89c..d1c944b 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Reference.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Reference.h
@@ -113,10 +113,13 @@ public:
             oldPtr->decRef();
     }
     PLY_INLINE void operator=(Reference&& ref) {
-        if (this->ptr)
-            this->ptr->decRef();
-        this->ptr = ref.ptr;
-        ref.ptr = nullptr;
+        if (this != &ref) {
+            T* oldPtr = this->ptr;
+            this->ptr = ref.ptr;
+            ref.ptr = nullptr;
+            if (oldPtr)
+                oldPtr->decRef();
+        }
     }
     PLY_INLINE explicit operator bool() const {
         return this->ptr != nullptr;
-- 
2.43.0


From d34ad1952a67408919ffb8cd9c6a59cc12605495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:38 +0000
Subject: [PATCH 022/118] fix: moving a WeakRef onto itself dropped its
 reference

---
 .../src/runtime/ply-runtime/container/WeakRef.h       | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h b/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
index 6557abc..aaf829b 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/WeakRef.h
@@ -126,10 +126,13 @@ public:
     }
 
     void operator=(WeakRef&& ref) {
-        if (m_ptr)
-            m_ptr->decWeakRef();
-        m_ptr = ref.m_ptr;
-        ref.m_ptr = nullptr;
+        if (this != &ref) {
+            T* oldPtr = m_ptr;
+            m_ptr = ref.m_ptr;
+            ref.m_ptr = nullptr;
+            if (oldPtr)
+                oldPtr->decWeakRef();
+        }
     }
 };
 
-- 
2.43.0


From a8f17dee05182f5f1c31ecbac8c13a54d27eeb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:38 +0000
Subject: [PATCH 023/118] fix: moving an Owned out of the object that is let go
 read freed memory

---
 repos/plywood/src/runtime/ply-runtime/container/Owned.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Owned.h b/repos/plywood/src/runtime/ply-runtime/container/Owned.h
index da71b30..392ebde 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Owned.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Owned.h
@@ -65,8 +65,9 @@ public:
     }
     PLY_INLINE void operator=(Owned&& other) {
         PLY_ASSERT(!this->ptr || this->ptr != other.ptr);
-        subst::destroyByMember(this->ptr);
+        T* oldPtr = this->ptr;
         this->ptr = other.release();
+        subst::destroyByMember(oldPtr);
     }
     template <typename Derived,
               typename std::enable_if_t<std::is_base_of<T, Derived>::value, int> = 0>
-- 
2.43.0


From 163739d4510d90bc156dbb5273a07e3800c33e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:57 +0000
Subject: [PATCH 024/118] fix: assigning a switch to itself cleared it

---
 .../src/runtime/ply-runtime/container/Switch.h       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Switch.h b/repos/plywood/src/runtime/ply-runtime/container/Switch.h
index cc46da7..e8c5c7d 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Switch.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Switch.h
@@ -105,12 +105,16 @@ struct SwitchWrapper {
         idToType[ply::ureg(id)].construct(&storage); \
     } \
     PLY_INLINE void operator=(const ctrName& other) { \
-        switchTo(other.id); \
-        idToType[ply::ureg(id)].copy(&storage, &other.storage); \
+        if (this != &other) { \
+            switchTo(other.id); \
+            idToType[ply::ureg(id)].copy(&storage, &other.storage); \
+        } \
     } \
     PLY_INLINE void operator=(ctrName&& other) { \
-        switchTo(other.id); \
-        idToType[ply::ureg(id)].move(&storage, &other.storage); \
+        if (this != &other) { \
+            switchTo(other.id); \
+            idToType[ply::ureg(id)].move(&storage, &other.storage); \
+        } \
     }
 
 // We use partial specialization on TypeToID<> because of
-- 
2.43.0


From a37b1fa2251f43641b79062b58b866c1cfd5d032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:57 +0000
Subject: [PATCH 025/118] fix: an empty quoted string at the end of the input
 was a parse error

---
 repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index 51ebf19..f37d77b 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -259,6 +259,8 @@ String fmt::FormatParser<fmt::QuotedString>::parse(InStream* ins, const fmt::Quo
     bool multiline = false;
     for (;;) {
         if (!ins->tryMakeBytesAvailable()) {
+            if (!multiline && quoteRun == 2)
+                break; // empty string
             handleError(fmt::QuotedString::UnexpectedEndOfFile);
             break; // end of string
         }
-- 
2.43.0


From 2946615e454a2902f816c770e56ad6dec217895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:57 +0000
Subject: [PATCH 026/118] fix: a missing identifier was not a parse error when
 $ or - is allowed

---
 repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index f37d77b..c13550d 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -397,7 +397,7 @@ bool fmt::FormatParser<fmt::Identifier>::parse(InStream* ins, const fmt::Identif
         ins->advanceByte();
     }
 
-    if (mask[1] == 0) {
+    if (first) {
         ins->status.parseError = 1;
         return false;
     }
-- 
2.43.0


From f99121656d22e31e8f9372535809a57604233ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:57 +0000
Subject: [PATCH 027/118] fix: scanning missed a special text right after its
 own first letter

---
 repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
index c13550d..c6faf08 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/TypeParser.cpp
@@ -71,7 +71,7 @@ PLY_NO_INLINE bool fmt::scanUpToAndIncludingSpecial(InStream* ins, StringView sp
             if (matchedUnits >= special.numBytes)
                 return true;
         } else {
-            matchedUnits = 0;
+            matchedUnits = (c == (u8) special.bytes[0]) ? 1 : 0;
         }
     }
     // special wasn't found
-- 
2.43.0


From eb6c615bc026c904d7e74452419f3a02a78a6c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:57 +0000
Subject: [PATCH 028/118] fix: backslashes at the end of a quoted command line
 argument were dropped

---
 .../plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
index 8bfe2a5..fe3d765 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
@@ -322,6 +322,10 @@ fmt::TypePrinter<fmt::CmdLineArg_WinCrt>::print(OutStream* outs,
                 *outs << c;
             }
         }
+        // Backslashes before the closing quote must be doubled
+        for (; backslashCount > 0; backslashCount--) {
+            *outs << "\\\\";
+        }
         *outs << '"';
     } else {
         *outs << value.view;
-- 
2.43.0


From 79ca63da7830c4532a1abcdc93b5de88cb36921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:57 +0000
Subject: [PATCH 029/118] fix: an empty command line argument disappeared

---
 repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
index fe3d765..e3edfab 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
@@ -295,7 +295,7 @@ PLY_NO_INLINE void fmt::TypePrinter<fmt::XMLEscape>::print(OutStream* outs, cons
 PLY_NO_INLINE void
 fmt::TypePrinter<fmt::CmdLineArg_WinCrt>::print(OutStream* outs,
                                                 const fmt::CmdLineArg_WinCrt& value) {
-    bool needsQuote = false;
+    bool needsQuote = value.view.isEmpty();
     const char* end = value.view.end();
     for (const char* cur = value.view.bytes; cur < end; cur++) {
         if (isWhite(*cur) || *cur == '"') {
-- 
2.43.0


From f079773dd46eb6597ead9a3dfba38bf73bfc053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:18 +0000
Subject: [PATCH 030/118] fix: rfind in an empty array failed an assertion

---
 repos/plywood/src/runtime/ply-runtime/algorithm/Find.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/algorithm/Find.h b/repos/plywood/src/runtime/ply-runtime/algorithm/Find.h
index f0c85e0..2bfe701 100644
--- a/repos/plywood/src/runtime/ply-runtime/algorithm/Find.h
+++ b/repos/plywood/src/runtime/ply-runtime/algorithm/Find.h
@@ -38,7 +38,7 @@ PLY_INLINE s32 find(const Arr& arr, const Arg& arg) {
 // rfind
 template <typename T, typename U, std::enable_if_t<IsComparable<T, U>, int> = 0>
 PLY_INLINE s32 rfind(ArrayView<const T> arr, const U& item) {
-    for (s32 i = safeDemote<s32>(arr.numItems - 1); i >= 0; i--) {
+    for (s32 i = safeDemote<s32>(arr.numItems) - 1; i >= 0; i--) {
         if (arr[i] == item)
             return i;
     }
@@ -47,7 +47,7 @@ PLY_INLINE s32 rfind(ArrayView<const T> arr, const U& item) {
 
 template <typename T, typename Callback, std::enable_if_t<IsCallable<Callback, T>, int> = 0>
 PLY_INLINE s32 rfind(ArrayView<const T> arr, const Callback& callback) {
-    for (s32 i = safeDemote<s32>(arr.numItems - 1); i >= 0; i--) {
+    for (s32 i = safeDemote<s32>(arr.numItems) - 1; i >= 0; i--) {
         if (callback(arr[i]))
             return i;
     }
-- 
2.43.0


From a6bf2b10915461b103e92c635c83dfdf70832fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:18 +0000
Subject: [PATCH 031/118] fix: Numeric::cast took a change of sign for a
 precise conversion

---
 repos/plywood/src/runtime/ply-runtime/container/Numeric.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/container/Numeric.h b/repos/plywood/src/runtime/ply-runtime/container/Numeric.h
index 6e6f398..c0f66d9 100644
--- a/repos/plywood/src/runtime/ply-runtime/container/Numeric.h
+++ b/repos/plywood/src/runtime/ply-runtime/container/Numeric.h
@@ -75,11 +75,11 @@ struct Numeric {
         switch (type) {
             case U64:
                 result = (T) repU64;
-                precise = ((u64) result == repU64);
+                precise = ((u64) result == repU64) && !(result < 0);
                 break;
             case S64:
                 result = (T) repS64;
-                precise = ((s64) result == repS64);
+                precise = ((s64) result == repS64) && ((result < 0) == (repS64 < 0));
                 break;
             case Double:
                 result = (T) repDouble;
-- 
2.43.0


From 32feb8e007a408b57d7b283893442788d32e5c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:20 +0000
Subject: [PATCH 032/118] fix: keep roots, drive letters and repeated '..' when
 normalizing paths

---
 .../src/runtime/ply-runtime/filesystem/Path.cpp    | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
index 1a11c52..b9df65a 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
@@ -153,17 +153,21 @@ struct PathCompIterator {
     PLY_NO_INLINE Array<StringView> getNormalizedComps(const PathFormat* pathFmt,
                                                        ArrayView<const StringView> components) {
         Array<StringView> normComps;
-        u32 upCount = 0;
+        // Leading components that ".." cannot collapse: a root, or a drive letter and/or ".."s
+        u32 fixedCount = 0;
         this->iterateOver(pathFmt, components, [&](StringView comp) { //
             if (comp == "..") {
-                if (normComps.numItems() > upCount) {
+                if (normComps.numItems() > fixedCount) {
                     normComps.pop();
-                } else {
-                    PLY_ASSERT(normComps.numItems() == upCount);
+                } else if (normComps.isEmpty() || !pathFmt->isSepByte(normComps[0].back())) {
                     normComps.append("..");
-                }
+                    fixedCount++;
+                } // Otherwise, the parent of the root is the root
             } else if (comp != "." && !comp.isEmpty()) {
                 normComps.append(comp);
+                if (comp.bytes == this->firstComp || pathFmt->isSepByte(comp[0])) {
+                    fixedCount = 1; // Drive letter and/or root
+                }
             }
         });
         return normComps;
-- 
2.43.0


From f3183cf479a1fed9bc44c25b0a0ceb941d756945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:20 +0000
Subject: [PATCH 033/118] fix: normalizing a drive-relative path must not make
 it absolute

---
 repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
index b9df65a..8445b83 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
@@ -191,7 +191,9 @@ PLY_NO_INLINE String PathFormat::joinAndNormalize(ArrayView<const StringView> co
                 mout << this->sepByte();
             } else {
                 if (comp.numBytes > 0) {
-                    needSep = !this->isSepByte(comp[comp.numBytes - 1]);
+                    // A separator after a lone drive letter would make the path absolute
+                    needSep =
+                        !this->isSepByte(comp[comp.numBytes - 1]) && comp.bytes != compIter.firstComp;
                 }
             }
             mout << comp;
-- 
2.43.0


From 2fda556d3c7c9487c958972f88783a948265dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:20 +0000
Subject: [PATCH 034/118] fix: keep the trailing separator when a path
 normalizes to '.'

---
 repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
index 8445b83..2f9b139 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
@@ -178,7 +178,8 @@ PLY_NO_INLINE String PathFormat::joinAndNormalize(ArrayView<const StringView> co
     PathCompIterator compIter;
     Array<StringView> normComps = compIter.getNormalizedComps(this, components);
     if (normComps.isEmpty()) {
-        if (components.numItems > 0 && components.back().isEmpty()) {
+        if (components.numItems > 0 &&
+            (components.back().isEmpty() || this->isSepByte(components.back().back()))) {
             return StringView{"."} + this->sepByte();
         } else {
             return ".";
-- 
2.43.0


From ab20016f578e09ca1053ff6803865a2ae4c880e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:20 +0000
Subject: [PATCH 035/118] fix: PathFormat::splitExt must ignore every leading
 period

---
 repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
index 2f9b139..4179059 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
@@ -79,7 +79,8 @@ PLY_DLL_ENTRY Tuple<StringView, StringView> PathFormat::splitExt(StringView path
         lastComp = lastComp.subStr(slashPos + 1);
     }
     s32 dotPos = lastComp.rfindByte([](u32 c) { return c == '.'; });
-    if (dotPos < 0 || dotPos == 0) {
+    s32 nonDotPos = lastComp.findByte([](u32 c) { return c != '.'; });
+    if (nonDotPos < 0 || dotPos < nonDotPos) {
         dotPos = lastComp.numBytes;
     }
     return {path.shortenedBy(lastComp.numBytes - dotPos), lastComp.subStr(dotPos)};
-- 
2.43.0


From 9d9a563f1a6b04efd9e0e887c24cdca35bf43f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:20 +0000
Subject: [PATCH 036/118] fix: WindowsPath::from<WindowsPath> must convert
 forward slashes

---
 repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
index 4179059..e095b7f 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/Path.cpp
@@ -266,7 +266,7 @@ PLY_NO_INLINE String PathFormat::makeRelative(StringView ancestor, StringView de
 }
 
 PLY_NO_INLINE HybridString PathFormat::from(const PathFormat& srcFormat, StringView srcPath) const {
-    if (this->isWindows == srcFormat.isWindows)
+    if (!this->isWindows && !srcFormat.isWindows)
         return srcPath;
     String result = srcPath;
     char* bytes = result.bytes;
-- 
2.43.0


From 448f542a2799a5a95036d2ee48bb98a2fe302157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:04 +0000
Subject: [PATCH 037/118] fix: FileLocationMap mislocated text after a
 character that straddles a chunk

---
 .../src/runtime/ply-runtime/io/text/FileLocationMap.cpp        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
index 7371f75..6209901 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
@@ -26,7 +26,8 @@ FileLocationMap FileLocationMap::fromView(StringView src) {
         DecodeResult decoded = UTF8::decodePoint(src);
         u32 nextOfs = ofs + decoded.numBytes;
         if (nextOfs > nextChunkOfs) {
-            result.table.append({lineNumber, nextChunkOfs - lineStartOfs, columnNumber, ofs - 256});
+            result.table.append({lineNumber, nextChunkOfs - lineStartOfs, columnNumber,
+                                 nextChunkOfs - ofs});
             nextChunkOfs += 256;
         }
         ofs = nextOfs;
-- 
2.43.0


From c0b8684e63efa221a6324421c39e315ea3396e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:04 +0000
Subject: [PATCH 038/118] fix: FileLocationMap read past its table at the end
 of a file of whole chunks

---
 .../src/runtime/ply-runtime/io/text/FileLocationMap.cpp       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
index 6209901..8441a1d 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
@@ -45,6 +45,10 @@ FileLocationMap FileLocationMap::fromView(StringView src) {
             columnNumber++;
         }
     }
+    if (ofs == nextChunkOfs) {
+        // Make it possible to locate the end of the file
+        result.table.append({lineNumber, ofs - lineStartOfs, columnNumber, 0});
+    }
     return result;
 }
 
-- 
2.43.0


From c511f57b44e21cc7d03b24ec7fbe80ac52f29a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:04 +0000
Subject: [PATCH 039/118] fix: FileLocationMap asserted on offsets inside a
 multibyte character

---
 .../src/runtime/ply-runtime/io/text/FileLocationMap.cpp     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
index 8441a1d..7072327 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/FileLocationMap.cpp
@@ -64,13 +64,13 @@ FileLocation FileLocationMap::getFileLocation(u32 offset) const {
     u32 columnNumber = fileLoc.columnNumber;
 
     for (;;) {
-        if (src.bytes >= target) {
+        // FIXME: Unify with similar code in previous function
+        DecodeResult decoded = UTF8::decodePoint(src);
+        if (src.bytes + decoded.numBytes > target || src.numBytes == 0) {
             u32 nb = safeDemote<u32>(target - src.bytes);
             return {lineNumber, safeDemote<u32>(target - lineStart), columnNumber, nb};
         }
 
-        // FIXME: Unify with similar code in previous function
-        DecodeResult decoded = UTF8::decodePoint(src);
         src.offsetHead(decoded.numBytes);
 
         if (decoded.point == '\n') {
-- 
2.43.0


From 4f6c07d27c65656f159d86ade5122038e57880cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:30 +0000
Subject: [PATCH 040/118] fix: extractLiquidTags duplicated the character after
 a '%' inside a tag

---
 repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp
index 41abf82..a8ee43e 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp
@@ -56,7 +56,6 @@ PLY_NO_INLINE void extractLiquidTags(OutStream* outs, ViewInStream* vins,
                             break;
                         } else {
                             mout.writeByte(unit);
-                            mout.writeByte(*vins->curByte);
                         }
                     } else {
                         mout.writeByte(unit);
-- 
2.43.0


From af9bfd75a3a26e0bb53972ef0c29b4ce65300dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:30 +0000
Subject: [PATCH 041/118] fix: extractLiquidTags missed a tag that immediately
 follows '<'

---
 repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp b/repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp
index a8ee43e..c3f1d97 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/text/LiquidTags.cpp
@@ -73,10 +73,8 @@ PLY_NO_INLINE void extractLiquidTags(OutStream* outs, ViewInStream* vins,
                     return;
                 }
             } else {
+                // Not a tag; the next byte could still start one
                 outs->writeByte(unit);
-                outs->writeByte(*vins->curByte);
-                if (!advanceByte())
-                    return; // EOF
             }
         } else {
             outs->writeByte(unit);
-- 
2.43.0


From 385dc87e62fa9cf66c840d200f85583ecd002707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:30 +0000
Subject: [PATCH 042/118] fix: pylon::Parser dropped the last character of a
 document ending in a word

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index d4542b6..f453e45 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -55,6 +55,7 @@ void Parser::advanceChar() {
         readOfs++;
         nextUnit = srcView.bytes[readOfs];
     } else {
+        readOfs = srcView.numBytes;
         nextUnit = -1;
     }
 }
-- 
2.43.0


From 11f77abd460fb676f0193304099a4aaa481e2255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:30 +0000
Subject: [PATCH 043/118] fix: pylon::Parser took byte 0xff for the end of the
 file

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index f453e45..563640f 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -53,7 +53,7 @@ void Parser::error(u32 fileOfs, HybridString&& message) {
 void Parser::advanceChar() {
     if (readOfs + 1 < srcView.numBytes) {
         readOfs++;
-        nextUnit = srcView.bytes[readOfs];
+        nextUnit = (u8) srcView.bytes[readOfs];
     } else {
         readOfs = srcView.numBytes;
         nextUnit = -1;
@@ -468,7 +468,7 @@ Owned<Node> Parser::readExpression(Token&& firstToken, const Token* afterToken)
 
 Parser::Result Parser::parse(StringView srcView_) {
     srcView = srcView_;
-    nextUnit = srcView.numBytes > 0 ? srcView[0] : -1;
+    nextUnit = srcView.numBytes > 0 ? (u8) srcView[0] : -1;
 
     this->fileLocMap = FileLocationMap::fromView(srcView_);
 
-- 
2.43.0


From cc456b8d4a6238d71f64ec7d045402690706126c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:30 +0000
Subject: [PATCH 044/118] fix: pylon::Parser dereferenced a null node after
 every parse error

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index 563640f..1059bbc 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -361,17 +361,17 @@ Owned<Node> Parser::readObject(const Token& startToken) {
                                      "separator between properties \"{}\" and \"{}\"",
                                      fmt::EscapedString{prevProperty.text, 20},
                                      fmt::EscapedString{firstToken.text, 20}));
-                return {};
+                return Node::createInvalid();
             }
         } else if (prevProperty.isValid()) {
             error(firstToken.fileOfs,
                   String::format("Unexpected {} after property \"{}\"", toString(firstToken),
                                  fmt::EscapedString{prevProperty.text, 20}));
-            return {};
+            return Node::createInvalid();
         } else {
             error(firstToken.fileOfs,
                   String::format("Expected property, got {}", toString(firstToken)));
-            return {};
+            return Node::createInvalid();
         }
 
         auto propLocationCursor = propLocations.insertOrFind(firstToken.text);
@@ -380,7 +380,7 @@ Owned<Node> Parser::readObject(const Token& startToken) {
                                         ParseError::Scope::duplicate(propLocationCursor->fileOfs)};
             error(firstToken.fileOfs, String::format("Duplicate property \"{}\"",
                                                       fmt::EscapedString{firstToken.text, 20}));
-            return {};
+            return Node::createInvalid();
         }
 
         Token colon = readToken();
@@ -388,7 +388,7 @@ Owned<Node> Parser::readObject(const Token& startToken) {
             error(colon.fileOfs,
                   String::format("Expected \":\" or \"=\" after \"{}\", got {}",
                                  fmt::EscapedString{firstToken.text, 20}, toString(colon)));
-            return {};
+            return Node::createInvalid();
         }
 
         {
@@ -405,7 +405,7 @@ Owned<Node> Parser::readObject(const Token& startToken) {
 
         prevProperty = std::move(firstToken);
     }
-    return {};
+    return Node::createInvalid();
 }
 
 Owned<Node> Parser::readArray(const Token& startToken) {
@@ -452,7 +452,7 @@ Owned<Node> Parser::readExpression(Token&& firstToken, const Token* afterToken)
             return Node::createText(std::move(firstToken.text), firstToken.fileOfs);
 
         case Token::Invalid:
-            return {};
+            return Node::createInvalid();
 
         default: {
             MemOutStream mout;
@@ -461,7 +461,7 @@ Owned<Node> Parser::readExpression(Token&& firstToken, const Token* afterToken)
                 mout << " after " << toString(*afterToken);
             }
             error(firstToken.fileOfs, mout.moveToString());
-            return {};
+            return Node::createInvalid();
         }
     }
 }
@@ -475,13 +475,13 @@ Parser::Result Parser::parse(StringView srcView_) {
     Token rootToken = readToken();
     Owned<Node> root = readExpression(std::move(rootToken));
     if (!root->isValid())
-        return {};
+        return {Node::createInvalid(), {}};
 
     Token nextToken = readToken();
     if (nextToken.type != Token::EndOfFile) {
         error(nextToken.fileOfs,
               String::format("Unexpected {} after {}", toString(nextToken), toString(root)));
-        return {};
+        return {Node::createInvalid(), {}};
     }
 
     return {std::move(root), std::move(this->fileLocMap)};
-- 
2.43.0


From c76d250014c8d594a79b1a03906ecd91ed6300f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:47 +0000
Subject: [PATCH 045/118] fix: pylon::Parser asserted after reporting a
 malformed quoted string

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index 1059bbc..284594f 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -342,6 +342,9 @@ Owned<Node> Parser::readObject(const Token& startToken) {
                 case Token::CloseCurly:
                     return node;
 
+                case Token::Invalid:
+                    return Node::createInvalid(); // Error was already reported
+
                 case Token::Comma:
                 case Token::Semicolon:
                 case Token::NewLine:
@@ -384,6 +387,8 @@ Owned<Node> Parser::readObject(const Token& startToken) {
         }
 
         Token colon = readToken();
+        if (!colon.isValid())
+            return Node::createInvalid(); // Error was already reported
         if (colon.type != Token::Colon && colon.type != Token::Equals) {
             error(colon.fileOfs,
                   String::format("Expected \":\" or \"=\" after \"{}\", got {}",
@@ -478,6 +483,8 @@ Parser::Result Parser::parse(StringView srcView_) {
         return {Node::createInvalid(), {}};
 
     Token nextToken = readToken();
+    if (!nextToken.isValid())
+        return {Node::createInvalid(), {}}; // Error was already reported
     if (nextToken.type != Token::EndOfFile) {
         error(nextToken.fileOfs,
               String::format("Unexpected {} after {}", toString(nextToken), toString(root)));
-- 
2.43.0


From 6e2e2c186cd522f6ce2d0e475cec6e1811caa5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:47 +0000
Subject: [PATCH 046/118] fix: pylon::Parser asserted on a \x escape sequence

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index 284594f..bd195c1 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -67,8 +67,24 @@ Parser::Token Parser::readPlainToken(Token::Type type) {
 }
 
 bool Parser::readEscapedHex(OutStream* outs, u32 escapeFileOfs) {
-    PLY_ASSERT(0); // FIXME
-    return false;
+    u32 value = 0;
+    for (u32 i = 0; i < 2; i++) {
+        u32 digit = 0;
+        if (nextUnit >= '0' && nextUnit <= '9') {
+            digit = nextUnit - '0';
+        } else if (nextUnit >= 'a' && nextUnit <= 'f') {
+            digit = nextUnit - 'a' + 10;
+        } else if (nextUnit >= 'A' && nextUnit <= 'F') {
+            digit = nextUnit - 'A' + 10;
+        } else {
+            error(escapeFileOfs, "Expected two hexadecimal digits after \"\\x\"");
+            return false;
+        }
+        value = value * 16 + digit;
+        advanceChar();
+    }
+    NativeEndianWriter{outs}.write((u8) value);
+    return true;
 }
 
 Parser::Token Parser::readQuotedString() {
-- 
2.43.0


From fa413c44b9a73586cdcfc7ed91dc6fea12eff518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:47 +0000
Subject: [PATCH 047/118] fix: fmt::EscapedString wrote control characters as
 escapes that do not parse

---
 repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
index e3edfab..6ad1f05 100644
--- a/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/io/impl/FormatString.cpp
@@ -243,7 +243,7 @@ PLY_NO_INLINE void fmt::TypePrinter<fmt::EscapedString>::print(OutStream* outs,
                     outs->write(srcUnits.left(decoded.numBytes));
                 } else {
                     static const char* digits = "0123456789abcdef";
-                    *outs << '\\' << digits[(decoded.point >> 4) & 0xf]
+                    *outs << "\\x" << digits[(decoded.point >> 4) & 0xf]
                         << digits[decoded.point & 0xf];
                 }
                 break;
-- 
2.43.0


From 426cbe09e77f82eb6b87b2d4d02e01d66f95e5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:47 +0000
Subject: [PATCH 048/118] fix: pylon::Node::copy compared keys through a null
 pointer on a hash collision

---
 repos/plywood/src/pylon/pylon/pylon/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Node.cpp b/repos/plywood/src/pylon/pylon/pylon/Node.cpp
index cebd874..a0b2da6 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Node.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Node.cpp
@@ -54,7 +54,7 @@ Owned<Node> Node::copy() const {
                 Object::Item& dstItem = dst->object_.items[i];
                 dstItem.key = this->object_.items[i].key.view();
                 dstItem.value = this->object_.items[i].value->copy();
-                *dst->object_.index.insertOrFind(dstItem.key) = i;
+                *dst->object_.index.insertOrFind(dstItem.key, &dst->object_.items) = i;
             }
             return dst;
         }
-- 
2.43.0


From 778f22ca08f489f6b03aa8faee3bb184ae4a0e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:25 +0000
Subject: [PATCH 049/118] fix: pylon::Parser never returned from a word at the
 end of a document

---
 repos/plywood/src/pylon/pylon/pylon/Parse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
index bd195c1..403e807 100644
--- a/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
+++ b/repos/plywood/src/pylon/pylon/pylon/Parse.cpp
@@ -8,7 +8,7 @@
 
 namespace pylon {
 
-bool isAlnumUnit(u32 c) {
+bool isAlnumUnit(s32 c) {
     return (c == '_') || (c == '$') || (c == '-') || (c == '.') || (c >= 'a' && c <= 'z') ||
            (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || (c >= 128);
 }
-- 
2.43.0


From 0db9083b264b56f7f57de94e18e42a57979669bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:59 +0000
Subject: [PATCH 050/118] fix: virtual FileSystem let ".." lead outside its
 root directory

---
 .../ply-runtime/filesystem/impl/FileSystem_Virtual.cpp       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
index e1f67f9..553db8e 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
@@ -15,10 +15,11 @@ struct FileSystem_Virtual : FileSystem {
     FileSystem_Virtual();
 
     PLY_NO_INLINE String convertToTargetPath(StringView path) const {
-        // FIXME: should also detect and prohibit ".."
         PathFormat pathFmt = this->targetFS->pathFormat();
         PLY_ASSERT(!pathFmt.isAbsolute(path));
-        return pathFmt.join(this->targetRoot, PosixPath::from(pathFmt, path));
+        // Normalizing the path as an absolute one keeps any ".." from leading above targetRoot:
+        String absPath = PosixPath::join("/", PosixPath::from(pathFmt, path));
+        return pathFmt.join(this->targetRoot, StringView{"."} + absPath);
     }
 
     static PLY_NO_INLINE Directory listDir(FileSystem* fs_, StringView path, u32 flags) {
-- 
2.43.0


From 5a10404bbf397ae3ed61c8736a8bec97727274d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:32 +0000
Subject: [PATCH 051/118] fix: a virtual FileSystem leaked its root path when
 destroyed

---
 .../plywood/src/runtime/ply-runtime/filesystem/FileSystem.h | 6 ++++++
 .../ply-runtime/filesystem/impl/FileSystem_Virtual.cpp      | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.h b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.h
index 89b2ac4..c749e07 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.h
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.h
@@ -200,6 +200,7 @@ struct FileSystem {
         FSResult (*deleteFile)(FileSystem* fs, StringView path) = nullptr;
         FSResult (*removeDirTree)(FileSystem* fs, StringView dirPath) = nullptr;
         FileStatus (*getFileStatus)(FileSystem* fs, StringView path) = nullptr;
+        void (*destroy)(FileSystem* fs) = nullptr; // Optional
     };
 
     static ThreadLocal<FSResult> lastResult_;
@@ -208,6 +209,11 @@ struct FileSystem {
 
     PLY_INLINE FileSystem(Funcs* funcs) : funcs{funcs} {
     }
+    PLY_INLINE ~FileSystem() {
+        if (this->funcs->destroy) {
+            this->funcs->destroy(this);
+        }
+    }
 
     /*!
     Returns a `FileSystem` object that interacts with the native filesystem.
diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
index 553db8e..973e4ab 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_Virtual.cpp
@@ -13,6 +13,7 @@ struct FileSystem_Virtual : FileSystem {
     String targetRoot;
 
     FileSystem_Virtual();
+    ~FileSystem_Virtual() = delete; // Should be deleted through parent class
 
     PLY_NO_INLINE String convertToTargetPath(StringView path) const {
         PathFormat pathFmt = this->targetFS->pathFormat();
@@ -78,6 +79,10 @@ struct FileSystem_Virtual : FileSystem {
         FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
         return fs->targetFS->getFileStatus(fs->convertToTargetPath(path));
     }
+    static PLY_NO_INLINE void destroy(FileSystem* fs_) {
+        FileSystem_Virtual* fs = static_cast<FileSystem_Virtual*>(fs_);
+        fs->targetRoot.~String();
+    }
 };
 
 FileSystem::Funcs FileSystemFuncs_Virtual = {
@@ -93,6 +98,7 @@ FileSystem::Funcs FileSystemFuncs_Virtual = {
     FileSystem_Virtual::deleteFile,
     FileSystem_Virtual::removeDirTree,
     FileSystem_Virtual::getFileStatus,
+    FileSystem_Virtual::destroy,
 };
 
 PLY_INLINE FileSystem_Virtual::FileSystem_Virtual() : FileSystem{&FileSystemFuncs_Virtual} {
-- 
2.43.0


From 50ba07dca0f5c02bd077c82af0872638382505ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:32 +0000
Subject: [PATCH 052/118] fix: FileSystem_POSIX::listDir leaked the path of the
 directory

---
 .../src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 6d6fd5e..4bd3cc2 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -24,6 +24,7 @@ PLY_NO_INLINE void FileSystem_POSIX::DirImpl::destructImpl(ply::Directory::Impl*
         PLY_ASSERT(rc == 0);
         PLY_UNUSED(rc);
     }
+    dirImpl->dirPath.~String();
 }
 
 PLY_NO_INLINE FSResult FileSystem_POSIX::DirImpl::begin(StringView path) {
-- 
2.43.0


From 9be5c9546d373283ea0bf4fcd94707183b863e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:32 +0000
Subject: [PATCH 053/118] fix: FetchFromFileSystem served files outside its
 root directory

---
 .../src/web/common/web-common/FetchFromFileSystem.cpp        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp b/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
index 6e1c13e..ad025a9 100644
--- a/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
+++ b/repos/plywood/src/web/common/web-common/FetchFromFileSystem.cpp
@@ -49,8 +49,9 @@ PLY_NO_INLINE void FetchFromFileSystem::serve(const FetchFromFileSystem* params,
         return;
     }
 
-    String nativePath =
-        NativePath::join(params->rootDir, requestPath.ltrim([](char c) { return c == '/'; }));
+    // Normalizing the path as an absolute one keeps any ".." from leading above rootDir:
+    String absPath = PosixPath::join("/", PosixPath::from<NativePath>(requestPath));
+    String nativePath = NativePath::join(params->rootDir, StringView{"."} + absPath);
 
     // FIXME: Don't load the whole file completely in memory first.
     // Could open the raw pipe and feed it to outs.
-- 
2.43.0


From 39ce2b4f08bd02474c85f3354e7a0b817e57f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:32 +0000
Subject: [PATCH 054/118] fix: SourceCode served files outside its root
 directory

---
 repos/plywood/src/web/common/web-common/SourceCode.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/web/common/web-common/SourceCode.cpp b/repos/plywood/src/web/common/web-common/SourceCode.cpp
index ad2c2a0..2a5f9dc 100644
--- a/repos/plywood/src/web/common/web-common/SourceCode.cpp
+++ b/repos/plywood/src/web/common/web-common/SourceCode.cpp
@@ -10,9 +10,9 @@ namespace web {
 
 PLY_NO_INLINE void SourceCode::serve(const SourceCode* params, StringView requestPath,
                                      ResponseIface* responseIface) {
-    // FIXME: Use FileSystem_Virtual and make really, really sure an adversary can't read files
-    // outside the rootDir
-    String normRequestPath = NativePath::normalize(requestPath.ltrim(NativePath::isSepByte));
+    // Normalizing the path as an absolute one keeps any ".." from leading above rootDir:
+    String absPath = PosixPath::join("/", PosixPath::from<NativePath>(requestPath));
+    String normRequestPath = NativePath::normalize(StringView{"."} + absPath);
     Owned<InStream> ins =
         FileSystem::native()
             ->openTextForReadAutodetect(NativePath::join(params->rootDir, normRequestPath))
-- 
2.43.0


From abad1d29e240671aa121d08d676e9c453f677fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:32 +0000
Subject: [PATCH 055/118] fix: DocServer served pages outside its data
 directory

---
 .../src/web/serve-docs/ply-web-serve-docs/DocServer.cpp      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
index 4889afc..954f557 100644
--- a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
+++ b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
@@ -107,7 +107,10 @@ String getPageSource(DocServer* ds, StringView requestPath, ResponseIface* respo
         responseIface->respondGeneric(ResponseCode::NotFound);
         return {};
     }
-    String absPath = NativePath::join(ds->dataRoot, "pages", requestPath);
+    // Normalizing the path as an absolute one keeps any ".." from leading above the pages:
+    String relPath =
+        StringView{"."} + PosixPath::join("/", PosixPath::from<NativePath>(requestPath));
+    String absPath = NativePath::join(ds->dataRoot, "pages", relPath);
     ExistsResult exists = FileSystem::native()->exists(absPath);
     if (exists == ExistsResult::Directory) {
         absPath = NativePath::join(absPath, "index.html");
-- 
2.43.0


From d813ad0cd6a5d4d7103d2150a533a4cd53ea9fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:55 +0000
Subject: [PATCH 056/118] fix: DocServer looked for pages under its data
 directory twice

---
 .../src/web/serve-docs/ply-web-serve-docs/DocServer.cpp        | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
index 954f557..6e826cc 100644
--- a/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
+++ b/repos/plywood/src/web/serve-docs/ply-web-serve-docs/DocServer.cpp
@@ -117,8 +117,7 @@ String getPageSource(DocServer* ds, StringView requestPath, ResponseIface* respo
     } else {
         absPath += ".html";
     }
-    String pageHtml =
-        fs->loadText(NativePath::join(ds->dataRoot, "pages", absPath), TextFormat::unixUTF8());
+    String pageHtml = fs->loadText(absPath, TextFormat::unixUTF8());
     if (!pageHtml) {
         responseIface->respondGeneric(ResponseCode::NotFound);
         return {};
-- 
2.43.0


From f87761efb6e77195e61187d01942bbe29d467b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:33 +0000
Subject: [PATCH 057/118] fix: FileSystem_POSIX::makeDir failed an assertion
 instead of returning AccessDenied

---
 .../runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 4bd3cc2..0b5042f 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -124,6 +124,9 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::makeDir(FileSystem*, StringView path) {
             case EISDIR: {
                 return FileSystem::setLastResult(FSResult::AlreadyExists);
             }
+            case EACCES: {
+                return FileSystem::setLastResult(FSResult::AccessDenied);
+            }
             default: {
                 PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
                 return FileSystem::setLastResult(FSResult::Unknown);
-- 
2.43.0


From 4a48523c629878ee3d2972481ac94fd8cb89c59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:33 +0000
Subject: [PATCH 058/118] fix: FileSystem::loadBinary returned uninitialized
 contents as OK after a failed read

---
 .../src/runtime/ply-runtime/filesystem/FileSystem.cpp       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
index 88a373b..b593f36 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
@@ -140,7 +140,11 @@ PLY_NO_INLINE String FileSystem::loadBinary(StringView path) {
         u64 fileSize = inPipe->getFileSize();
         // Files >= 4GB cannot be loaded this way:
         result.resize(safeDemote<u32>(fileSize));
-        inPipe->read({result.bytes, result.numBytes});
+        if (!inPipe->read({result.bytes, result.numBytes})) {
+            // Don't return a partially loaded file
+            result.clear();
+            FileSystem::setLastResult(FSResult::Unknown);
+        }
     }
     return result;
 }
-- 
2.43.0


From c704d35960e5a8667aa84b442e50ca19d428c0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:33 +0000
Subject: [PATCH 059/118] fix: FileSystem_POSIX::moveFile failed an assertion
 instead of returning NotFound or AccessDenied

---
 .../ply-runtime/filesystem/impl/FileSystem_POSIX.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 0b5042f..8ae58b0 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -255,8 +255,16 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::moveFile(FileSystem*, StringView srcPat
                                                   StringView dstPath) {
     int rc = rename(srcPath.withNullTerminator().bytes, dstPath.withNullTerminator().bytes);
     if (rc != 0) {
-        PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-        return FileSystem::setLastResult(FSResult::Unknown);
+        switch (errno) {
+            case ENOENT:
+                return FileSystem::setLastResult(FSResult::NotFound);
+            case EACCES:
+                return FileSystem::setLastResult(FSResult::AccessDenied);
+            default: {
+                PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
+                return FileSystem::setLastResult(FSResult::Unknown);
+            }
+        }
     }
     return FileSystem::setLastResult(FSResult::OK);
 }
-- 
2.43.0


From 365ee5c4f5c78f8c4b494d2cc66d56f6bc4f81ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:33 +0000
Subject: [PATCH 060/118] fix: FileSystem_POSIX::deleteFile failed an assertion
 instead of returning NotFound or AccessDenied

---
 .../ply-runtime/filesystem/impl/FileSystem_POSIX.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 8ae58b0..b218c9e 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -272,8 +272,16 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::moveFile(FileSystem*, StringView srcPat
 PLY_NO_INLINE FSResult FileSystem_POSIX::deleteFile(FileSystem*, StringView path) {
     int rc = unlink(path.withNullTerminator().bytes);
     if (rc != 0) {
-        PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
-        return FileSystem::setLastResult(FSResult::Unknown);
+        switch (errno) {
+            case ENOENT:
+                return FileSystem::setLastResult(FSResult::NotFound);
+            case EACCES:
+                return FileSystem::setLastResult(FSResult::AccessDenied);
+            default: {
+                PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
+                return FileSystem::setLastResult(FSResult::Unknown);
+            }
+        }
     }
     return FileSystem::setLastResult(FSResult::OK);
 }
-- 
2.43.0


From 2c30c1b39028f9ddcff30a0c9fdc276f1d388da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:10 +0000
Subject: [PATCH 061/118] fix: FileSystem_POSIX::listDir enumerated "." and
 ".." and took directories for files without d_type

---
 .../filesystem/impl/FileSystem_POSIX.cpp       | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index b218c9e..94016ba 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -62,15 +62,19 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::DirImpl::nextImpl(ply::Directory::Impl*
         } else {
             dirImpl->entry.name = rde->d_name;
 
+            if (rde->d_name[0] == '.') {
+                if (rde->d_name[1] == 0 || (rde->d_name[1] == '.' && rde->d_name[2] == 0))
+                    continue;
+            }
             // d_type is not POSIX, but it exists on OSX and Linux.
-            if (rde->d_type == DT_REG) {
-                dirImpl->entry.isDir = false;
-            } else if (rde->d_type == DT_DIR) {
-                if (rde->d_name[0] == '.') {
-                    if (rde->d_name[1] == 0 || (rde->d_name[1] == '.' && rde->d_name[2] == 0))
-                        continue;
-                }
+            if (rde->d_type == DT_DIR) {
                 dirImpl->entry.isDir = true;
+            } else if (rde->d_type == DT_UNKNOWN) {
+                // Not all filesystems support d_type
+                String joinedPath = PosixPath::join(dirImpl->dirPath, dirImpl->entry.name);
+                struct stat buf;
+                int rc = lstat(joinedPath.withNullTerminator().bytes, &buf);
+                dirImpl->entry.isDir = (rc == 0 && (buf.st_mode & S_IFMT) == S_IFDIR);
             }
 
             if (dirImpl->flags != 0) {
-- 
2.43.0


From 2c40fff6fe17342f855eb439e8619eaf1e0ef1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:10 +0000
Subject: [PATCH 062/118] fix: FileSystem_POSIX failed an assertion for paths
 that lead through a file

---
 .../ply-runtime/filesystem/impl/FileSystem_POSIX.cpp  | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 94016ba..ead4774 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -34,6 +34,7 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::DirImpl::begin(StringView path) {
         this->entry = {};
         switch (errno) {
             case ENOENT:
+            case ENOTDIR:
                 return FileSystem::setLastResult(FSResult::NotFound);
             case EACCES:
                 return FileSystem::setLastResult(FSResult::AccessDenied);
@@ -146,6 +147,7 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::setWorkingDirectory(FileSystem*, String
     } else {
         switch (errno) {
             case ENOENT:
+            case ENOTDIR:
                 return FileSystem::setLastResult(FSResult::NotFound);
             default: {
                 PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
@@ -188,7 +190,7 @@ PLY_NO_INLINE ExistsResult FileSystem_POSIX::exists(FileSystem*, StringView path
     int rc = stat(path.withNullTerminator().bytes, &buf);
     if (rc == 0)
         return (buf.st_mode & S_IFMT) == S_IFDIR ? ExistsResult::Directory : ExistsResult::File;
-    if (errno != ENOENT) {
+    if (errno != ENOENT && errno != ENOTDIR) {
         PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
     }
     return ExistsResult::NotFound;
@@ -201,6 +203,7 @@ PLY_NO_INLINE int FileSystem_POSIX::openFDForRead(StringView path) {
     } else {
         switch (errno) {
             case ENOENT:
+            case ENOTDIR:
                 FileSystem::setLastResult(FSResult::NotFound);
                 break;
 
@@ -232,6 +235,7 @@ PLY_NO_INLINE int FileSystem_POSIX::openFDForWrite(StringView path) {
     } else {
         switch (errno) {
             case ENOENT:
+            case ENOTDIR:
                 FileSystem::setLastResult(FSResult::NotFound);
                 break;
 
@@ -261,6 +265,7 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::moveFile(FileSystem*, StringView srcPat
     if (rc != 0) {
         switch (errno) {
             case ENOENT:
+            case ENOTDIR:
                 return FileSystem::setLastResult(FSResult::NotFound);
             case EACCES:
                 return FileSystem::setLastResult(FSResult::AccessDenied);
@@ -278,6 +283,7 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::deleteFile(FileSystem*, StringView path
     if (rc != 0) {
         switch (errno) {
             case ENOENT:
+            case ENOTDIR:
                 return FileSystem::setLastResult(FSResult::NotFound);
             case EACCES:
                 return FileSystem::setLastResult(FSResult::AccessDenied);
@@ -320,7 +326,8 @@ PLY_NO_INLINE FileStatus FileSystem_POSIX::getFileStatus(FileSystem*, StringView
     int rc = stat(path.withNullTerminator().bytes, &buf);
     if (rc != 0) {
         switch (errno) {
-            case ENOENT: {
+            case ENOENT:
+            case ENOTDIR: {
                 status.result = FileSystem::setLastResult(FSResult::NotFound);
                 break;
             }
-- 
2.43.0


From e8837cf250e936d51c88dca2da6d24003e755ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:10 +0000
Subject: [PATCH 063/118] fix: FileSystem_POSIX::removeDirTree could not remove
 a dangling symbolic link

---
 .../runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index ead4774..49d4120 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -297,7 +297,7 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::deleteFile(FileSystem*, StringView path
 }
 
 PLY_NO_INLINE FSResult FileSystem_POSIX::removeDirTree(FileSystem* fs, StringView dirPath) {   
-    for (const DirectoryEntry& dirEntry : fs->listDir(dirPath)) {
+    for (const DirectoryEntry& dirEntry : fs->listDir(dirPath, 0)) {
         String joined = PosixPath::join(dirPath, dirEntry.name);
         if (dirEntry.isDir) {
             FSResult fsResult = fs->removeDirTree(joined);
-- 
2.43.0


From af57c73ed2f8ea5d1355b30ad74bdd154d642119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:10 +0000
Subject: [PATCH 064/118] fix: FileSystem_POSIX::removeDirTree failed an
 assertion instead of returning AccessDenied

---
 .../ply-runtime/filesystem/impl/FileSystem_POSIX.cpp     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
index 49d4120..9873df9 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/impl/FileSystem_POSIX.cpp
@@ -297,7 +297,10 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::deleteFile(FileSystem*, StringView path
 }
 
 PLY_NO_INLINE FSResult FileSystem_POSIX::removeDirTree(FileSystem* fs, StringView dirPath) {   
-    for (const DirectoryEntry& dirEntry : fs->listDir(dirPath, 0)) {
+    Directory dir = fs->listDir(dirPath, 0);
+    if (fs->lastResult() == FSResult::AccessDenied)
+        return FSResult::AccessDenied;
+    for (const DirectoryEntry& dirEntry : dir) {
         String joined = PosixPath::join(dirPath, dirEntry.name);
         if (dirEntry.isDir) {
             FSResult fsResult = fs->removeDirTree(joined);
@@ -307,6 +310,8 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::removeDirTree(FileSystem* fs, StringVie
         } else {
             int rc = unlink(joined.withNullTerminator().bytes);
             if (rc != 0) {
+                if (errno == EACCES)
+                    return FileSystem::setLastResult(FSResult::AccessDenied);
                 PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
                 return FileSystem::setLastResult(FSResult::Unknown);
             }
@@ -314,6 +319,8 @@ PLY_NO_INLINE FSResult FileSystem_POSIX::removeDirTree(FileSystem* fs, StringVie
     }
     int rc = rmdir(dirPath.withNullTerminator().bytes);
     if (rc != 0) {
+        if (errno == EACCES)
+            return FileSystem::setLastResult(FSResult::AccessDenied);
         PLY_ASSERT(PLY_FSPOSIX_ALLOW_UNKNOWN_ERRORS);
         return FileSystem::setLastResult(FSResult::Unknown);
     }
-- 
2.43.0


From 9915ce861ba47786fc134757d35cddc09d3e94b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:42 +0000
Subject: [PATCH 065/118] fix: FileSystem::makeDirs did not create the parents
 of a path with a trailing separator

---
 .../plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
index b593f36..7fd221a 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
@@ -93,6 +93,10 @@ PLY_NO_INLINE FSResult FileSystem::makeDirs(StringView path) {
         return FileSystem::setLastResult(FSResult::AccessDenied);
     } else {
         auto split = this->pathFormat().split(path);
+        if (split.second.isEmpty() && split.first.numBytes < path.numBytes) {
+            // Trailing separator
+            return this->makeDirs(split.first);
+        }
         if (!split.first.isEmpty() && !split.second.isEmpty()) {
             FSResult r = makeDirs(split.first);
             if (r != FSResult::OK && r != FSResult::AlreadyExists)
-- 
2.43.0


From 0e20de74eb15bb8be4a704f7a7305af25a3a7074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:42 +0000
Subject: [PATCH 066/118] fix: FileSystem::makeDirsAndSaveBinaryIfDifferent
 lost the original file when saving failed

---
 .../ply-runtime/filesystem/FileSystem.cpp        | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
index 7fd221a..f74f8b2 100644
--- a/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/filesystem/FileSystem.cpp
@@ -202,15 +202,21 @@ PLY_NO_INLINE FSResult FileSystem::makeDirsAndSaveBinaryIfDifferent(StringView p
         return result;
     }
 
-    // Save file
-    // FIXME: Use temporary file
-    Owned<OutPipe> outPipe = this->openPipeForWrite(path);
+    // Save temporary file
+    String tempPath = path + StringView{".tmp"};
+    Owned<OutPipe> outPipe = this->openPipeForWrite(tempPath);
     result = this->lastResult();
     if (result != FSResult::OK) {
         return result;
     }
-    outPipe->write(view);
-    return result;
+    bool written = outPipe->write(view);
+    outPipe.clear();
+    // Replace the original file
+    result = written ? this->moveFile(tempPath, path) : FSResult::Unknown;
+    if (result != FSResult::OK) {
+        this->deleteFile(tempPath);
+    }
+    return FileSystem::setLastResult(result);
 }
 
 PLY_NO_INLINE FSResult FileSystem::makeDirsAndSaveTextIfDifferent(StringView path,
-- 
2.43.0


From ae47b77d7b7496b4184a0042863f8ba895c2ea99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:19 +0000
Subject: [PATCH 067/118] fix: runServer dereferenced a null connection when
 accepting one failed

---
 repos/plywood/src/web/common/web-common/Server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/web/common/web-common/Server.cpp b/repos/plywood/src/web/common/web-common/Server.cpp
index 76c38f2..3a07383 100644
--- a/repos/plywood/src/web/common/web-common/Server.cpp
+++ b/repos/plywood/src/web/common/web-common/Server.cpp
@@ -175,6 +175,8 @@ bool runServer(u16 port, const RequestHandler& reqHandler) {
         ThreadParams params;
         params.tcpConn = listener.accept();
         // FIXME: Return if port stopped listening
+        if (!params.tcpConn)
+            continue; // The client went away before its connection was accepted
 
         params.reqHandler = reqHandler;
         // FIXME: Use a thread pool instead of spawning a thread for every request
-- 
2.43.0


From f1aa416f308e3a99edb70bc4ddd0aeda57181f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:49 +0000
Subject: [PATCH 068/118] fix: AnyOwnedObject destroyed its target again after
 an explicit destroy()

---
 repos/plywood/src/reflect/ply-reflect/AnyOwnedObject.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/repos/plywood/src/reflect/ply-reflect/AnyOwnedObject.h b/repos/plywood/src/reflect/ply-reflect/AnyOwnedObject.h
index ee533ef..e621334 100644
--- a/repos/plywood/src/reflect/ply-reflect/AnyOwnedObject.h
+++ b/repos/plywood/src/reflect/ply-reflect/AnyOwnedObject.h
@@ -34,6 +34,10 @@ struct AnyOwnedObject : AnyObject {
     ~AnyOwnedObject() {
         destroy();
     }
+    void destroy() {
+        AnyObject::destroy();
+        data = nullptr;
+    }
     template <typename T>
     void assign(Owned<T>&& other) {
         destroy();
-- 
2.43.0


From e33ae95d8c9398a10183baf9307078f01586ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:49 +0000
Subject: [PATCH 069/118] fix: writing an AnyOwnedObject shifted the format IDs
 of all types written after it

---
 repos/plywood/src/reflect/ply-reflect/PersistWriteSchema.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/repos/plywood/src/reflect/ply-reflect/PersistWriteSchema.cpp b/repos/plywood/src/reflect/ply-reflect/PersistWriteSchema.cpp
index 5d554dc..e5b234f 100644
--- a/repos/plywood/src/reflect/ply-reflect/PersistWriteSchema.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/PersistWriteSchema.cpp
@@ -8,6 +8,7 @@
 #include <ply-reflect/FormatDescriptor.h>
 #include <ply-reflect/TypedArray.h>
 #include <ply-reflect/AnySavedObject.h>
+#include <ply-reflect/AnyOwnedObject.h>
 #include <ply-runtime/algorithm/Range.h>
 #include <ply-runtime/container/Boxed.h>
 #include <map>
@@ -68,6 +69,8 @@ WriteFormatContext::WriteFormatContext(OutStream* out) : m_out{out} {
             m_typeToFormatID[builtin.type] = (u32) builtin.key;
         }
     }
+    // AnyOwnedObject shares the format of AnySavedObject
+    m_typeToFormatID[getTypeDescriptor<AnyOwnedObject>()] = (u32) FormatKey::Typed;
 }
 
 u32 WriteFormatContext::addOrGetFormatID(TypeDescriptor* typeDesc) {
-- 
2.43.0


From 25d077eae99b4ed36b0ce7e3ac3ff0144f31eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:49 +0000
Subject: [PATCH 070/118] fix: a switch was read using the format of another
 state when states were renumbered

---
 repos/plywood/src/reflect/ply-reflect/TypeKey.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
index 3a05667..026d720 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
@@ -902,7 +902,7 @@ TypeKey TypeKey_Switch{
             newTypedState.construct();
         }
         newTypedState.type->typeKey->read(newTypedState, context,
-                                          switchFormat->states[newID].structFormat);
+                                          switchFormat->states[formatStateID].structFormat);
     },
     // hashDescriptor
     nullptr, // Unimplemented
-- 
2.43.0


From bf6cd92313c43e9af85e9f8e66c9a08721a11a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:49 +0000
Subject: [PATCH 071/118] fix: skip() crashed on a raw pointer

---
 repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp b/repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp
index 9b56ef7..0f48166 100644
--- a/repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/PersistReadObject.cpp
@@ -93,6 +93,10 @@ void skip(ReadObjectContext* context, FormatDescriptor* formatDesc) {
             skip(context, ownedFormat->childFormat);
             break;
         }
+        case FormatKey::RawPtr: {
+            context->in.read<u32>();
+            break;
+        }
         case FormatKey::Struct: {
             FormatDescriptor_Struct* structFormat = (FormatDescriptor_Struct*) formatDesc;
             for (FormatDescriptor_Struct::Member& member : structFormat->members) {
-- 
2.43.0


From c57263f404b4657c7f9bb4e4d283cb04a0397bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:49 +0000
Subject: [PATCH 072/118] fix: infinite recursion getting the name of a raw
 pointer type

---
 repos/plywood/src/reflect/ply-reflect/TypeKey.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
index 026d720..f887b4a 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
@@ -715,7 +715,7 @@ TypeKey TypeKey_RawPtr{
     // getName
     [](const TypeDescriptor* typeDesc) -> HybridString { //
         const TypeDescriptor_RawPtr* weakPtrType = typeDesc->cast<const TypeDescriptor_RawPtr>();
-        return String::format("{}*", weakPtrType->getName());
+        return String::format("{}*", weakPtrType->targetType->getName());
     },
 
     // write
-- 
2.43.0


From fdf1c9de509a22f9f5f4540f6e3e9ba8c8b388d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:49 +0000
Subject: [PATCH 073/118] fix: writing an asset crashed when pointers were
 saved in another order than their targets

---
 .../ply-reflect/PersistWriteObject.cpp        | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp b/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
index eff4a45..5b93045 100644
--- a/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
@@ -19,7 +19,7 @@ void writeObject(AnyObject obj, WriteObjectContext* writeObjectContext) {
 
 void resolveLinksAndWriteLinkTable(MutableStringView view, OutStream* outs,
                                    SavedPtrResolver* ptrResolver) {
-    u32 linkIndex = 0;
+    // Identify the owned pointers that are linked to
     for (const SavedPtrResolver::WeakPointerToResolve& weakInfo : ptrResolver->weakPtrsToResolve) {
         PLY_ASSERT(weakInfo.fileOffset + 4 <= view.numBytes);
         auto cursor =
@@ -27,17 +27,31 @@ void resolveLinksAndWriteLinkTable(MutableStringView view, OutStream* outs,
         if (cursor.wasFound()) {
             SavedPtrResolver::SavedOwnedPtr& savedOwnedPtr = ptrResolver->savedOwnedPtrs[*cursor];
             PLY_ASSERT(savedOwnedPtr.obj == weakInfo.obj); // Sanity check
-            if (savedOwnedPtr.linkIndex < 0) {
-                savedOwnedPtr.linkIndex = linkIndex;
-                linkIndex++;
-            }
-            // Note: This performs a potentially unaligned write
-            *(u32*) PLY_PTR_OFFSET(view.bytes, weakInfo.fileOffset) = savedOwnedPtr.linkIndex;
+            savedOwnedPtr.linkIndex = 0;
         } else {
             PLY_ASSERT(0); // FIXME: Handle unresolved pointers gracefully
         }
     }
 
+    // Assign link indices in the order that the owned pointers were saved
+    u32 linkIndex = 0;
+    for (SavedPtrResolver::SavedOwnedPtr& savedOwnedPtr : ptrResolver->savedOwnedPtrs) {
+        if (savedOwnedPtr.linkIndex >= 0) {
+            savedOwnedPtr.linkIndex = linkIndex;
+            linkIndex++;
+        }
+    }
+
+    // Resolve links
+    for (const SavedPtrResolver::WeakPointerToResolve& weakInfo : ptrResolver->weakPtrsToResolve) {
+        auto cursor =
+            ptrResolver->addrToSaveInfo.find(weakInfo.obj.data, &ptrResolver->savedOwnedPtrs);
+        PLY_ASSERT(cursor.wasFound());
+        // Note: This performs a potentially unaligned write
+        *(u32*) PLY_PTR_OFFSET(view.bytes, weakInfo.fileOffset) =
+            ptrResolver->savedOwnedPtrs[*cursor].linkIndex;
+    }
+
     // Write link table
     NativeEndianWriter out{outs};
     out.write(linkIndex); // Number of linkable Owned pointers
-- 
2.43.0


From 43ef38b2ed6e450128951916be05be75890f694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:48 +0000
Subject: [PATCH 074/118] fix: a pointer to an owned object saved at the same
 offset as another one was linked to the wrong object

---
 .../src/reflect/ply-reflect/PersistWriteObject.cpp     | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp b/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
index 5b93045..557287e 100644
--- a/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/PersistWriteObject.cpp
@@ -33,6 +33,16 @@ void resolveLinksAndWriteLinkTable(MutableStringView view, OutStream* outs,
         }
     }
 
+    // When several owned pointers are saved at the same offset, entries in the link table are handed
+    // to them in order, so the ones that precede a linked pointer need an entry too
+    for (u32 i = ptrResolver->savedOwnedPtrs.numItems(); i > 1; i--) {
+        const SavedPtrResolver::SavedOwnedPtr& next = ptrResolver->savedOwnedPtrs[i - 1];
+        SavedPtrResolver::SavedOwnedPtr& prev = ptrResolver->savedOwnedPtrs[i - 2];
+        if (next.linkIndex >= 0 && prev.fileOffset == next.fileOffset) {
+            prev.linkIndex = 0;
+        }
+    }
+
     // Assign link indices in the order that the owned pointers were saved
     u32 linkIndex = 0;
     for (SavedPtrResolver::SavedOwnedPtr& savedOwnedPtr : ptrResolver->savedOwnedPtrs) {
-- 
2.43.0


From ffe909bb581d078142a997866cf147ed8bebf17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:59 +0000
Subject: [PATCH 075/118] fix: reading an enum from data of another kind
 misinterpreted its format

---
 repos/plywood/src/reflect/ply-reflect/TypeKey.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
index f887b4a..4b62b58 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
@@ -655,6 +655,11 @@ TypeKey TypeKey_Enum{
     },
     // read
     [](AnyObject obj, ReadObjectContext* context, FormatDescriptor* formatDesc) {
+        if ((FormatKey) formatDesc->formatKey != FormatKey::Enum) {
+            SLOG(Load, "Can't convert to Enum");
+            skip(context, formatDesc);
+            return;
+        }
         NativeEndianReader& in = context->in;
         FormatDescriptor_Enum* enumFormat = (FormatDescriptor_Enum*) formatDesc;
         TypeDescriptor_Enum* enumType = obj.type->cast<TypeDescriptor_Enum>();
-- 
2.43.0


From 6c856ee7a3ca6f1a93dcab5b2a0e2bd07e623890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:59 +0000
Subject: [PATCH 076/118] fix: reading a raw pointer from data of another kind
 misinterpreted it

---
 repos/plywood/src/reflect/ply-reflect/TypeKey.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
index 4b62b58..1320de9 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
@@ -744,6 +744,11 @@ TypeKey TypeKey_RawPtr{
     },
     // read
     [](AnyObject obj, ReadObjectContext* context, FormatDescriptor* formatDesc) {
+        if ((FormatKey) formatDesc->formatKey != FormatKey::RawPtr) {
+            SLOG(Load, "Can't convert to RawPtr");
+            skip(context, formatDesc);
+            return;
+        }
         TypeDescriptor_RawPtr* weakPtrType = obj.type->cast<TypeDescriptor_RawPtr>();
         LoadPtrResolver::RawPtr* weakPtr = (LoadPtrResolver::RawPtr*) obj.data;
 
-- 
2.43.0


From 6349ecd037f4fe9b4e3b442e8676b7171e3e88c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:09 +0000
Subject: [PATCH 077/118] fix: importing Pylon into an Owned pointer leaked its
 previous target

---
 repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp b/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp
index d41d7d3..35ee69e 100644
--- a/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp
+++ b/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp
@@ -247,6 +247,7 @@ PLY_NO_INLINE void convertFrom(AnyObject obj, const Node* aNode,
     } else if (obj.type->typeKey == &TypeKey_Owned) {
         auto* ownedDesc = obj.type->cast<TypeDescriptor_Owned>();
         AnyObject created = AnyObject::create(ownedDesc->targetType);
+        obj.destruct(); // Destroy the existing target, if any
         *(void**) obj.data = created.data;
         convertFrom(created, aNode, typeFromName);
     } else {
-- 
2.43.0


From d683c62626342d76c03e37cb37ae79f38339df83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:27 +0000
Subject: [PATCH 078/118] fix: importing Pylon into an AnySavedObject released
 the type of its previous object too early

---
 repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp b/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp
index 35ee69e..063e249 100644
--- a/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp
+++ b/repos/plywood/src/pylon/reflect/pylon-reflect/Import.cpp
@@ -210,8 +210,9 @@ PLY_NO_INLINE void convertFrom(AnyObject obj, const Node* aNode,
         PLY_ASSERT(aNode->isObject());
         TypeDescriptorOwner* targetTypeOwner = convertTypeFrom(aNode->get("type"), typeFromName);
         AnySavedObject* savedTypedPtr = (AnySavedObject*) obj.data;
-        savedTypedPtr->typeOwner = targetTypeOwner;
+        // Replace the existing object before releasing its type
         savedTypedPtr->owned = AnyObject::create(targetTypeOwner->getRootType());
+        savedTypedPtr->typeOwner = targetTypeOwner;
         convertFrom(savedTypedPtr->owned, aNode->get("value"), typeFromName);
     } else if (obj.type->typeKey == &TypeKey_TypedArray) {
         PLY_ASSERT(aNode->isObject());
-- 
2.43.0


From 4af7e3deec5f84bb073e993db5f6b3b126a39b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:47 +0000
Subject: [PATCH 079/118] fix: the contents of synthesized TypeDescriptors were
 leaked

---
 repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h b/repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h
index fd71063..44207a4 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h
+++ b/repos/plywood/src/reflect/ply-reflect/TypeDescriptor_Def.h
@@ -123,6 +123,9 @@ struct TypeDescriptor {
     // by PLY_STRUCT_BEGIN. The only TypeDescriptors that ever get destroyed are ones that are
     // synthesized at runtime. The lifetime of those TypeDescriptors is managed by a
     // TypeDescriptorOwner, which knows how to correctly destruct them.
+    virtual ~TypeDescriptor() {
+    } // just for TypeDescriptor_Struct
+
     template <class T>
     T* cast() {
         PLY_ASSERT(typeKey == T::typeKey);
-- 
2.43.0


From b34214d63f7f423fad483f0b6926ff98dca37f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:49 +0000
Subject: [PATCH 080/118] fix: reading an asset into an array that was not
 empty leaked its items

---
 repos/plywood/src/reflect/ply-reflect/TypeKey.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
index 1320de9..91027e7 100644
--- a/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
+++ b/repos/plywood/src/reflect/ply-reflect/TypeKey.cpp
@@ -344,7 +344,10 @@ TypeKey TypeKey_Array{
         u32 arrSize = context->in.read<u32>();
         PLY_ASSERT(arrSize < 10000000);
         details::BaseArray* arr = (details::BaseArray*) obj.data;
-        // FIXME: Destruct existing elements if array not empty
+        // Destruct existing elements if array not empty
+        for (u32 i : range(arr->m_numItems)) {
+            itemType->bindings.destruct({PLY_PTR_OFFSET(arr->m_items, itemSize * i), itemType});
+        }
         arr->realloc(arrSize, itemSize);
         void* item = arr->m_items;
         for (u32 i : range((u32) arrSize)) {
-- 
2.43.0


From 7c045d098ba3a0993efae02d90bdb314ff53a7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:49 +0000
Subject: [PATCH 081/118] fix: an empty Markdown heading failed an assertion

---
 repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 327956e..5bca377 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -657,6 +657,8 @@ Array<Owned<Node>> processEmphasis(Array<Delimiter>& delimiters, u32 bottomPos)
 }
 
 Array<Owned<Node>> expandInlineElements(ArrayView<const String> rawLines) {
+    if (rawLines.numItems == 0)
+        return {}; // An empty heading
     Array<Delimiter> delimiters;
     InlineConsumer ic{rawLines};
     u32 flushedIndex = 0;
-- 
2.43.0


From 5ec653d78147dd17cc86ea90790cd7279a16e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:49 +0000
Subject: [PATCH 082/118] fix: a Markdown list or quote marker followed by a
 blank failed an assertion

---
 .../plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp  | 5 +++--
 .../plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp b/repos/plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp
index 5e55085..b6ca7fd 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ConvertToHTML.cpp
@@ -39,8 +39,9 @@ void convertToHTML(OutStream* outs, const Node* node, const HTMLOptions& options
         }
         case Node::ListItem: {
             *outs << "<li>";
-            if (!node->parent->isLoose && node->children[0]->type == Node::Paragraph) {
-                // Don't output a newline before the paragraph in a tight list.
+            if (node->children.isEmpty() ||
+                (!node->parent->isLoose && node->children[0]->type == Node::Paragraph)) {
+                // Don't output a newline in an empty item or before the paragraph in a tight list.
             } else {
                 *outs << "\n";
             }
diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 5bca377..4254b56 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -198,7 +198,7 @@ struct Parser {
         PLY_ASSERT(!lc.trimmedRemainder().isEmpty()); // Not called if remainder of line is blank
 
         // Attempt to parse new Node markers
-        while (lc.vins.numBytesAvailable() > 0) {
+        while (!lc.trimmedRemainder().isEmpty()) {
             if (lc.innerIndent() >= 4)
                 break;
 
-- 
2.43.0


From 3a5e2e46650f983523ccbe62700dd82e5cf45595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:49 +0000
Subject: [PATCH 083/118] fix: a Markdown quote directly after a paragraph was
 merged into the paragraph

---
 repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 4254b56..79be1a7 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -241,6 +241,8 @@ struct Parser {
             PLY_ASSERT(!isWhite(c));
             if (c == '>') {
                 // Begin a new blockquote
+                this->leafNode = nullptr;
+                this->numBlankLinesInCodeBlock = 0;
                 this->blockNodes.append(new Node{this->blockNodes.back(), Node::BlockQuote});
                 // Consume optional space after '>'
                 lc.vins.advanceByte();
-- 
2.43.0


From 3febdd94f2a05c3503a4f89c86085392f9e4df8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:29 +0000
Subject: [PATCH 084/118] fix: a Markdown line starting with a carriage return
 failed an assertion

---
 repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 79be1a7..1786c34 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -238,7 +238,6 @@ struct Parser {
             };
 
             char c = *lc.vins.curByte;
-            PLY_ASSERT(!isWhite(c));
             if (c == '>') {
                 // Begin a new blockquote
                 this->leafNode = nullptr;
-- 
2.43.0


From 5263c1280e24349de912935cc2c4d337037254b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:41 +0000
Subject: [PATCH 085/118] fix: a Markdown list item continued by a code block
 was not made loose, and failed an assertion later

---
 .../markdown/web-markdown/ParseMarkdown.cpp   | 35 +++++++++----------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 1786c34..e3f9869 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -314,6 +314,23 @@ struct Parser {
     PLY_NO_INLINE void parseParagraphText(StringView line, LineConsumer& lc) {
         StringView remainingText = lc.trimmedRemainder();
         bool hasPara = this->leafNode && this->leafNode->type == Node::Paragraph;
+        // We're going to create or extend a leaf node.
+        // First, check if any Lists should be marked loose:
+        if (remainingText && this->checkListContinuations) {
+            // Yes, we should mark some (possibly zero) lists loose. It's impossible for a
+            // leaf node to exist at this point:
+            PLY_ASSERT(!this->leafNode);
+            for (Node* node : this->blockNodes) {
+                if (node->type == Node::ListItem) {
+                    PLY_ASSERT(node->parent->type == Node::List);
+                    if (node->parent->isLooseIfContinued) {
+                        node->parent->isLoose = true;
+                        node->parent->isLooseIfContinued = false;
+                    }
+                }
+            }
+            this->checkListContinuations = false;
+        }
         if (!hasPara && lc.innerIndent() >= 4) {
             // Potentially begin or append to code Node
             if (remainingText && !this->leafNode) {
@@ -332,24 +349,6 @@ struct Parser {
             }
         } else {
             if (remainingText) {
-                // We're going to create or extend a leaf node.
-                // First, check if any Lists should be marked loose:
-                if (this->checkListContinuations) {
-                    // Yes, we should mark some (possibly zero) lists loose. It's impossible for a
-                    // leaf node to exist at this point:
-                    PLY_ASSERT(!this->leafNode);
-                    for (Node* node : this->blockNodes) {
-                        if (node->type == Node::ListItem) {
-                            PLY_ASSERT(node->parent->type == Node::List);
-                            if (node->parent->isLooseIfContinued) {
-                                node->parent->isLoose = true;
-                                node->parent->isLooseIfContinued = false;
-                            }
-                        }
-                    }
-                    this->checkListContinuations = false;
-                }
-
                 if (*lc.vins.curByte == '#' && lc.innerIndent() <= 3) {
                     // Attempt to parse a heading
                     auto savePoint = lc.vins.savePoint();
-- 
2.43.0


From a2b8f5ddefb6f7514d205b73da54ccdb28b44e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:41 +0000
Subject: [PATCH 086/118] fix: a Markdown list directly after a code block was
 taken for a paragraph

---
 .../src/web/markdown/web-markdown/ParseMarkdown.cpp       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index e3f9869..332cc89 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -237,6 +237,8 @@ struct Parser {
                 this->blockNodes.append(listItem);
             };
 
+            bool insideParagraph =
+                this->leafNode && this->leafNode->type == Node::Paragraph;
             char c = *lc.vins.curByte;
             if (c == '>') {
                 // Begin a new blockquote
@@ -256,7 +258,7 @@ struct Parser {
                 u32 indentAfterStar = lc.indent;
                 if (!lc.consumeSpaceOrTab())
                     goto notMarker;
-                if (this->leafNode && lc.trimmedRemainder().isEmpty()) {
+                if (insideParagraph && lc.trimmedRemainder().isEmpty()) {
                     // If the list item interrupts a paragraph, it must not begin with a blank line.
                     goto notMarker;
                 }
@@ -266,7 +268,7 @@ struct Parser {
                 gotListMarker(-1, c);
             } else if (isDecimalDigit(c)) {
                 u64 num = lc.vins.parse<u64>();
-                if (this->leafNode && num != 1) {
+                if (insideParagraph && num != 1) {
                     // If list item interrupts a paragraph, the start number must be 1.
                     goto notMarker;
                 }
@@ -286,7 +288,7 @@ struct Parser {
                 u32 indentAfterMarker = lc.indent;
                 if (!lc.consumeSpaceOrTab())
                     goto notMarker;
-                if (this->leafNode && lc.trimmedRemainder().isEmpty()) {
+                if (insideParagraph && lc.trimmedRemainder().isEmpty()) {
                     // If the list item interrupts a paragraph, it must not begin with a blank line.
                     goto notMarker;
                 }
-- 
2.43.0


From f51cd6fce4c467bf67ae9d676c3d2017ae014e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:18 +0000
Subject: [PATCH 087/118] fix: contents of a Markdown list item inside another
 container were taken out of the item

---
 repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 332cc89..1e4651a 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -204,6 +204,7 @@ struct Parser {
 
             auto savePoint = lc.vins.savePoint();
             u32 savedIndent = lc.indent;
+            u32 savedOuterIndent = lc.outerIndent;
 
             // This code block will handle any list markers encountered:
             auto gotListMarker = [&](s32 markerNumber, char punc) {
@@ -233,7 +234,8 @@ struct Parser {
                     listNode->listPunc = punc;
                 }
                 Node* listItem = new Node{listNode, Node::ListItem};
-                listItem->indentOrLevel = lc.outerIndent;
+                // Relative to the container, as expected by matchExistingIndentation():
+                listItem->indentOrLevel = lc.outerIndent - savedOuterIndent;
                 this->blockNodes.append(listItem);
             };
 
-- 
2.43.0


From 561aa41b4545566fb02be7cd3f8309379850ac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:18 +0000
Subject: [PATCH 088/118] fix: a Markdown list at the start of a list item
 became a child of the outer list

---
 repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index 1e4651a..bd3ad0b 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -222,10 +222,6 @@ struct Parser {
                         // Add item to existing list
                         listNode = potentialParent;
                     }
-                } else if (parentCtr->type == Node::ListItem) {
-                    // Begin new list as a sublist of existing list
-                    parentCtr = parentCtr->parent;
-                    PLY_ASSERT(parentCtr->type == Node::List);
                 }
                 if (!listNode) {
                     // Begin new list
-- 
2.43.0


From 7a483f25ccac1793ac25a9d1803dfd6ef08421a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:08 +0000
Subject: [PATCH 089/118] fix: an escaped character in a Markdown link
 destination was taken for markup again

---
 .../plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index bd3ad0b..dc1af95 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -547,10 +547,12 @@ Tuple<bool, String> parseLinkDestination(InlineConsumer& ic) {
                 break;
             }
             c = ic.rawLine[ic.i];
-            if (!isAscPunc(c)) {
+            if (isAscPunc(c)) {
+                ic.i++;
+                mout << c;
+            } else {
                 mout << '\\';
             }
-            mout << c;
         } else if (c == '(') {
             ic.i++;
             mout << c;
-- 
2.43.0


From a52c57f8e9411a52dba8b044eca290604393f25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:45 +0000
Subject: [PATCH 090/118] fix: Markdown emphasis by underscores was missed
 after an unmatched star

---
 repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
index dc1af95..219cfb4 100644
--- a/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
+++ b/repos/plywood/src/web/markdown/web-markdown/ParseMarkdown.cpp
@@ -639,7 +639,7 @@ Array<Owned<Node>> processEmphasis(Array<Delimiter>& delimiters, u32 bottomPos)
                     delimiters.insert(j) = std::move(elem);
                     pos = j;
                     starOpener = min(starOpener, pos + 1);
-                    underscoreOpener = min(starOpener, pos + 1);
+                    underscoreOpener = min(underscoreOpener, pos + 1);
                     return;
                 }
             }
-- 
2.43.0


From dbb17b0d1c63ee5c903dc1641973c5b94e86db41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:10 +0000
Subject: [PATCH 091/118] fix: image::toABGR put the red component in the place
 of the green one

---
 repos/plywood/src/image/image/image/Image.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/image/image/image/Image.h b/repos/plywood/src/image/image/image/Image.h
index c22bcf5..9b1a2fb 100644
--- a/repos/plywood/src/image/image/image/Image.h
+++ b/repos/plywood/src/image/image/image/Image.h
@@ -33,7 +33,7 @@ enum class Format : u8 {
 
 #if PLY_IS_BIG_ENDIAN
 inline u32 toRGBA(const Int4<u8>& color) {
-    return (color.w) | (color.z << 8) | (color.y << 16) | (color.x << 16);
+    return u32(color.w) | (u32(color.z) << 8) | (u32(color.y) << 16) | (u32(color.x) << 24);
 }
 inline u32 toABGR(const Int4<u8>& color) {
     return (const u32&) color;
@@ -43,7 +43,7 @@ inline u32 toRGBA(const Int4<u8>& color) {
     return (const u32&) color;
 }
 inline u32 toABGR(const Int4<u8>& color) {
-    return (color.w) | (color.z << 8) | (color.y << 16) | (color.x << 16);
+    return u32(color.w) | (u32(color.z) << 8) | (u32(color.y) << 16) | (u32(color.x) << 24);
 }
 #endif
 
-- 
2.43.0


From 3fc2fa86f0a93146e71b5e5ca964ffbf1e651798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:10 +0000
Subject: [PATCH 092/118] fix: linearToSRGB took intensities above 127 for
 negative

---
 repos/plywood/src/image/image/image/Image.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/image/image/image/Image.cpp b/repos/plywood/src/image/image/image/Image.cpp
index 643a667..8b66d1b 100644
--- a/repos/plywood/src/image/image/image/Image.cpp
+++ b/repos/plywood/src/image/image/image/Image.cpp
@@ -43,11 +43,11 @@ void linearToSRGB(Image& dst, const Image& src) {
     while (dstRow < dstRowEnd) {
         u32* d = (u32*) dstRow;
         u32* dEnd = d + dst.width;
-        char* s = srcRow;
+        u8* s = (u8*) srcRow;
         while (d < dEnd) {
             float invGamma = powf(*s / 255.f, 1 / 2.2f);
             u32 value = u32(roundf(invGamma * 255.f));
-            *d = ((0x10101 * value) & 0xffffff) | ((255 - *s) << 24);
+            *d = ((0x10101 * value) & 0xffffff) | (u32(255 - *s) << 24);
             //            *d |= 0xff000000;
             d++;
             s++;
-- 
2.43.0


From 51fecc654af8a3a2233521aa57a6262406104c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:06 +0000
Subject: [PATCH 093/118] fix: Box::full() was empty

---
 repos/plywood/src/math/math/ply-math/Box.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/math/math/ply-math/Box.h b/repos/plywood/src/math/math/ply-math/Box.h
index cfacd94..84b883b 100644
--- a/repos/plywood/src/math/math/ply-math/Box.h
+++ b/repos/plywood/src/math/math/ply-math/Box.h
@@ -170,7 +170,7 @@ struct Box {
     }
 
     static Box full() {
-        return {V{Limits<T>::Min}, V{Limits<T>::Min}};
+        return {V{Limits<T>::Min}, V{Limits<T>::Max}};
     }
 };
 
-- 
2.43.0


From de742879fa8fd24c77d726c89530e4562d931083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:06 +0000
Subject: [PATCH 094/118] fix: Box::clamp() did not compile, as it found itself
 instead of the function for vectors

---
 repos/plywood/src/math/math/ply-math/Box.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/math/math/ply-math/Box.h b/repos/plywood/src/math/math/ply-math/Box.h
index 84b883b..f578ba8 100644
--- a/repos/plywood/src/math/math/ply-math/Box.h
+++ b/repos/plywood/src/math/math/ply-math/Box.h
@@ -137,6 +137,7 @@ struct Box {
     }
 
     V clamp(const V& arg) const {
+        using ply::clamp;
         return clamp(arg, mins, maxs);
     }
 
-- 
2.43.0


From d139c8f89993f5bc3bf46a64d14207cfde1dbdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:06 +0000
Subject: [PATCH 095/118] fix: Box::operator/=() did not compile

---
 repos/plywood/src/math/math/ply-math/Box.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos/plywood/src/math/math/ply-math/Box.h b/repos/plywood/src/math/math/ply-math/Box.h
index f578ba8..0286205 100644
--- a/repos/plywood/src/math/math/ply-math/Box.h
+++ b/repos/plywood/src/math/math/ply-math/Box.h
@@ -76,8 +76,8 @@ struct Box {
         return *this * (T(1) / arg);
     }
 
-    Box& operator/=(const V& arg) {
-        return *this *= (T(1) / arg);
+    void operator/=(const V& arg) {
+        *this *= (T(1) / arg);
     }
 
     // ==
-- 
2.43.0


From 5117f9c38da45e79b078118e817f30a224288be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:06 +0000
Subject: [PATCH 096/118] fix: makeProjection used the width of the frustum for
 its vertical offset

---
 repos/plywood/src/math/math/ply-math/Matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/math/math/ply-math/Matrix.cpp b/repos/plywood/src/math/math/ply-math/Matrix.cpp
index b0903ed..cc284e1 100644
--- a/repos/plywood/src/math/math/ply-math/Matrix.cpp
+++ b/repos/plywood/src/math/math/ply-math/Matrix.cpp
@@ -285,7 +285,7 @@ PLY_NO_INLINE Float4x4 Float4x4::makeProjection(const Rect& frustum, float zNear
     result.col[0].x = 2.f * ooXDenom;
     result.col[2].x = (frustum.mins.x + frustum.maxs.x) * ooXDenom;
     result.col[1].y = 2.f * ooYDenom;
-    result.col[2].y = (frustum.mins.y + frustum.maxs.y) * ooXDenom;
+    result.col[2].y = (frustum.mins.y + frustum.maxs.y) * ooYDenom;
     result.col[2].z = (zNear + zFar) * ooZDenom;
     result.col[2].w = -1.f;
     result.col[3].z = (2 * zNear * zFar) * ooZDenom;
-- 
2.43.0


From bca15d29b10a8082339785ab3695c125b4de1ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:06 +0000
Subject: [PATCH 097/118] fix: ScalePos2::makeTranslation() scaled everything
 to zero

---
 repos/plywood/src/math/math/ply-math/QuatPos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/math/math/ply-math/QuatPos.h b/repos/plywood/src/math/math/ply-math/QuatPos.h
index bf9d301..c95a925 100644
--- a/repos/plywood/src/math/math/ply-math/QuatPos.h
+++ b/repos/plywood/src/math/math/ply-math/QuatPos.h
@@ -31,7 +31,7 @@ struct ScalePos2 {
     }
 
     static ScalePos2 makeTranslation(const Float2& pos) {
-        return {{0, 0}, pos};
+        return {{1, 1}, pos};
     }
 
     static ScalePos2 mapToRect(const Rect& r) {
-- 
2.43.0


From 46bbb0bce4cbd0d7ae23c5765efe64b626db5ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:06 +0000
Subject: [PATCH 098/118] fix: AxisRotPos::toFloat4x4() dropped the translation

---
 repos/plywood/src/math/math/ply-math/AxisVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/math/math/ply-math/AxisVector.h b/repos/plywood/src/math/math/ply-math/AxisVector.h
index f4cb51a..9d8de94 100644
--- a/repos/plywood/src/math/math/ply-math/AxisVector.h
+++ b/repos/plywood/src/math/math/ply-math/AxisVector.h
@@ -299,7 +299,7 @@ struct AxisRotPos {
     }
 
     Float4x4 toFloat4x4() const {
-        return Float4x4{rot.toFloat3x3()};
+        return Float4x4{rot.toFloat3x3(), pos};
     }
 };
 
-- 
2.43.0


From e9c73f8cbf29948d807dabce4e05ee893e918b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:06 +0000
Subject: [PATCH 099/118] fix: Quaternion::fromOrtho(const Float3x4&) was
 declared but not defined

---
 repos/plywood/src/math/math/ply-math/Matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/math/math/ply-math/Matrix.h b/repos/plywood/src/math/math/ply-math/Matrix.h
index d4280b9..f1079f1 100644
--- a/repos/plywood/src/math/math/ply-math/Matrix.h
+++ b/repos/plywood/src/math/math/ply-math/Matrix.h
@@ -372,7 +372,7 @@ implicit fourth row.
 */
 Float3x4 operator*(const Float3x4& a, const Float3x4& b);
 
-PLY_INLINE static Quaternion fromOrtho(const Float3x4& m) {
+PLY_INLINE Quaternion Quaternion::fromOrtho(const Float3x4& m) {
     return Quaternion::fromOrtho(m.asFloat3x3());
 }
 
-- 
2.43.0


From 8d4c6ad843e62927b97aa66871517b919e833db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:06 +0000
Subject: [PATCH 100/118] fix: a QuatPos constructed from a quaternion had an
 uninitialized translation

---
 repos/plywood/src/math/math/ply-math/QuatPos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/math/math/ply-math/QuatPos.h b/repos/plywood/src/math/math/ply-math/QuatPos.h
index c95a925..16a9609 100644
--- a/repos/plywood/src/math/math/ply-math/QuatPos.h
+++ b/repos/plywood/src/math/math/ply-math/QuatPos.h
@@ -90,7 +90,7 @@ struct QuatPos {
     /*!
     Constructs a `QuatPos` from a quaternion.
     */
-    explicit PLY_INLINE QuatPos(const Quaternion& quat) : quat(quat) {
+    explicit PLY_INLINE QuatPos(const Quaternion& quat) : quat(quat), pos(0, 0, 0) {
     }
     /*!
     Constructs a `QuatPos` from a quaternion and a translation.
-- 
2.43.0


From 842b88743b775d4a5bc81062a11bd9c400be5f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:53 +0000
Subject: [PATCH 101/118] fix: derivativeCubic returned a third of the
 derivative

---
 repos/plywood/src/math/math/ply-math/Interpolate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/math/math/ply-math/Interpolate.h b/repos/plywood/src/math/math/ply-math/Interpolate.h
index 63cfb9b..c912e39 100644
--- a/repos/plywood/src/math/math/ply-math/Interpolate.h
+++ b/repos/plywood/src/math/math/ply-math/Interpolate.h
@@ -22,7 +22,7 @@ T derivativeCubic(const T& p0, const T& p1, const T& p2, const T& p3, float t) {
     T r0 = mix(q0, q1, t);
     T r1 = mix(q1, q2, t);
     T p = mix(r0, r1, t);
-    return p;
+    return p * 3.f;
 }
 
 inline float applySimpleCubic(float t) {
-- 
2.43.0


From 0082e656e5ffb6032ad98ceac9d430d8042b93a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:53 +0000
Subject: [PATCH 102/118] fix: clampLength did not compile for any vector

---
 repos/plywood/src/math/math/ply-math/Extra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/math/math/ply-math/Extra.h b/repos/plywood/src/math/math/ply-math/Extra.h
index ae0bb74..01c7c0d 100644
--- a/repos/plywood/src/math/math/ply-math/Extra.h
+++ b/repos/plywood/src/math/math/ply-math/Extra.h
@@ -65,7 +65,7 @@ T approach(const T& from, const T& to, decltype(T::x) step) {
 
 template <class V>
 V clampLength(const V& vec, float maxLen) {
-    typename V::T length = vec.length();
+    decltype(V::x) length = vec.length();
     return (length <= maxLen) ? vec : vec * (maxLen / length);
 }
 
-- 
2.43.0


From 9639e54a67d7b3e7fe4078206d62d8af822d7e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:18 +0000
Subject: [PATCH 103/118] fix: DateTime::fromEpochMicroseconds() rounds times
 before 1970 down to the day

---
 repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp b/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp
index 15297d1..3950736 100644
--- a/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp
@@ -50,7 +50,7 @@ PLY_INLINE T floorDiv(T dividend, T divisor) {
     PLY_STATIC_ASSERT(std::is_arithmetic<T>::value);
     PLY_ASSERT(divisor > 0);
     if (dividend < 0) {
-        dividend += divisor - 1;
+        dividend -= divisor - 1;
     }
     return dividend / divisor;
 }
-- 
2.43.0


From 4fdd25eeba61adb1ab8eb524103ae62d76053201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:23 +0000
Subject: [PATCH 104/118] fix: DateTime::weekday is counted from January 1,
 1970

---
 repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp b/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp
index 3950736..59728eb 100644
--- a/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp
+++ b/repos/plywood/src/runtime/ply-runtime/time/DateTime.cpp
@@ -57,6 +57,7 @@ PLY_INLINE T floorDiv(T dividend, T divisor) {
 
 // Based on http://howardhinnant.github.io/date_algorithms.html
 void setDateFromEpochDays(DateTime* dateTime, s32 days) {
+    dateTime->weekday = safeDemote<u8>(days >= -4 ? (days + 4) % 7 : (days + 5) % 7 + 6);
     days += 719468;
     s32 era = (days >= 0 ? days : days - 146096) / 146097;
     u32 doe = u32(days - era * 146097);                              // [0, 146096]
@@ -69,7 +70,6 @@ void setDateFromEpochDays(DateTime* dateTime, s32 days) {
     dateTime->year = y + (m <= 2);
     dateTime->month = safeDemote<u8>(m);
     dateTime->day = safeDemote<u8>(d);
-    dateTime->weekday = safeDemote<u8>(days >= -4 ? (days + 4) % 7 : (days + 5) % 7 + 6);
 }
 
 // Based on http://howardhinnant.github.io/date_algorithms.html
-- 
2.43.0


From c8f206df1dc6f63e54e8c1579a1aa77627fafd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:19:23 +0000
Subject: [PATCH 105/118] fix: libraries of an extern are listed after those it
 depends on

---
 .../src/build/target/ply-build-target/Dependency.cpp      | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/repos/plywood/src/build/target/ply-build-target/Dependency.cpp b/repos/plywood/src/build/target/ply-build-target/Dependency.cpp
index 6a19945..5c5740d 100644
--- a/repos/plywood/src/build/target/ply-build-target/Dependency.cpp
+++ b/repos/plywood/src/build/target/ply-build-target/Dependency.cpp
@@ -60,6 +60,12 @@ PLY_NO_INLINE void propagateDependencyProperties(Dependency* dep) {
     buildDeps.append(dep);
     dep->visibleDeps.append(dep);
 
+    // Libraries are listed after the ones they depend on
+    Array<String> externLibs;
+    if (!depTarget) {
+        externLibs = std::move(dep->libs);
+    }
+
     for (const Tuple<Visibility, Dependency*>& child : dep->dependencies) {
         propagateDependencyProperties(child.second);
 
@@ -113,6 +119,8 @@ PLY_NO_INLINE void propagateDependencyProperties(Dependency* dep) {
         }
     }
 
+    merge<String>(dep->libs, externLibs);
+
     // Import/Export definitions
     if (depTarget) {
         for (Dependency* buildDep : buildDeps) {
-- 
2.43.0


From 2463a188b657406b114df9858b24cb438b1727ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:50 +0000
Subject: [PATCH 106/118] fix: what follows a shared root is not part of its
 shared library

---
 .../src/build/repo/ply-build-repo/ProjectInstantiator.cpp     | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp b/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp
index be40e98..1f819e3 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/ProjectInstantiator.cpp
@@ -58,9 +58,7 @@ Dependency* ProjectInstantiator::instantiate(const DependencySource* depSrc, boo
         // There could be clashes when multiple repos are used.
         buildTarget->name = depSrc->name;
         this->result->dependencies.append(depSrc, dep);
-        if (isSharedRoot) {
-            this->sharedContainer = buildTarget;
-        }
+        PLY_SET_IN_SCOPE(this->sharedContainer, isSharedRoot ? buildTarget : this->sharedContainer);
         buildTarget->sharedContainer = this->sharedContainer;
 
         ModuleArgs args;
-- 
2.43.0


From 26fb7098686bc3560fe4e7e9354ba088972df752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:47 +0000
Subject: [PATCH 107/118] fix: an extern's name alone is reported as too short
 for a provider name

---
 repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
index 82036c7..356f46b 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
@@ -309,6 +309,7 @@ RepoRegistry::getExternProvider(StringView qualifiedName) const {
         ErrorHandler::log(
             ErrorHandler::Error,
             String::format("Not enough components in extern provider name '{}'\n", qualifiedName));
+        return nullptr;
     }
     auto repoCursor = this->repos.find(comps[0]);
     if (repoCursor.wasFound()) {
-- 
2.43.0


From ddf41cd2ceca02b01a95f37c88270eba1e3fe687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:47 +0000
Subject: [PATCH 108/118] fix: extern names with too many components are
 rejected

---
 repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
index 356f46b..fa5260a 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
@@ -290,6 +290,7 @@ PLY_NO_INLINE const DependencySource* RepoRegistry::findExtern(StringView extern
     if (!comps.isEmpty()) {
         ErrorHandler::log(ErrorHandler::Error,
                           String::format("Too many components in extern name '{}'\n", externName));
+        return nullptr;
     }
     return extern_;
 }
-- 
2.43.0


From 9b89882d280bd55a493ce73860bb904de4028ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:47 +0000
Subject: [PATCH 109/118] fix: the message about an extern that is not in a
 repo shows its name

---
 repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
index fa5260a..2422c39 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
@@ -242,7 +242,7 @@ PLY_NO_INLINE const DependencySource* findExternInternal(const RepoRegistry* rep
         const DependencySource* extern_ = (*repoCursor)->findExternImm(externName);
         if (!extern_) {
             ErrorHandler::log(ErrorHandler::Error,
-                              String::format("Can't find extern '{}' in repo '{}'\n", externName[1],
+                              String::format("Can't find extern '{}' in repo '{}'\n", externName,
                                              (*repoCursor)->repoName));
             return nullptr;
         }
-- 
2.43.0


From 3e0c8fa3669f58f2a27dc3d3841ea07a695dc517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:47 +0000
Subject: [PATCH 110/118] fix: target names with too many components are
 rejected

---
 repos/plywood/src/build/repo/ply-build-repo/ModuleArgs.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/ModuleArgs.cpp b/repos/plywood/src/build/repo/ply-build-repo/ModuleArgs.cpp
index e5bdf03..389dbbc 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/ModuleArgs.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/ModuleArgs.cpp
@@ -102,6 +102,11 @@ PLY_NO_INLINE void ModuleArgs::addTarget(Visibility visibility, StringView targe
     }
 
     PLY_ASSERT(targetInst);
+    if (!comps.isEmpty()) {
+        ErrorHandler::log(ErrorHandler::Error,
+                          String::format("Too many components in target name '{}'\n", targetName));
+        return;
+    }
     addDependency(this, targetInst, visibility);
 }
 
-- 
2.43.0


From 00505bb25007d3ef762bc86b465d9c985cfca51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:47 +0000
Subject: [PATCH 111/118] fix: getTargetOutputPath() of a static library

---
 repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp b/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
index 03083fc..ad6016f 100644
--- a/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
+++ b/repos/plywood/src/build/target/ply-build-target/CMakeLists.cpp
@@ -395,7 +395,7 @@ String getTargetOutputPath(BuildTargetType targetType, StringView targetName,
         filePrefix = "lib";
         fileExtension = ".so";
 #endif
-    } else if (targetType == BuildTargetType::DLL) {
+    } else if (targetType == BuildTargetType::Lib) {
 #if PLY_TARGET_WIN32
         fileExtension = ".lib";
 #else
-- 
2.43.0


From f62fe477e5a100cf65379785efe12e3e44a63992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:58 +0000
Subject: [PATCH 112/118] fix: an extern provider is found by its fully
 qualified name

---
 .../src/build/repo/ply-build-repo/RepoRegistry.cpp     | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
index 2422c39..953c9ca 100644
--- a/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
+++ b/repos/plywood/src/build/repo/ply-build-repo/RepoRegistry.cpp
@@ -306,6 +306,7 @@ RepoRegistry::getExternProvider(StringView qualifiedName) const {
         return nullptr;
 
     // Find provider
+    u32 numExternComps = compsOwner.numItems() - comps.numItems;
     if (comps.isEmpty()) {
         ErrorHandler::log(
             ErrorHandler::Error,
@@ -346,6 +347,15 @@ RepoRegistry::getExternProvider(StringView qualifiedName) const {
                                qualifiedName));
             return nullptr;
         }
+        if (numExternComps == 2) {
+            // The extern was qualified, so prefer a provider defined in the same repo:
+            const Array<Owned<ExternProvider>>& providers = extern_->repo->externProviders;
+            s32 j = find(providers, [&](const ExternProvider* p) {
+                return p->extern_ == extern_ && p->providerName == comps[0];
+            });
+            if (j >= 0 && comps.numItems == 1)
+                return providers[j];
+        }
         const ExternProvider* provider = nullptr;
         bool conflict = false;
         for (const Repo* repo : this->repos) {
-- 
2.43.0


From 3fbc9508c81adc4a36e4257fea72f3e7b0662e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:58 +0000
Subject: [PATCH 113/118] fix: the signature of a build folder tells apart
 where its strings start and end

---
 .../folder/ply-build-folder/BuildFolder.cpp      | 16 ++++++++++++----
 .../build/target/ply-build-target/CMakeLists.h   | 10 ++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp b/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
index 8cb4c6e..6d54452 100644
--- a/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
+++ b/repos/plywood/src/build/folder/ply-build-folder/BuildFolder.cpp
@@ -218,18 +218,26 @@ PLY_NO_INLINE DependencyTree BuildFolder::buildDepTree() const {
 
 PLY_NO_INLINE u128 BuildFolder::currentBuildSystemSignature() const {
     Hash128 h;
+    auto appendNumber = [&](u32 number) { h.append({(const char*) &number, sizeof(number)}); };
+    auto appendString = [&](StringView str) {
+        appendNumber(str.numBytes);
+        h.append(str);
+    };
     u128 mds = RepoRegistry::get()->moduleDefSignature;
     h.append({(const char*) &mds, sizeof(mds)});
-    h.append(this->solutionName);
+    appendString(this->solutionName);
     this->cmakeOptions.appendTo(h);
+    appendNumber(this->rootTargets.numItems());
     for (StringView rt : this->rootTargets) {
-        h.append(rt);
+        appendString(rt);
     }
+    appendNumber(this->makeShared.numItems());
     for (StringView ms : this->makeShared) {
-        h.append(ms);
+        appendString(ms);
     }
+    appendNumber(this->externSelectors.numItems());
     for (StringView es : this->externSelectors) {
-        h.append(es);
+        appendString(es);
     }
     return h.get();
 }
diff --git a/repos/plywood/src/build/target/ply-build-target/CMakeLists.h b/repos/plywood/src/build/target/ply-build-target/CMakeLists.h
index fa5e294..56a916c 100644
--- a/repos/plywood/src/build/target/ply-build-target/CMakeLists.h
+++ b/repos/plywood/src/build/target/ply-build-target/CMakeLists.h
@@ -21,10 +21,12 @@ struct CMakeGeneratorOptions {
 
     template <typename Hasher>
     void appendTo(Hasher& h) const {
-        h.append(this->generator);
-        h.append(this->platform);
-        h.append(this->toolset);
-        h.append(this->toolchainFile);
+        for (StringView str :
+             {this->generator.view(), this->platform.view(), this->toolset.view(),
+              this->toolchainFile.view()}) {
+            h.append({(const char*) &str.numBytes, sizeof(str.numBytes)});
+            h.append(str);
+        }
     }
 };
 
-- 
2.43.0


From a1554822516aacd80621cc9fb24335cfa0e29d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:36 +0000
Subject: [PATCH 114/118] fix: the end-of-file token has a location

---
 repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index bc50da7..0c30706 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -864,6 +864,9 @@ PLY_NO_INLINE Token readToken(Preprocessor* pp) {
         return token;
     }
 
+    if (token.linearLoc < 0) {
+        token.linearLoc = pp->linearLocAtEndOfStackTop;
+    }
     token.type = Token::EndOfFile;
     return token;
 }
-- 
2.43.0


From 81b75bb23511751dd2886f4e7ece94e75d032f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:36 +0000
Subject: [PATCH 115/118] fix: a directive may follow a line that has only a #

---
 repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index 0c30706..d12d363 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -151,8 +151,10 @@ void readPreprocessorDirective(ViewInStream* vins, Preprocessor* pp) {
         if (!isWhite(c))
             break;
         vins->advanceByte();
-        if (c == '\n')
+        if (c == '\n') {
+            pp->atStartOfLine = true;
             return; // null directive
+        }
     }
 
     // Read directive
-- 
2.43.0


From 3dc526f163d41028ea9201a1897c21ac4229cc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:36 +0000
Subject: [PATCH 116/118] fix: a parenthesis in a raw string does not hide the
 closing one after it

---
 .../plywood/src/cpp/ply-cpp/Preprocessor.cpp  | 33 +++++--------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index d12d363..f68e882 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -352,33 +352,18 @@ bool readDelimiterAndRawStringLiteral(ViewInStream* vins, Preprocessor* pp,
         if (c == ')') {
             // Try to match delimiter
             const char* d = delimiterStart;
-            for (;;) {
-                if (d == delimiterEnd) {
-                    if (!vins->tryMakeBytesAvailable()) {
-                        // End of file while matching closing "
-                        pp->error({Preprocessor::Error::EOFInStringLiteral,
-                                   getLinearLocation(pp, vins->curByte), beginStringLoc});
-                        return false;
-                    }
-                    c = vins->peekByte();
-                    if (c == '"') {
-                        // End of string literal
-                        vins->advanceByte();
-                        return true;
-                    }
-                }
-                if (!vins->tryMakeBytesAvailable()) {
-                    // End of file while matching delimiter
-                    pp->error({Preprocessor::Error::EOFInStringLiteral,
-                               getLinearLocation(pp, vins->curByte), beginStringLoc});
-                    return false;
-                }
-                c = vins->peekByte();
+            while (d != delimiterEnd && vins->tryMakeBytesAvailable() &&
+                   vins->peekByte() == *d) {
                 vins->advanceByte();
-                if ((u8) c != *d)
-                    break; // No match here
                 d++;
             }
+            if (d == delimiterEnd && vins->tryMakeBytesAvailable() && vins->peekByte() == '"') {
+                // End of string literal
+                vins->advanceByte();
+                return true;
+            }
+            // No match here. The delimiter has no closing parenthesis, so continue from the
+            // current byte.
         }
     }
 }
-- 
2.43.0


From 62bcf7391c798c40bdbfda5ced57ceb5bb65e476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:36 +0000
Subject: [PATCH 117/118] fix: an invalid raw string is not continued past the
 end of the file

---
 repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index f68e882..f32a3a7 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -400,6 +400,7 @@ Token::Type readIdentifierOrLiteral(ViewInStream* vins, Preprocessor* pp,
                     if (readDelimiterAndRawStringLiteral(vins, pp, beginTokenLoc)) {
                         return Token::StringLiteral;
                     }
+                    return Token::Invalid;
                 } else {
                     // Treat it as a string prefix
                     vins->advanceByte();
-- 
2.43.0


From 804fac617efedc1e54d6f539fc8fae6b0515c09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:36 +0000
Subject: [PATCH 118/118] fix: a minus sign after a zero is not part of the
 number

---
 repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
index f32a3a7..ac00fcc 100644
--- a/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
+++ b/repos/plywood/src/cpp/ply-cpp/Preprocessor.cpp
@@ -112,16 +112,12 @@ PLY_NO_INLINE StringView PPVisitedFiles::getContents(u32 includeChainIndex) cons
 }
 
 void readNumericLiteral(ViewInStream* vins) {
-    if (vins->tryMakeBytesAvailable() && (vins->peekByte() == '0')) {
-        vins->advanceByte();
-        if (vins->tryMakeBytesAvailable() && (vins->peekByte() == 'x')) {
-            vins->advanceByte();
-            vins->parse<u64>(fmt::Radix{16});
-            goto suffix;
-        }
+    if (vins->numBytesAvailable() >= 2 && vins->peekByte() == '0' && vins->peekByte(1) == 'x') {
+        vins->advanceByte(2);
+        vins->parse<u64>(fmt::Radix{16});
+    } else {
+        vins->parse<double>();
     }
-    vins->parse<double>();
-suffix:
     if (vins->tryMakeBytesAvailable() && (vins->peekByte() == 'f')) {
         vins->advanceByte();
     } else {
-- 
2.43.0

