From 29ecb7014c27a3f9fc6f76effbc03bd4ed50a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:16 +0000
Subject: [PATCH 001/144] fix: file_stream::read_back leaves the append
 shortcut armed

After write() the stream keeps a count of unchecked appends. read_back() moved
the cursor away from the end without clearing it, so write, read_back, write
overwrote an item yet grew size(), skipped the non-appending check of compressed
streams, and could write past the block buffer.
---
 tpie/compressed/stream.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpie/compressed/stream.h b/tpie/compressed/stream.h
index e0bcf8c..8434d73 100644
--- a/tpie/compressed/stream.h
+++ b/tpie/compressed/stream.h
@@ -475,6 +475,9 @@ public:
 	const T & read_back() {
 		if (m_seekState != seek_state::none || m_nextItem == m_bufferBegin) read_back_unlikely();
 		++m_cachedReads;
+		// We are no longer at the end of the stream, so the next write must
+		// not take the append shortcut.
+		m_cachedWrites = 0;
 		--m_offset;
 		m_nextItem -= sizeof(T);
 		return *reinterpret_cast<const T *>(m_nextItem);
-- 
2.43.0


From 2d3383309fb5f7cbd70e292914531083c556deb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:16 +0000
Subject: [PATCH 002/144] fix: set_position within the loaded block keeps stale
 cached read/write counts

The unchecked read and write counts belong to the old cursor. Keeping them let
read() run past the end of the stream and write() overwrite items as if it
appended.
---
 tpie/compressed/stream_base.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index ee6a856..eadc7d1 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1181,6 +1181,7 @@ stream_position compressed_stream_base::get_position() {
 }
 
 void compressed_stream_base::set_position(const stream_position & pos) {
+	m_p->uncache_read_writes();
 	m_p->m_updateReadOffsetFromWrite = false;
 	
 	// If the code is correct, short circuiting is not necessary;
-- 
2.43.0


From 7c3309964f826dbd8953ba05ec9af5cbbf5d9182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 003/144] fix: streams with blocks larger than the pool's
 buffers overflow them

The stream buffer pool only allocates buffers of one default block, so a
file_stream with blockFactor > 1 (or opened after the block size was raised)
wrote past the end of its block buffer.
---
 tpie/compressed/buffer.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/tpie/compressed/buffer.h b/tpie/compressed/buffer.h
index 2a97afe..7d084a7 100644
--- a/tpie/compressed/buffer.h
+++ b/tpie/compressed/buffer.h
@@ -385,12 +385,24 @@ private:
 	}
 
 	buffer_t take_shared_buffer() {
-		return the_stream_buffer_pool().take_shared_buffer();
+		buffer_t b = the_stream_buffer_pool().take_shared_buffer();
+		ensure_capacity(b);
+		return b;
 	}
 
 	buffer_t allocate_own_buffer() {
+		buffer_t b = the_stream_buffer_pool().allocate_own_buffer();
+		ensure_capacity(b);
 		++m_ownBuffers;
-		return the_stream_buffer_pool().allocate_own_buffer();
+		return b;
+	}
+
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  The pool hands out buffers that fit a block of the default size,
+	/// but our blocks may be larger.
+	///////////////////////////////////////////////////////////////////////////
+	void ensure_capacity(buffer_t & b) {
+		if (b->capacity() < m_blockSize) b->set_capacity(m_blockSize);
 	}
 
 	compressor_thread & compressor() {
-- 
2.43.0


From 605e1f8e3854da88c5c6195749fc58de0e030d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 004/144] fix: reading back over several pending compressed
 writes uses a stale offset

The response object is shared by all requests of a stream and done() becomes
true when any of them finishes. With two writes in flight read_back() went on
after the first and looked for the last block at the wrong place.
---
 tpie/compressed/stream_base.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index eadc7d1..e829b7c 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -507,13 +507,13 @@ public:
 
 	void maybe_update_read_offset(compressor_thread_lock & lock) {
 		if (m_updateReadOffsetFromWrite && use_compression()) {
-			while (!m_response.done()) {
+			// Several writes may be in flight, and done() is set by the first
+			// of them, so wait for the one we are interested in.
+			while (!m_response.has_block_info(m_lastWriteBlockNumber)) {
 				m_response.wait(lock);
 			}
-			if (m_response.has_block_info(m_lastWriteBlockNumber)) {
-				m_readOffset = m_response.get_read_offset(m_lastWriteBlockNumber);
-				m_nextReadOffset = m_readOffset + m_response.get_block_size(m_lastWriteBlockNumber);
-			}
+			m_readOffset = m_response.get_read_offset(m_lastWriteBlockNumber);
+			m_nextReadOffset = m_readOffset + m_response.get_block_size(m_lastWriteBlockNumber);
 			m_updateReadOffsetFromWrite = false;
 		}
 	}
-- 
2.43.0


From 60f0697722316212e1e69fdb43cc20b52637778b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 005/144] fix: reading at the end of a stream moves the cursor
 past the end

uncompressed_stream and file::stream advanced to the next block before noticing
that there is none. The failed read left offset() beyond size(), and the next
write landed there.
---
 tpie/file.h                | 2 +-
 tpie/uncompressed_stream.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/file.h b/tpie/file.h
index 9ba4e10..928214c 100644
--- a/tpie/file.h
+++ b/tpie/file.h
@@ -101,10 +101,10 @@ public:
  		inline item_type & read_mutable() {
 			assert(get_file().is_open());
 			if (m_index >= m_block->size) {
-				update_block();
 				if (offset() >= get_file().size()) {
 					throw end_of_stream_exception();
 				}
+				update_block();
 			}
 			return reinterpret_cast<T*>(m_block->data)[m_index++];
 		}
diff --git a/tpie/uncompressed_stream.h b/tpie/uncompressed_stream.h
index 4c1bb82..f7ee015 100644
--- a/tpie/uncompressed_stream.h
+++ b/tpie/uncompressed_stream.h
@@ -123,10 +123,10 @@ public:
 	const item_type & peek() {
 		assert(m_open);
 		if (m_index >= m_block.size) {
-			update_block();
 			if (offset() >= size()) {
 				throw end_of_stream_exception();
 			}
+			update_block();
 		}
 		return reinterpret_cast<item_type*>(m_block.data)[m_index];
 	}
-- 
2.43.0


From fc8aa439d97c2992993229bea46478c416006e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 006/144] fix: relative seeks ignore a pending seek and the end
 of the stream

seek(n, current) on uncompressed_stream and file::stream computed the target
from an index that is not valid while a cross-block seek is pending, and moved
the cursor beyond the end of the stream when the target was in the same block.
---
 tpie/stream_crtp.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpie/stream_crtp.h b/tpie/stream_crtp.h
index 3edd784..a085940 100644
--- a/tpie/stream_crtp.h
+++ b/tpie/stream_crtp.h
@@ -54,10 +54,14 @@ public:
 			offset += self().size();
 		else if (whence == current) {
 			// are we seeking into the current block?
-			if (offset >= 0 || static_cast<stream_size_type>(-offset) <= m_index) {
+			// (m_index is maxint when a cross-block seek is pending.)
+			if (m_index < self().get_file().block_items()
+				&& (offset >= 0 || static_cast<stream_size_type>(-offset) <= m_index)) {
 				stream_size_type new_index = static_cast<stream_offset_type>(offset+m_index);
 
 				if (new_index < self().get_file().block_items()) {
+					if (m_blockStartIndex + new_index > self().size())
+						throw io_exception("Tried to seek out of file");
 					self().update_vars();
 					m_index = static_cast<memory_size_type>(new_index);
 					return;
-- 
2.43.0


From b34ed1748652d762139d8d3278bedc5b8b229356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 007/144] fix: array reads past the end of the last block
 return garbage

read(a, b) on uncompressed_stream and file::stream only compared with the size
of the stream when it fetched a new block, so a read that ran over the end
inside the loaded block returned whatever was in the buffer instead of throwing
end_of_stream_exception.
---
 tpie/stream_crtp.h | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/tpie/stream_crtp.h b/tpie/stream_crtp.h
index a085940..4e32e27 100644
--- a/tpie/stream_crtp.h
+++ b/tpie/stream_crtp.h
@@ -170,19 +170,13 @@ protected:
 	static inline void read_array(Stream & stream, const IT & start, const IT & end) {
 		typedef typename Stream::item_type T;
 		IT i = start;
+		// check to make sure we have enough items in the stream
+		if (stream.offset() + (end-i) > stream.size())
+			throw end_of_stream_exception();
 		while (i != end) {
-			if (stream.m_index >= stream.block_items()) {
-				// check to make sure we have enough items in the stream
-				stream_size_type offs = stream.offset();
-				if (offs >= stream.size()
-					|| offs + (end-i) > stream.size()) {
-
-					throw end_of_stream_exception();
-				}
-
-				// fetch next block from disk
+			// fetch next block from disk
+			if (stream.m_index >= stream.block_items())
 				stream.update_block();
-			}
 
 			T * src = reinterpret_cast<T*>(stream.get_block().data) + stream.m_index;
 
-- 
2.43.0


From 4c43935c1134e6955ac0356958fb425590f85746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 008/144] fix: truncating a compressed stream to zero while
 writes are pending

The block information was cleared before waiting for pending writes, which then
recorded blocks that no longer exist. The next flush or close failed with
"Wanted block number", aborting the process from the destructor.
---
 tpie/compressed/stream_base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index e829b7c..f46d36d 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -400,10 +400,12 @@ public:
 	void truncate_zero() {
 		// No need to flush block
 		m_buffer.reset();
-		m_response.clear_block_info();
 		m_updateReadOffsetFromWrite = false;
 		compressor_thread_lock l(compressor());
 		finish_requests(l);
+		// Pending writes report their block when they finish, so forget about
+		// the old blocks only now.
+		m_response.clear_block_info();
 		get_buffer(l, 0);
 		m_o->m_size = 0;
 		m_streamBlocks = 0;
-- 
2.43.0


From ccd04f2f2fbf62faf212eac3c82ee67c6cc9bcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 009/144] fix: truncating away all of an unwritten last block
 writes an empty block

When truncate() removed every item of a block that had not been written yet, the
empty block was marked dirty. Flushing it counted it as a block of the stream, and
seeking to the end then read a block that is not there.
---
 tpie/compressed/stream_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index f46d36d..92ed55f 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -434,7 +434,8 @@ public:
 					static_cast<memory_size_type>(offset - m_streamBlocks * m_blockItems);
 				m_o->m_nextItem = m_o->m_bufferBegin + m_itemSize * blockItemIndex;
 			}
-			m_bufferDirty = true;
+			// An empty block must not be written, since it would count as a block.
+			m_bufferDirty = (offset != m_streamBlocks * m_blockItems);
 			m_o->m_seekState = compressed_stream_base::seek_state::none;
 			// No need to update m_streamBlocks
 		} else {
-- 
2.43.0


From f5353c1f946b06ffe92bffb121d2e4d5030aa364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:21 +0000
Subject: [PATCH 010/144] fix: truncating a compressed stream to a position on
 a block boundary

truncate(position) kept an empty block at the end of the stream when the position
was the first of its block. The empty block was written and counted, so later
seeks, reads and reopening found the wrong last block or failed. Also compute the
item index from the position instead of from the number of blocks.
---
 tpie/compressed/stream_base.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 92ed55f..53fc8dc 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -466,7 +466,28 @@ public:
 	
 		stream_size_type offset = pos.offset();
 		stream_position finalDestination = (offset < m_o->offset()) ? pos : m_o->get_position();
-	
+
+		if (block_item_index(offset) == 0) {
+			// The block containing pos loses all its items, and an empty block
+			// must not be written, since it would count as a block.
+			// Make the previous block the last one and cut off the file.
+			m_nextPosition = pos;
+			m_o->m_seekState = compressed_stream_base::seek_state::position;
+			perform_seek(read_direction::backward);
+			{
+				// perform_seek has waited for pending requests.
+				compressor_thread_lock l(compressor());
+				m_response.clear_block_info();
+				m_byteStreamAccessor.truncate_bytes(pos.read_offset());
+			}
+			m_streamBlocks = block_number(offset);
+			m_lastBlockReadOffset = m_readOffset;
+			m_currentFileSize = pos.read_offset();
+			m_o->m_size = offset;
+			m_o->set_position(finalDestination);
+			return;
+		}
+
 		if (m_buffer.get() == 0 || block_number(offset) != buffer_block_number()) {
 			m_o->set_position(pos);
 			perform_seek();
@@ -484,9 +505,7 @@ public:
 		m_o->m_size = offset;
 		if (offset < m_o->m_offset) {
 			m_o->m_offset = offset;
-			memory_size_type blockItemIndex =
-				static_cast<memory_size_type>(offset - m_streamBlocks * m_blockItems);
-			m_o->m_nextItem = m_o->m_bufferBegin + m_itemSize * blockItemIndex;
+			m_o->m_nextItem = m_o->m_bufferBegin + m_itemSize * block_item_index(offset);
 		}
 		m_bufferDirty = true;
 	
-- 
2.43.0


From ff7fe1dc36a146a0cb9579caefe85efb4107b348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 011/144] fix: position taken at the end of a full last block
 that is rewritten

get_position at the end of a full, dirty last block returned the block's old
end (or left read_back without the new block's offset).
---
 tpie/compressed/stream_base.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 53fc8dc..e481214 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -1164,22 +1164,25 @@ stream_position compressed_stream_base::get_position() {
 	case seek_state::beginning:
 		return stream_position(0, 0);
 	case seek_state::none:
-		if (m_p->buffer_block_number() != m_p->m_streamBlocks) {
-			if (m_nextItem == m_bufferEnd)
-				return stream_position(m_p->m_nextReadOffset, m_offset);
-			else
-				return stream_position(m_p->m_readOffset, m_offset);
-		}
-		// We are in a new block at the end of the stream.
-		if (m_nextItem == m_bufferEnd) {
-			tp_assert(m_p->m_bufferDirty, "At end of buffer, but bufferDirty is false?");
+		if (m_nextItem == m_bufferEnd && m_p->m_bufferDirty) {
+			// We are at the end of a full last block that must be (re)written,
+			// so we do not know yet where it ends.
 			// Make sure the position we get is not at the end of a block
 			compressor_thread_lock lock(m_p->compressor());
 			m_p->m_updateReadOffsetFromWrite = false;
 			m_p->flush_block(lock);
 			m_p->get_buffer(lock, m_p->m_streamBlocks);
 			m_nextItem = m_bufferBegin;
+			// The new block begins where the one just written ends;
+			// read_back() needs to know.
+			m_p->m_readOffset = m_p->current_file_size(lock);
+		} else if (m_p->buffer_block_number() != m_p->m_streamBlocks) {
+			if (m_nextItem == m_bufferEnd)
+				return stream_position(m_p->m_nextReadOffset, m_offset);
+			else
+				return stream_position(m_p->m_readOffset, m_offset);
 		}
+		// We are in a new block at the end of the stream.
 		break;
 	case seek_state::end:
 		// Figure out the size of the file below.
-- 
2.43.0


From 524f3783411eb0b7a9ad7f1ad1d85af7c3e6f1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 012/144] fix: truncate records items as bytes in the temporary
 file usage, without the lock

---
 tpie/compressed/stream_base.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index e481214..f95fbf6 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -394,6 +394,16 @@ public:
 	}
 
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Tell the temporary file how many bytes it holds now.
+	///
+	/// Precondition: No requests are pending, and the compressor lock is held
+	/// since the compressor thread records sizes as well.
+	///////////////////////////////////////////////////////////////////////////
+	void update_recorded_size(compressor_thread_lock &) {
+		if (m_tempFile) m_tempFile->update_recorded_size(m_byteStreamAccessor.file_size());
+	}
+
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief  Truncate to zero size.
 	///////////////////////////////////////////////////////////////////////////
@@ -410,6 +420,7 @@ public:
 		m_o->m_size = 0;
 		m_streamBlocks = 0;
 		m_byteStreamAccessor.truncate(0);
+		update_recorded_size(l);
 	
 		m_readOffset = 0;
 		m_o->m_offset = 0;
@@ -455,6 +466,7 @@ public:
 			m_bufferDirty = false;
 			finish_requests(l);
 			m_byteStreamAccessor.truncate(offset);
+			update_recorded_size(l);
 			m_o->m_size = offset;
 			m_streamBlocks = (offset + m_blockItems - 1) / m_blockItems;
 		}
@@ -479,6 +491,7 @@ public:
 				compressor_thread_lock l(compressor());
 				m_response.clear_block_info();
 				m_byteStreamAccessor.truncate_bytes(pos.read_offset());
+				update_recorded_size(l);
 			}
 			m_streamBlocks = block_number(offset);
 			m_lastBlockReadOffset = m_readOffset;
@@ -1135,8 +1148,6 @@ void compressed_stream_base::truncate(stream_size_type offset) {
 		m_p->truncate_uncompressed(offset);
 	else
 		throw stream_exception("Arbitrary truncate is not supported");
-	
-	if (m_p->m_tempFile) m_p->m_tempFile->update_recorded_size(m_size);
 }
 
 void compressed_stream_base::truncate(const stream_position & pos) {
@@ -1150,8 +1161,6 @@ void compressed_stream_base::truncate(const stream_position & pos) {
 		m_p->truncate_uncompressed(pos.offset());
 	else
 		m_p->truncate_compressed(pos);
-	
-	if (m_p->m_tempFile) m_p->m_tempFile->update_recorded_size(m_size);
 }
 
 stream_position compressed_stream_base::get_position() {
-- 
2.43.0


From 4fbd282ecd729cb6763f9c065b1c87c773083204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 013/144] fix: reading past the end of a truncated file loops
 forever, interrupted reads fail

---
 tpie/file_accessor/posix.inl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index 1c08c44..4c8c821 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -73,8 +73,12 @@ inline void posix::give_advice() {
 inline void posix::read_i(void * data, memory_size_type size) {
 	do {
 		memory_offset_type bytesRead = ::read(m_fd, data, size);
-		if (bytesRead == -1)
+		if (bytesRead == -1) {
+			if (errno == EINTR) continue;
 			throw_errno();
+		}
+		if (bytesRead == 0 && size != 0)
+			throw io_exception("Unexpected end of file");
 		data = static_cast<char *>(data) + bytesRead;
 		size -= bytesRead;
 		increment_bytes_read(bytesRead);
-- 
2.43.0


From 42321b3a55e534c40e508584ed566ab724dbc053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 014/144] fix: interrupted writes fail

---
 tpie/file_accessor/posix.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index 4c8c821..d4e76ba 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -89,6 +89,7 @@ inline void posix::write_i(const void * data, memory_size_type size) {
 	do {
 		ssize_t res = ::write(m_fd, data, size);
 		if(res == -1) {
+			if (errno == EINTR) continue;
 			throw_errno();
 		}
 		data = static_cast<const char*>(data) + res;
-- 
2.43.0


From 306c15dc82c4e43074336eaf4a930ca9b3dbb1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 015/144] fix: a file whose close fails stays registered as
 open

---
 tpie/file_accessor/posix.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index d4e76ba..60770db 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -148,9 +148,11 @@ bool posix::is_open() const {
 
 void posix::close_i() {
 	if (m_fd == -1) return;
-	if (::close(m_fd) == -1) throw_errno();
-	get_file_manager().decrement_open_file_count();
+	// The descriptor is released even when close() reports an error.
+	int res = ::close(m_fd);
 	m_fd = -1;
+	get_file_manager().decrement_open_file_count();
+	if (res == -1 && errno != EINTR) throw_errno();
 }
 
 void posix::truncate_i(stream_size_type bytes) {
-- 
2.43.0


From 933e64e6b5e5cc49bd89b2a9f83191c25abb01db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 016/144] fix: file descriptor leaked when the open file limit
 is enforced

---
 tpie/file_accessor/posix.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index 60770db..ad6b6ab 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -114,7 +114,13 @@ void posix::_open(const std::string & path, int flags, mode_t mode = 0755) {
 	if (m_fd == -1) {
 		return;
 	}
-	get_file_manager().increment_open_file_count();
+	try {
+		get_file_manager().increment_open_file_count();
+	} catch (...) {
+		::close(m_fd);
+		m_fd = -1;
+		throw;
+	}
 	give_advice();
 }
 
-- 
2.43.0


From e3b764cbec79802347dbcd62ef62bb37b93c566f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 017/144] fix: reading bytes beyond the end of a file
 underflows the size

---
 tpie/file_accessor/byte_stream_accessor.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tpie/file_accessor/byte_stream_accessor.h b/tpie/file_accessor/byte_stream_accessor.h
index 089c494..10cd729 100644
--- a/tpie/file_accessor/byte_stream_accessor.h
+++ b/tpie/file_accessor/byte_stream_accessor.h
@@ -85,8 +85,11 @@ public:
 					   this->m_fileAccessor.file_size_i())
 			- this->header_size();
 
-		if (byteOffset + size > sz)
-			size = sz - byteOffset;
+		if (byteOffset >= sz)
+			return 0;
+
+		if (size > sz - byteOffset)
+			size = static_cast<memory_size_type>(sz - byteOffset);
 
 		stream_size_type position = this->header_size() + byteOffset;
 
-- 
2.43.0


From fffdd93100aaaf66ef37a4865825185e9425857a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 018/144] fix: a refused resource request stays accounted as
 used

---
 tpie/resource_manager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/resource_manager.cpp b/tpie/resource_manager.cpp
index 49a54cd..3886f13 100644
--- a/tpie/resource_manager.cpp
+++ b/tpie/resource_manager.cpp
@@ -57,6 +57,8 @@ void resource_manager::register_increased_usage(size_t amount) {
 	case ENFORCE_THROW: {
 		size_t usage = m_used.fetch_add(amount) + amount;
 		if (usage > m_limit && m_limit > 0) {
+			// The resource is not handed out.
+			m_used.fetch_sub(amount);
 			std::stringstream ss;
 			print_resource_complaint(ss, amount, usage);
 			throw_out_of_resource_error(ss.str());
-- 
2.43.0


From 4f51f06ea261b9207ed145c92c3e826ebda58c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:52 +0000
Subject: [PATCH 019/144] fix: memory accounted for an allocation that failed

---
 tpie/memory.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tpie/memory.h b/tpie/memory.h
index 2f5a5d7..9c78d32 100644
--- a/tpie/memory.h
+++ b/tpie/memory.h
@@ -398,8 +398,14 @@ public:
 
     T * allocate(size_t size) {
 		get_memory_manager().register_allocation(size * sizeof(T), typeid(T));
+		T * res;
+		try {
+			res = a.allocate(size);
+		} catch (...) {
+			get_memory_manager().register_deallocation(size * sizeof(T), typeid(T));
+			throw;
+		}
 		if (bucket) bucket->count += size * sizeof(T);
-		T * res = a.allocate(size);
 		return res;
     }
 
-- 
2.43.0


From 3db87713947aaaee6d4794eb4f1e07fd7f8faf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 020/144] fix: streams hang when the library is initialized
 again after being finished

---
 tpie/compressed/thread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index c7c09da..dd65a19 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -113,7 +113,11 @@ public:
 				m_idle = true;
 				m_newRequest.wait(lock);
 			}
-			if (m_done && m_requests.empty()) break;
+			if (m_done && m_requests.empty()) {
+				// Allow the thread to be started again.
+				m_done = false;
+				break;
+			}
 			{
 				compressor_request r = m_requests.front();
 				m_requests.pop();
-- 
2.43.0


From 31d7a39ade21b5df84aa3c428786780f219d2f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 021/144] fix: preferred compression is read without the lock
 it is set under

---
 tpie/compressed/thread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index dd65a19..44ec8cc 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -240,7 +240,11 @@ private:
 			wr.file_accessor().get_compression_flags() != compression_all;
 		block_header blockHeader;
 		block_header & blockTrailer = blockHeader;
-		compression_scheme::type schemeType = m_preferredCompression;
+		compression_scheme::type schemeType;
+		{
+			compressor_thread_lock::lock_t lock(mutex());
+			schemeType = m_preferredCompression;
+		}
 		if (adaptiveCompression && !m_idle) {
 			schemeType = compression_scheme::none;
 		}
-- 
2.43.0


From f9094a5e53abad70657da59ad86125494c2c38dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 022/144] fix: file left open when its header is rejected

---
 tpie/file_accessor/stream_accessor_base.inl | 30 ++++++++++++---------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/tpie/file_accessor/stream_accessor_base.inl b/tpie/file_accessor/stream_accessor_base.inl
index d3bcf21..f2bcfd8 100644
--- a/tpie/file_accessor/stream_accessor_base.inl
+++ b/tpie/file_accessor/stream_accessor_base.inl
@@ -134,22 +134,28 @@ void stream_accessor_base<file_accessor_t>::open(const std::string & path,
 	m_lastBlockReadOffset = std::numeric_limits<stream_size_type>::max();
 	if (!write && !read)
 		throw invalid_argument_exception("Either read or write must be specified");
-	if (write && !read) {
-		m_fileAccessor.open_wo(path);
-		write_header(false);
-		write_user_data(0, 0);
-	} else if (!write && read) {
-		m_fileAccessor.open_ro(path);
-		read_header();
-	} else {
-		if (!m_fileAccessor.try_open_rw(path)) {
-			m_fileAccessor.open_rw_new(path);
+	try {
+		if (write && !read) {
+			m_fileAccessor.open_wo(path);
 			write_header(false);
 			write_user_data(0, 0);
-		} else {
+		} else if (!write && read) {
+			m_fileAccessor.open_ro(path);
 			read_header();
-			write_header(false);
+		} else {
+			if (!m_fileAccessor.try_open_rw(path)) {
+				m_fileAccessor.open_rw_new(path);
+				write_header(false);
+				write_user_data(0, 0);
+			} else {
+				read_header();
+				write_header(false);
+			}
 		}
+	} catch (...) {
+		// We are not open, so nobody else is going to close the file.
+		m_fileAccessor.close_i();
+		throw;
 	}
 	m_open = true;
 	if (write && m_maxUserDataSize < maxUserDataSize) {
-- 
2.43.0


From 6c54bb33621b247cf67d8c9d739292a7a3656b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 023/144] fix: errors in the compressor thread terminate the
 process instead of reaching the stream's user

---
 tpie/compressed/request.cpp                 |  2 +
 tpie/compressed/request.h                   | 48 +++++++++++++++
 tpie/compressed/stream_base.cpp             | 66 +++++++++++++++++----
 tpie/compressed/thread.cpp                  | 25 +++++++-
 tpie/file_accessor/stream_accessor_base.h   |  6 ++
 tpie/file_accessor/stream_accessor_base.inl | 12 ++++
 6 files changed, 144 insertions(+), 15 deletions(-)

diff --git a/tpie/compressed/request.cpp b/tpie/compressed/request.cpp
index 735bb23..fc19ca5 100644
--- a/tpie/compressed/request.cpp
+++ b/tpie/compressed/request.cpp
@@ -23,7 +23,9 @@
 namespace tpie {
 
 void compressor_response::wait(compressor_thread_lock & lock) {
+	check_write_error();
 	m_changed.wait(lock.get_lock());
+	check_write_error();
 }
 
 } // namespace tpie
diff --git a/tpie/compressed/request.h b/tpie/compressed/request.h
index 077bd60..a765d1a 100644
--- a/tpie/compressed/request.h
+++ b/tpie/compressed/request.h
@@ -25,6 +25,7 @@
 ///////////////////////////////////////////////////////////////////////////////
 
 #include <memory>
+#include <exception>
 #include <thread>
 #include <condition_variable>
 #include <tpie/tpie_assert.h>
@@ -63,11 +64,14 @@ public:
 
 	// any, stream
 	// Waits on the condition variable m_changed.
+	// If a write request has failed, there may be nothing left to wait for,
+	// so its error is thrown.
 	void wait(compressor_thread_lock & lock);
 
 	// any, stream
 	void initiate_request() {
 		m_done = m_endOfStream = false;
+		m_readError = std::exception_ptr();
 		m_nextReadOffset = m_nextBlockSize = 0;
 	}
 
@@ -141,6 +145,36 @@ public:
 		return m_done;
 	}
 
+	// read, thread -- must have lock!
+	void set_read_error(std::exception_ptr error) {
+		m_readError = error;
+		m_done = true;
+		m_changed.notify_all();
+	}
+
+	// read, stream
+	void check_read_error() {
+		if (m_readError) std::rethrow_exception(m_readError);
+	}
+
+	// write, thread -- must have lock!
+	void set_write_error(std::exception_ptr error) {
+		if (!m_writeError) m_writeError = error;
+		m_done = true;
+		m_changed.notify_all();
+	}
+
+	// write, stream
+	// The first write error is remembered until clear_write_error is called.
+	void check_write_error() {
+		if (m_writeError) std::rethrow_exception(m_writeError);
+	}
+
+	// write, stream
+	void clear_write_error() {
+		m_writeError = std::exception_ptr();
+	}
+
 	// read, stream
 	stream_size_type next_read_offset() {
 		return m_nextReadOffset;
@@ -168,6 +202,10 @@ private:
 	bool m_endOfStream;
 	stream_size_type m_nextReadOffset;
 	memory_size_type m_nextBlockSize;
+
+	// Errors met by the compressor thread
+	std::exception_ptr m_readError;
+	std::exception_ptr m_writeError;
 };
 
 #ifdef __GNUC__
@@ -237,6 +275,11 @@ public:
 		m_response->set_next_block_offset(offset);
 	}
 
+	// must have lock!
+	void set_error(std::exception_ptr error) {
+		m_response->set_read_error(error);
+	}
+
 private:
 	buffer_t m_buffer;
 	file_accessor_t * m_fileAccessor;
@@ -297,6 +340,11 @@ public:
 		m_response->set_block_info(m_blockNumber, readOffset, blockSize);
 	}
 
+	// must have lock!
+	void set_error(std::exception_ptr error) {
+		m_response->set_write_error(error);
+	}
+
 	// must have lock!
 	void update_recorded_size() {
 		m_response->set_done();
diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index f95fbf6..c8abad2 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -91,7 +91,13 @@ public:
 	}
 
 	~close_on_fail_guard() {
-		if (!m_committed) m_stream->close();
+		if (m_committed) return;
+		try {
+			m_stream->close();
+		} catch (const std::exception & e) {
+			// The exception that made the method fail is already on its way.
+			log_error() << "Could not close stream after failure: " << e.what() << std::endl;
+		}
 	}
 
 	void commit() {
@@ -221,6 +227,7 @@ public:
 		m_lastBlockReadOffset = m_byteStreamAccessor.get_last_block_read_offset();
 		m_currentFileSize = m_byteStreamAccessor.file_size();
 		m_response.clear_block_info();
+		m_response.clear_write_error();
 		
 		m_o->seek(0);
 	}
@@ -247,6 +254,7 @@ public:
 	///////////////////////////////////////////////////////////////////////////
 	void flush_block(compressor_thread_lock & lock) {
 		uncache_read_writes();
+		m_response.check_write_error();
 		stream_size_type blockNumber = buffer_block_number();
 		stream_size_type writeOffset;
 		if (!use_compression()) {
@@ -646,6 +654,7 @@ public:
 	void read_block(compressor_thread_lock & lock,
 											stream_size_type readOffset,
 											read_direction::type readDirection) {
+		m_response.check_write_error();
 		compressor_request r;
 		r.set_read_request(m_buffer,
 						   &m_byteStreamAccessor,
@@ -658,6 +667,7 @@ public:
 		while (!m_response.done()) {
 			m_response.wait(lock);
 		}
+		m_response.check_read_error();
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -888,21 +898,35 @@ void compressed_stream_base::open(temp_file & file, open::type openFlags,
 
 void compressed_stream_base::close() {
 	m_p->uncache_read_writes();
+	std::exception_ptr error;
 	if (m_p->m_open) {
 		compressor_thread_lock l(m_p->compressor());
 
-		if (m_p->m_bufferDirty)
-			m_p->flush_block(l);
+		try {
+			if (m_p->m_bufferDirty)
+				m_p->flush_block(l);
+		} catch (...) {
+			error = std::current_exception();
+		}
 
+		m_p->m_bufferDirty = false;
 		m_p->m_buffer.reset();
 
 		m_p->finish_requests(l);
 
-		if (m_p->use_compression()) {
-			m_p->m_byteStreamAccessor.set_last_block_read_offset(m_p->last_block_read_offset(l));
+		try {
+			if (error) std::rethrow_exception(error);
+			m_p->m_response.check_write_error();
+			if (m_p->use_compression()) {
+				m_p->m_byteStreamAccessor.set_last_block_read_offset(m_p->last_block_read_offset(l));
+			}
+			m_p->m_byteStreamAccessor.set_size(m_size);
+			m_p->m_byteStreamAccessor.close();
+		} catch (...) {
+			error = std::current_exception();
+			// Not everything was written, so do not mark the file as properly closed.
+			m_p->m_byteStreamAccessor.abandon();
 		}
-		m_p->m_byteStreamAccessor.set_size(m_size);
-		m_p->m_byteStreamAccessor.close();
 	}
 	m_p->m_open = false;
 	m_p->m_tempFile = NULL;
@@ -911,6 +935,8 @@ void compressed_stream_base::close() {
 	// If read/write is called on the closed stream,
 	// perform_seek throws an exception.
 	m_seekState = seek_state::beginning;
+
+	if (error) std::rethrow_exception(error);
 }
 
 
@@ -937,6 +963,7 @@ void compressed_stream_base::peak_unlikely() {
 	if (m_seekState != seek_state::none) m_p->perform_seek();
 	if (m_offset == m_size) throw end_of_stream_exception();
 	if (m_nextItem == m_bufferEnd) {
+		close_on_fail_guard closeOnFail(this);
 		compressor_thread_lock l(m_p->compressor());
 		if (m_p->m_bufferDirty) {
 			m_p->m_updateReadOffsetFromWrite = false;
@@ -944,6 +971,7 @@ void compressed_stream_base::peak_unlikely() {
 		}
 		// At this point, block_number() == buffer_block_number() + 1
 		m_p->read_next_block(l, m_p->block_number());
+		closeOnFail.commit();
 	}
 }
 
@@ -955,6 +983,7 @@ void compressed_stream_base::read_back_unlikely() {
 	if (m_nextItem == m_bufferBegin) {
 		if (m_offset == 0) throw end_of_stream_exception();
 		m_p->uncache_read_writes();
+		close_on_fail_guard closeOnFail(this);
 		compressor_thread_lock l(m_p->compressor());
 		if (m_p->m_bufferDirty) {
 			m_p->m_updateReadOffsetFromWrite = true;
@@ -966,6 +995,7 @@ void compressed_stream_base::read_back_unlikely() {
 			m_p->read_next_block(l, m_p->block_number() - 1);
 			m_nextItem = m_bufferEnd;
 		}
+		closeOnFail.commit();
 	}
 }
 
@@ -975,6 +1005,7 @@ void compressed_stream_base::write_unlikely(const char * item) {
 	
 	if (!m_p->use_compression()) {
 		if (m_nextItem == m_bufferEnd) {
+			close_on_fail_guard closeOnFail(this);
 			compressor_thread_lock lock(m_p->compressor());
 			if (m_p->m_bufferDirty) {
 				m_p->m_updateReadOffsetFromWrite = true;
@@ -986,6 +1017,7 @@ void compressed_stream_base::write_unlikely(const char * item) {
 			} else {
 				m_p->read_next_block(lock, m_p->block_number());
 			}
+			closeOnFail.commit();
 		}
 		if (offset() == m_size) ++m_size;
 		memcpy(m_nextItem, item, m_p->m_itemSize);
@@ -1000,6 +1032,7 @@ void compressed_stream_base::write_unlikely(const char * item) {
 		throw stream_exception("Non-appending write attempted");
 	
 	if (m_nextItem == m_bufferEnd) {
+		close_on_fail_guard closeOnFail(this);
 		compressor_thread_lock l(m_p->compressor());
 		if (m_p->m_bufferDirty) {
 			m_p->m_updateReadOffsetFromWrite = true;
@@ -1007,6 +1040,7 @@ void compressed_stream_base::write_unlikely(const char * item) {
 		}
 		m_p->get_buffer(l, m_p->m_streamBlocks);
 		m_nextItem = m_bufferBegin;
+		closeOnFail.commit();
 	}
 	
 	memcpy(m_nextItem, item, m_p->m_itemSize);
@@ -1142,12 +1176,14 @@ void compressed_stream_base::truncate(stream_size_type offset) {
 	m_p->uncache_read_writes();
 	if (offset == size())
 		return;
-	else if (offset == 0)
+	if (offset != 0 && m_p->use_compression())
+		throw stream_exception("Arbitrary truncate is not supported");
+	close_on_fail_guard closeOnFail(this);
+	if (offset == 0)
 		m_p->truncate_zero();
-	else if (!m_p->use_compression())
-		m_p->truncate_uncompressed(offset);
 	else
-		throw stream_exception("Arbitrary truncate is not supported");
+		m_p->truncate_uncompressed(offset);
+	closeOnFail.commit();
 }
 
 void compressed_stream_base::truncate(const stream_position & pos) {
@@ -1155,12 +1191,14 @@ void compressed_stream_base::truncate(const stream_position & pos) {
 	m_p->uncache_read_writes();
 	if (pos.offset() == size())
 		return;
-	else if (pos.offset() == 0)
+	close_on_fail_guard closeOnFail(this);
+	if (pos.offset() == 0)
 		m_p->truncate_zero();
 	else if (!m_p->use_compression())
 		m_p->truncate_uncompressed(pos.offset());
 	else
 		m_p->truncate_compressed(pos);
+	closeOnFail.commit();
 }
 
 stream_position compressed_stream_base::get_position() {
@@ -1177,6 +1215,7 @@ stream_position compressed_stream_base::get_position() {
 			// We are at the end of a full last block that must be (re)written,
 			// so we do not know yet where it ends.
 			// Make sure the position we get is not at the end of a block
+			close_on_fail_guard closeOnFail(this);
 			compressor_thread_lock lock(m_p->compressor());
 			m_p->m_updateReadOffsetFromWrite = false;
 			m_p->flush_block(lock);
@@ -1185,6 +1224,7 @@ stream_position compressed_stream_base::get_position() {
 			// The new block begins where the one just written ends;
 			// read_back() needs to know.
 			m_p->m_readOffset = m_p->current_file_size(lock);
+			closeOnFail.commit();
 		} else if (m_p->buffer_block_number() != m_p->m_streamBlocks) {
 			if (m_nextItem == m_bufferEnd)
 				return stream_position(m_p->m_nextReadOffset, m_offset);
@@ -1200,6 +1240,7 @@ stream_position compressed_stream_base::get_position() {
 	
 	stream_size_type readOffset;
 	stream_size_type blockNumber = m_p->block_number(offset());
+	close_on_fail_guard closeOnFail(this);
 	compressor_thread_lock l(m_p->compressor());
 	if (size() % m_p->m_blockItems == 0)
 		readOffset = m_p->current_file_size(l);
@@ -1211,6 +1252,7 @@ stream_position compressed_stream_base::get_position() {
 		tp_assert(false, "get_position: Invalid block_number");
 		readOffset = 1111111111111111111ull; // avoid compiler warning
 	}
+	closeOnFail.commit();
 	return stream_position(readOffset, offset());
 }
 
diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index 44ec8cc..7cc62e7 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -127,10 +127,18 @@ public:
 					case compressor_request_kind::NONE:
 						throw exception("Invalid request");
 					case compressor_request_kind::READ:
-						process_read_request(r.get_read_request());
+						try {
+							process_read_request(r.get_read_request());
+						} catch (...) {
+							request_failed(r.get_read_request());
+						}
 						break;
 					case compressor_request_kind::WRITE:
-						process_write_request(r.get_write_request());
+						try {
+							process_write_request(r.get_write_request());
+						} catch (...) {
+							request_failed(r.get_write_request());
+						}
 						break;
 				}
 			}
@@ -140,6 +148,15 @@ public:
 	}
 
 private:
+	// Hand the exception being handled over to the stream that made the request.
+	template <typename Request>
+	void request_failed(Request & r) {
+		compressor_thread_lock::lock_t lock(mutex());
+		// The buffer does not hold what is on the disk.
+		r.buffer()->set_state(compressor_buffer_state::dirty);
+		r.set_error(std::current_exception());
+	}
+
 	void checked_read(read_request & rr, stream_size_type readOffset, void * buf, memory_size_type count) {
 		memory_size_type nRead = rr.file_accessor().read(readOffset, buf, count);
 		if (nRead != count) {
@@ -159,7 +176,9 @@ private:
 			if (blockSize > rr.buffer()->capacity()) {
 				throw stream_exception("Internal error; blockSize > buffer capacity");
 			}
-			rr.file_accessor().read(readOffset, rr.buffer()->get(), blockSize);
+			// The file may end before the padding of its last block;
+			// the stream checks that it got all the items.
+			blockSize = rr.file_accessor().read(readOffset, rr.buffer()->get(), blockSize);
 			rr.buffer()->set_size(blockSize);
 			compressor_thread_lock::lock_t lock(mutex());
 			// Notify that reading has completed.
diff --git a/tpie/file_accessor/stream_accessor_base.h b/tpie/file_accessor/stream_accessor_base.h
index d1e8e24..b630fba 100644
--- a/tpie/file_accessor/stream_accessor_base.h
+++ b/tpie/file_accessor/stream_accessor_base.h
@@ -131,6 +131,12 @@ public:
 
 	inline void close();
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief Close the file without marking it as properly closed.
+	/// To be used when not everything could be written.
+	///////////////////////////////////////////////////////////////////////////
+	inline void abandon();
+
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Read the given number of items from the given block into the
 	/// given buffer.
diff --git a/tpie/file_accessor/stream_accessor_base.inl b/tpie/file_accessor/stream_accessor_base.inl
index f2bcfd8..de171d2 100644
--- a/tpie/file_accessor/stream_accessor_base.inl
+++ b/tpie/file_accessor/stream_accessor_base.inl
@@ -174,6 +174,18 @@ void stream_accessor_base<file_accessor_t>::close() {
 	m_open = false;
 }
 
+template <typename file_accessor_t>
+void stream_accessor_base<file_accessor_t>::abandon() {
+	if (!m_open)
+		return;
+	m_open = false;
+	try {
+		m_fileAccessor.close_i();
+	} catch (const std::exception &) {
+		// The failure that made us abandon the file is the one to report.
+	}
+}
+
 template <typename file_accessor_t>
 void stream_accessor_base<file_accessor_t>::truncate(stream_size_type items) {
 	if (m_useCompression && items != 0)
-- 
2.43.0


From 5120643f37adfb4fdfd417e41d6b7de80f725959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 024/144] fix: corrupt snappy blocks are uncompressed without
 noticing

---
 tpie/compressed/scheme_snappy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/scheme_snappy.cpp b/tpie/compressed/scheme_snappy.cpp
index c1b702d..587dea6 100644
--- a/tpie/compressed/scheme_snappy.cpp
+++ b/tpie/compressed/scheme_snappy.cpp
@@ -53,7 +53,8 @@ virtual size_t uncompressed_length(const char * src, size_t srcSize) const overr
 
 virtual void uncompress(char * dest, const char * src, size_t srcSize) const override {
 	tpie::stat_timer t(6); // Time uncompressing
-	snappy::RawUncompress(src, srcSize, dest);
+	if (!snappy::RawUncompress(src, srcSize, dest))
+		throw tpie::stream_exception("Corrupt block; snappy::RawUncompress failed");
 }
 
 };
-- 
2.43.0


From 5b2aea6491c0bc19ced9e268ffaa523122893bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 025/144] fix: blocks of unknown compression scheme or wrong
 size read backwards are accepted

---
 tpie/compressed/stream_base.cpp | 3 +++
 tpie/compressed/thread.cpp      | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index c8abad2..c7754ae 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -637,6 +637,9 @@ public:
 		} else {
 			read_block(lock, m_readOffset, read_direction::backward);
 		
+			if (m_buffer->size() / m_itemSize != m_blockItems)
+				throw exception("read_previous_block: Bad buffer->get_size");
+
 			// This is backwards since we are reading backwards.
 			// Confusing, I know.
 			m_nextReadOffset = m_readOffset;
diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index 7cc62e7..7c65f28 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -225,6 +225,10 @@ private:
 		if (blockHeader != blockTrailer) {
 			throw exception("Block trailer is different from the block header");
 		}
+		if (blockHeader.get_compression_scheme() != compression_scheme::none
+			&& blockHeader.get_compression_scheme() != compression_scheme::snappy) {
+			throw exception("Unknown compression scheme in block header");
+		}
 
 		const compression_scheme & compressionScheme =
 			get_compression_scheme(blockHeader.get_compression_scheme());
-- 
2.43.0


From 46c10ac42dce8f6114d358ece0abaece4611ad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 026/144] fix: uncompressed streams leak their file accessor

---
 tpie/file_stream_base.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/file_stream_base.h b/tpie/file_stream_base.h
index 2608d94..00bc219 100644
--- a/tpie/file_stream_base.h
+++ b/tpie/file_stream_base.h
@@ -85,6 +85,7 @@ protected:
 
 	inline ~file_stream_base() {
 		close();
+		delete m_fileAccessor;
 	}
 
 	void swap(file_stream_base & other) {
-- 
2.43.0


From c75ce3ef74c99dde7bbac67d6081bda4959dc563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 027/144] fix: opening an open serialization writer again loses
 buffered data

---
 tpie/serialization_stream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 128b292..3fc56f4 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -239,12 +239,14 @@ void serialization_writer::write_block() {
 }
 
 void serialization_writer::open(std::string path) {
+	close();
 	p_t::open(path, false);
 	m_block.resize(block_size());
 	m_index = 0;
 }
 
 void serialization_writer::open(temp_file & tempFile) {
+	close();
 	p_t::open(tempFile, false);
 	m_block.resize(block_size());
 	m_index = 0;
@@ -274,12 +276,14 @@ void serialization_reverse_writer::write_block() {
 }
 
 void serialization_reverse_writer::open(std::string path) {
+	close();
 	p_t::open(path, true);
 	m_block.resize(block_size());
 	m_index = 0;
 }
 
 void serialization_reverse_writer::open(temp_file & tempFile) {
+	close();
 	p_t::open(tempFile, true);
 	m_block.resize(block_size());
 	m_index = 0;
-- 
2.43.0


From a5a5a62a86f21f57157093820c6be862fcef01db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 028/144] fix: reading or writing user data interferes with
 pending block requests

---
 tpie/compressed/buffer.h        | 12 ++++++++++++
 tpie/compressed/stream_base.cpp | 15 +++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/tpie/compressed/buffer.h b/tpie/compressed/buffer.h
index 7d084a7..32c6118 100644
--- a/tpie/compressed/buffer.h
+++ b/tpie/compressed/buffer.h
@@ -342,6 +342,18 @@ public:
 		return m_buffers.empty();
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Whether a request holds on to one of our buffers.
+	///
+	/// \param held  The buffer held by the stream itself, if any.
+	///////////////////////////////////////////////////////////////////////////
+	bool has_requests(const buffer_t & held) const {
+		for (buffermap_t::const_iterator i = m_buffers.begin(); i != m_buffers.end(); ++i) {
+			if (i->second.use_count() > (i->second == held ? 2 : 1)) return true;
+		}
+		return false;
+	}
+
 	void clean() {
 		buffermapit i = m_buffers.begin();
 		while (i != m_buffers.end()) {
diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index c7754ae..11e3fb3 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -378,6 +378,15 @@ public:
 		}
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Wait until the compressor thread does not use the file.
+	/// Unlike finish_requests, this may be called while we hold a buffer.
+	///////////////////////////////////////////////////////////////////////////
+	void wait_for_requests(compressor_thread_lock & l) {
+		while (m_buffers.has_requests(m_buffer))
+			compressor().wait_for_request_done(l);
+	}
+
 	compressor_thread & compressor() { return the_compressor_thread(); }
 
 	///////////////////////////////////////////////////////////////////////////
@@ -852,11 +861,17 @@ memory_size_type compressed_stream_base::block_size() const {
 
 memory_size_type compressed_stream_base::read_user_data(void * data, memory_size_type count) {
 	tp_assert(is_open(), "read_user_data: !is_open");
+	// Seeking in the file would interfere with pending requests.
+	compressor_thread_lock l(m_p->compressor());
+	m_p->wait_for_requests(l);
 	return m_p->m_byteStreamAccessor.read_user_data(data, count);
 }
 
 void compressed_stream_base::write_user_data(const void * data, memory_size_type count) {
 	tp_assert(is_open(), "write_user_data: !is_open");
+	// Seeking in the file would interfere with pending requests.
+	compressor_thread_lock l(m_p->compressor());
+	m_p->wait_for_requests(l);
 	m_p->m_byteStreamAccessor.write_user_data(data, count);
 }
 
-- 
2.43.0


From 44761cd8777640d3612c6e10af1ddefa421d5a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 029/144] fix: stream hangs on a compressed file without the
 offset of its last block

---
 tpie/file_accessor/stream_accessor_base.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tpie/file_accessor/stream_accessor_base.inl b/tpie/file_accessor/stream_accessor_base.inl
index de171d2..61d6479 100644
--- a/tpie/file_accessor/stream_accessor_base.inl
+++ b/tpie/file_accessor/stream_accessor_base.inl
@@ -94,6 +94,11 @@ void stream_accessor_base<file_accessor_t>::validate_header(const stream_header_
 
 	if (header.get_clean_close() == false)
 		throw invalid_file_exception("Invalid file, the file was not closed properly");
+
+	if (header.get_compressed()
+		&& header.size > m_blockItems
+		&& header.lastBlockReadOffset == std::numeric_limits<stream_size_type>::max())
+		throw invalid_file_exception("Invalid file, the last block of a compressed file is missing");
 }
 
 template <typename file_accessor_t>
-- 
2.43.0


From 7aa10b3b6514ce8718a127617d781db8ed16965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 030/144] fix: stream that was never attached to a file frees
 an indeterminate block

---
 tpie/file_base.cpp | 2 +-
 tpie/file_base.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/file_base.cpp b/tpie/file_base.cpp
index aecbd2b..d6382fd 100644
--- a/tpie/file_base.cpp
+++ b/tpie/file_base.cpp
@@ -136,7 +136,7 @@ void file_base::stream::update_block_core() {
 
 
 file_base::stream::stream(file_base & f, stream_size_type offset):
-	m_file(0) {
+	m_file(0), m_block(0) {
 	attach_inner(f);
 	if (m_file->m_open)
 		seek(offset);
diff --git a/tpie/file_base.h b/tpie/file_base.h
index 59c0966..56d6c8d 100644
--- a/tpie/file_base.h
+++ b/tpie/file_base.h
@@ -151,7 +151,7 @@ public:
 		///////////////////////////////////////////////////////////////////////
 		stream(file_base & file, stream_size_type offset=0);
 
-		stream() : m_file(0) {}
+		stream() : m_file(0), m_block(0) {}
 
 	private:
 		///////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 81fc262ddd0b7b4808e174ec0a87e3599286b510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 031/144] fix: every file writes to the shared empty block when
 it is created, a data race

---
 tpie/file_base.cpp | 2 --
 tpie/file_base.h   | 9 +++++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/tpie/file_base.cpp b/tpie/file_base.cpp
index d6382fd..8f7426b 100644
--- a/tpie/file_base.cpp
+++ b/tpie/file_base.cpp
@@ -31,8 +31,6 @@ file_base::file_base(memory_size_type itemSize,
 					 double blockFactor,
 					 file_accessor::file_accessor * fileAccessor):
 	file_base_crtp<file_base>(itemSize, blockFactor, fileAccessor) {
-	m_emptyBlock.size = 0;
-	m_emptyBlock.number = std::numeric_limits<stream_size_type>::max();
 }
 
 
diff --git a/tpie/file_base.h b/tpie/file_base.h
index 56d6c8d..7ac3b97 100644
--- a/tpie/file_base.h
+++ b/tpie/file_base.h
@@ -42,6 +42,7 @@
 #include <tpie/access_type.h>
 #include <tpie/types.h>
 #include <algorithm>
+#include <limits>
 
 namespace tpie {
 
@@ -62,6 +63,14 @@ protected:
 		stream_size_type number;
 		bool dirty;
 		char data[0];
+
+		block_t()
+			: size(0)
+			, usage(0)
+			, number(std::numeric_limits<stream_size_type>::max())
+			, dirty(false)
+		{
+		}
 	};
 #ifdef WIN32
 #pragma warning( pop )
-- 
2.43.0


From e829d1fae18e9bfa07439743631674d86d8c0abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 032/144] fix: block lost when writing it failed once

---
 tpie/file_base.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tpie/file_base.cpp b/tpie/file_base.cpp
index 8f7426b..c08c993 100644
--- a/tpie/file_base.cpp
+++ b/tpie/file_base.cpp
@@ -96,14 +96,19 @@ file_base::block_t * file_base::get_block(stream_size_type block) {
 
 void file_base::free_block(block_t * block) {
 	assert(block->usage > 0);
-	--block->usage;
-	if (block->usage > 0) return;
+	if (block->usage > 1) {
+		--block->usage;
+		return;
+	}
 
+	// If this throws, the block is still in use by the caller.
 	if (block->dirty || !m_canRead) {
 		assert(m_canWrite);
 		m_fileAccessor->write_block(block->data, block->number, block->size);
 	}
 
+	block->usage = 0;
+
 	boost::intrusive::list<block_t>::iterator i = m_used.iterator_to(*block);
 
 	m_used.erase(i);
-- 
2.43.0


From bbd27895bc6c17a3c60387f823659c5dced5a567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 033/144] fix: file that could not be closed properly is closed
 again, terminating the process

---
 tpie/file_accessor/stream_accessor_base.inl | 3 ++-
 tpie/serialization_stream.cpp               | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/tpie/file_accessor/stream_accessor_base.inl b/tpie/file_accessor/stream_accessor_base.inl
index 61d6479..1a57b9d 100644
--- a/tpie/file_accessor/stream_accessor_base.inl
+++ b/tpie/file_accessor/stream_accessor_base.inl
@@ -175,8 +175,9 @@ void stream_accessor_base<file_accessor_t>::close() {
 		return;
 	if (m_write)
 		write_header(true);
-	m_fileAccessor.close_i();
+	// The file is closed even if close_i() reports an error.
 	m_open = false;
+	m_fileAccessor.close_i();
 }
 
 template <typename file_accessor_t>
diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 3fc56f4..0fed28c 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -213,9 +213,10 @@ void serialization_writer_base::close(bool reverse) {
 	header.set_size(m_size);
 	header.set_reverse(reverse);
 	header.write(true);
-	m_fileAccessor.close_i();
+	// The file is closed even if close_i() reports an error.
 	m_open = false;
 	m_tempFile = 0;
+	m_fileAccessor.close_i();
 }
 
 stream_size_type serialization_writer_base::file_size() {
@@ -339,9 +340,9 @@ void serialization_reader_base::read_block(const stream_size_type blk) {
 
 void serialization_reader_base::close() {
 	if (!m_open) return;
-	m_fileAccessor.close_i();
 	m_open = false;
 	m_block.resize(0);
+	m_fileAccessor.close_i();
 }
 
 stream_size_type serialization_reader_base::file_size() {
-- 
2.43.0


From 524e9aff72a90a236be07bd3932051b8db5c9723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:39 +0000
Subject: [PATCH 034/144] fix: failing to write a block of a reverse
 serialization stream terminates the process

---
 tpie/serialization_stream.cpp | 8 +++++++-
 tpie/serialization_stream.h   | 8 ++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 0fed28c..cf9b954 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -272,7 +272,13 @@ serialization_reverse_writer::~serialization_reverse_writer() {
 void serialization_reverse_writer::write_block() {
 	// See note about m_index and its semantics.
 	std::reverse(m_block.get(), m_block.get() + block_size());
-	p_t::write_block(m_block.get(), m_index);
+	try {
+		p_t::write_block(m_block.get(), m_index);
+	} catch (...) {
+		// Nothing was written, so keep the block as it was.
+		std::reverse(m_block.get(), m_block.get() + block_size());
+		throw;
+	}
 	m_index = 0;
 }
 
diff --git a/tpie/serialization_stream.h b/tpie/serialization_stream.h
index f0674c9..7af2c02 100644
--- a/tpie/serialization_stream.h
+++ b/tpie/serialization_stream.h
@@ -183,8 +183,10 @@ public:
 			std::copy(s, s + n, data.data() + offs);
 		}
 
-		~serializer() {
-			std::vector<char> & data = wr.m_serializationBuffer;
+		/** \brief Writes the serialized data. Throws if writing a block fails. */
+		~serializer() noexcept(false) {
+			std::vector<char> data;
+			data.swap(wr.m_serializationBuffer);
 			const memory_size_type n = data.size();
 			const char * const s = data.data();
 			if (wr.m_index + n <= wr.block_size()) {
@@ -207,7 +209,9 @@ public:
 					wr.m_index += writeSize;
 				}
 			}
+			// Reuse the allocation.
 			data.resize(0);
+			data.swap(wr.m_serializationBuffer);
 		}
 	};
 
-- 
2.43.0


From 2ecefc9534a11e44f6918484cf0698827ca6bcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 035/144] fix: failing to truncate loses a block of a stream
 that is then marked as properly closed

---
 tpie/compressed/stream_base.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 11e3fb3..309e2c6 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -482,7 +482,14 @@ public:
 			m_buffer.reset();
 			m_bufferDirty = false;
 			finish_requests(l);
-			m_byteStreamAccessor.truncate(offset);
+			try {
+				m_byteStreamAccessor.truncate(offset);
+			} catch (...) {
+				// We may have dropped a block that is still part of the stream,
+				// so do not mark the file as properly closed.
+				m_byteStreamAccessor.abandon();
+				throw;
+			}
 			update_recorded_size(l);
 			m_o->m_size = offset;
 			m_streamBlocks = (offset + m_blockItems - 1) / m_blockItems;
@@ -506,8 +513,8 @@ public:
 			{
 				// perform_seek has waited for pending requests.
 				compressor_thread_lock l(compressor());
-				m_response.clear_block_info();
 				m_byteStreamAccessor.truncate_bytes(pos.read_offset());
+				m_response.clear_block_info();
 				update_recorded_size(l);
 			}
 			m_streamBlocks = block_number(offset);
-- 
2.43.0


From 636a7487c0c8720ebb49b892a5cceef06063faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 036/144] fix: temporary names are generated from shared state
 without a lock

---
 tpie/tempname.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index 7c84c21..9274a93 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -34,6 +34,7 @@
 #include <tpie/file_accessor/file_accessor.h>
 #include <stack>
 #include <random>
+#include <mutex>
 
 #ifdef _WIN32
 #include <Windows.h>
@@ -54,6 +55,9 @@ std::string default_base_name = "TPIE";
 std::string default_extension;
 std::stack<std::string> subdirs;
 
+// Protects subdirs and default_path.
+std::mutex tempname_mutex;
+
 }
 
 std::string _get_system_path() {
@@ -168,6 +172,7 @@ void create_subdir() {
 }
 
 std::string gen_temp(const std::string& post_base, const std::string& dir, const std::string& suffix) {
+	std::lock_guard<std::mutex> lock(tempname_mutex);
 	if (!dir.empty()) {
 		std::filesystem::path p;
 		p = dir; p /= construct_name(post_base, get_timestamp(), suffix);
@@ -190,6 +195,7 @@ std::string gen_temp(const std::string& post_base, const std::string& dir, const
 
 namespace tpie {
 	void finish_tempfile() {
+		std::lock_guard<std::mutex> lock(tempname_mutex);
 		while (!subdirs.empty()) {
 			if (!subdirs.top().empty()) {
 				std::error_code c;
@@ -250,6 +256,7 @@ bool tempname::try_directory(const std::string& path) {
 }
 
 void tempname::set_default_path(const std::string&  path, const std::string& subdir) {
+	std::lock_guard<std::mutex> lock(tempname_mutex);
 	if (subdir=="") {
 		default_path = path;
 		subdirs.push(""); // signals that the current global subdirectory has not been created yet
-- 
2.43.0


From 40b829a69322732bb0c7b57b73da4753f95663b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 037/144] fix: a file is used as directory for temporary files

---
 tpie/tempname.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index 9274a93..753a11d 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -272,6 +272,7 @@ void tempname::set_default_path(const std::string&  path, const std::string& sub
 			default_path = path;
 			subdirs.push(""); // signals that the current global subdirectory has not been created yet
 			TP_LOG_WARNING_ID("Could not use " << p << " as directory for temporary files, trying " << path);
+			return;
 		}
 
 		default_path = p.string();
-- 
2.43.0


From 6382185dc73b384fe2edb52a1da227e70672bda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 038/144] fix: temporary files created in the previous
 directory after falling back to another

---
 tpie/tempname.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index 753a11d..01459a4 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -280,6 +280,7 @@ void tempname::set_default_path(const std::string&  path, const std::string& sub
 	} catch (std::filesystem::filesystem_error &) {
 		TP_LOG_WARNING_ID("Could not use " << p << " as directory for temporary files, trying " << path);
 		default_path = path; 
+		subdirs.push(""); // signals that the current global subdirectory has not been created yet
 	}	
 }
 
-- 
2.43.0


From 729f5b6c6f45ddc3f8edd3a8b39ac19d930f4402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 039/144] fix: default extension of temporary files is ignored

---
 tpie/tempname.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index 01459a4..485d625 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -207,8 +207,9 @@ namespace tpie {
 }
 
 std::string tempname::tpie_name(const std::string& post_base, const std::string& dir, const std::string& ext) {
-	if (ext.empty()) return gen_temp(post_base, dir, ".tpie");
-	else return gen_temp(post_base, dir, "." + ext);
+	if (!ext.empty()) return gen_temp(post_base, dir, "." + ext);
+	else if (!default_extension.empty()) return gen_temp(post_base, dir, "." + default_extension);
+	else return gen_temp(post_base, dir, ".tpie");
 }
 
 std::string tempname::tpie_dir_name(const std::string& post_base, const std::string& dir) {
-- 
2.43.0


From 90f7137bd4c393e30ed50b66acf0b4e8aeb3b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:12 +0000
Subject: [PATCH 040/144] fix: temporary space of a file removed by others
 stays accounted

---
 tpie/tempname.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index 485d625..acf3fa6 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -310,11 +310,12 @@ namespace tpie {
 namespace bits {
 
 temp_file_inner::~temp_file_inner() {
-	if (m_path.empty() || m_persist || !std::filesystem::exists(m_path))
+	if (m_path.empty() || m_persist)
 		return;
 
-	std::filesystem::remove(m_path);
 	update_recorded_size(0);
+	if (std::filesystem::exists(m_path))
+		std::filesystem::remove(m_path);
 }
 
 temp_file_inner::temp_file_inner() : m_persist(false), m_recordedSize(0), m_count(0) {}
-- 
2.43.0


From 17fa17a08fb205837db210bd42226560bb2006a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:34 +0000
Subject: [PATCH 041/144] fix: a compressed block is announced as written
 before it is

---
 tpie/compressed/thread.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tpie/compressed/thread.cpp b/tpie/compressed/thread.cpp
index 7c65f28..3d26bfe 100644
--- a/tpie/compressed/thread.cpp
+++ b/tpie/compressed/thread.cpp
@@ -295,18 +295,19 @@ private:
 			wr.file_accessor().truncate_bytes(wr.write_offset());
 			//log_debug() << "File size is now " << wr.file_accessor().file_size() << std::endl;
 		}
+		const stream_size_type offset = wr.file_accessor().file_size();
+		// If this fails, the block must not be announced as written.
+		wr.file_accessor().append(scratch.get(), writeSize);
 		{
 			compressor_thread_lock::lock_t lock(mutex());
 			wr.buffer()->transition_state(compressor_buffer_state::writing,
 										  compressor_buffer_state::clean);
 			wr.buffer()->set_block_size(writeSize);
-			wr.buffer()->set_read_offset(wr.file_accessor().file_size());
-			const stream_size_type offset = wr.file_accessor().file_size();
+			wr.buffer()->set_read_offset(offset);
 			wr.set_block_info(offset, writeSize);
 			const stream_size_type newSize = offset + writeSize;
 			wr.update_recorded_size(newSize);
 		}
-		wr.file_accessor().append(scratch.get(), writeSize);
 	}
 
 public:
-- 
2.43.0


From 78a440a1672f2aacf57552cea6b0658359a1e2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 042/144] fix: temporary space of a reopened serialization
 writer stays accounted

---
 tpie/serialization_stream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index cf9b954..bc91c55 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -194,6 +194,8 @@ void serialization_writer_base::open(std::string path, bool reverse) {
 void serialization_writer_base::open(temp_file & tempFile, bool reverse) {
 	m_tempFile = &tempFile;
 	open_inner(tempFile.path(), reverse);
+	// Opening the file has discarded what it held.
+	m_tempFile->update_recorded_size(0);
 }
 
 void serialization_writer_base::write_block(const char * const s, const memory_size_type n) {
-- 
2.43.0


From d4051196405595e2ca450df5a27478cb96b3e8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 043/144] fix: the last block of a temporary file is not
 accounted

---
 tpie/file_base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/file_base.cpp b/tpie/file_base.cpp
index c08c993..537a223 100644
--- a/tpie/file_base.cpp
+++ b/tpie/file_base.cpp
@@ -105,6 +105,8 @@ void file_base::free_block(block_t * block) {
 	if (block->dirty || !m_canRead) {
 		assert(m_canWrite);
 		m_fileAccessor->write_block(block->data, block->number, block->size);
+		if (m_tempFile)
+			m_tempFile->update_recorded_size(m_fileAccessor->byte_size());
 	}
 
 	block->usage = 0;
-- 
2.43.0


From 540f51019767ae1154acdd517cd9d4d3fc7d8c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 044/144] fix: memory estimates multiply the overheads of the
 parts of a structure

---
 tpie/util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/util.h b/tpie/util.h
index a908d1b..9ab3f1f 100644
--- a/tpie/util.h
+++ b/tpie/util.h
@@ -79,7 +79,7 @@ struct linear_memory_usage {
 	}
 
     constexpr friend linear_memory_usage operator + (const linear_memory_usage & l, const linear_memory_usage & r) noexcept {
-		return linear_memory_usage(l.coefficient + r.coefficient, l.overhead * r.overhead);
+		return linear_memory_usage(l.coefficient + r.coefficient, l.overhead + r.overhead);
 	}
 };
 
-- 
2.43.0


From 8b8105d4d398a16327a46bc7ed60a3f8596423b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 045/144] fix: memory estimates beyond the largest memory size
 are undefined

---
 tpie/util.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tpie/util.h b/tpie/util.h
index 9ab3f1f..ffdd48a 100644
--- a/tpie/util.h
+++ b/tpie/util.h
@@ -27,6 +27,7 @@
 #include <tpie/config.h>
 #include <tpie/types.h>
 #include <cmath>
+#include <limits>
 #include <string>
 
 namespace tpie {
@@ -66,8 +67,12 @@ struct linear_memory_usage {
 	coefficient(coefficient), overhead(overhead) {}
 
 	constexpr memory_size_type operator()(memory_size_type size) const noexcept {
-		return static_cast<memory_size_type>(
-			static_cast<double>(size) * coefficient + overhead);
+		// Converting a double that does not fit is undefined.
+		return static_cast<double>(size) * coefficient + overhead
+			>= static_cast<double>(std::numeric_limits<memory_size_type>::max())
+			? std::numeric_limits<memory_size_type>::max()
+			: static_cast<memory_size_type>(
+				static_cast<double>(size) * coefficient + overhead);
 	}
 
 	constexpr friend linear_memory_usage operator * (const linear_memory_usage & o, double scale) noexcept {
-- 
2.43.0


From 268d11e2ef08351746cb7315b12ea30cdc2ea988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 046/144] fix: insertion point left behind in the buffer map
 when no buffer can be allocated

---
 tpie/compressed/buffer.h | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/tpie/compressed/buffer.h b/tpie/compressed/buffer.h
index 32c6118..89c25c0 100644
--- a/tpie/compressed/buffer.h
+++ b/tpie/compressed/buffer.h
@@ -314,15 +314,21 @@ public:
 
 			if (i == m_buffers.end()) {
 				// No free found: allocate new buffer.
-				if (m_ownBuffers < OWN_BUFFERS) {
-					target->second = allocate_own_buffer();
-				} else if (can_take_shared_buffer()) {
-					target->second = take_shared_buffer();
-				} else {
-					// This is a contradition of the very first check
-					// in the beginning of the method.
-					tp_assert(false, "get_buffer: Could not get a new buffer "
-									 "contrary to previous checks");
+				try {
+					if (m_ownBuffers < OWN_BUFFERS) {
+						target->second = allocate_own_buffer();
+					} else if (can_take_shared_buffer()) {
+						target->second = take_shared_buffer();
+					} else {
+						// This is a contradition of the very first check
+						// in the beginning of the method.
+						tp_assert(false, "get_buffer: Could not get a new buffer "
+										 "contrary to previous checks");
+					}
+				} catch (...) {
+					// Do not leave the insertion point behind.
+					m_buffers.erase(target);
+					throw;
 				}
 			} else {
 				// Free found: reuse buffer.
@@ -398,7 +404,12 @@ private:
 
 	buffer_t take_shared_buffer() {
 		buffer_t b = the_stream_buffer_pool().take_shared_buffer();
-		ensure_capacity(b);
+		try {
+			ensure_capacity(b);
+		} catch (...) {
+			release_shared_buffer(b);
+			throw;
+		}
 		return b;
 	}
 
-- 
2.43.0


From f70c3f5216da197ad2c1f57da787b40eb26bd6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 047/144] fix: array that failed to resize refers to freed
 memory

---
 tpie/array.h | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/tpie/array.h b/tpie/array.h
index 5142951..73a57ae 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -492,7 +492,13 @@ public:
 			destruct_and_dealloc();
 			m_size = size;
 
-			alloc_fill(elm);
+			try {
+				alloc_fill(elm);
+			} catch (...) {
+				m_elements = 0;
+				m_size = 0;
+				throw;
+			}
 		} else {
 			std::fill(m_elements+0, m_elements+m_size, elm);
 		}
@@ -520,7 +526,13 @@ public:
 	void resize(size_t s) {
 		destruct_and_dealloc();
 		m_size = s;
-		alloc_dfl();
+		try {
+			alloc_dfl();
+		} catch (...) {
+			m_elements = 0;
+			m_size = 0;
+			throw;
+		}
 	}
 
 	///////////////////////////////////////////////////////////////////////////
@@ -594,21 +606,31 @@ struct allocator_usage<T, allocator<T> > {
 		host.m_elements = host.m_size ? reinterpret_cast<T*>(tpie_new_array<trivial_same_size<T> >(host.m_size)) : 0;
 		host.m_tss_used = true;
 
+		try {
+			std::uninitialized_copy(copy_from+0, copy_from+host.m_size, host.m_elements+0);
+		} catch (...) {
+			tpie_delete_array(reinterpret_cast<trivial_same_size<T>*>(host.m_elements), host.m_size);
+			throw;
+		}
+
 		if (host.m_allocator.bucket)
 			host.m_allocator.bucket->count += sizeof(T) * host.m_size;
-			
-		std::uninitialized_copy(copy_from+0, copy_from+host.m_size, host.m_elements+0);
 	}
 
 	static void alloc_fill(array<T, allocator<T> > & host, const T & elm) {
 		host.m_elements = host.m_size ? reinterpret_cast<T*>(tpie_new_array<trivial_same_size<T> >(host.m_size)) : 0;
 		host.m_tss_used = true;
 
+		// call copy constructors manually
+		try {
+			std::uninitialized_fill(host.m_elements+0, host.m_elements+host.m_size, elm);
+		} catch (...) {
+			tpie_delete_array(reinterpret_cast<trivial_same_size<T>*>(host.m_elements), host.m_size);
+			throw;
+		}
+
 		if (host.m_allocator.bucket)
 			host.m_allocator.bucket->count += sizeof(T) * host.m_size;
-		
-		// call copy constructors manually
-		std::uninitialized_fill(host.m_elements+0, host.m_elements+host.m_size, elm);
 	}
 
 	static void alloc_dfl(array<T, allocator<T> > & host) {
-- 
2.43.0


From 96a1e4311434bf60ebc4500d54a84a961bd915ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 048/144] fix: array iterators advance backwards by wrapping
 around, which is undefined

---
 tpie/array.h           | 2 +-
 tpie/array_view_base.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/array.h b/tpie/array.h
index 73a57ae..1b03258 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -53,7 +53,7 @@ private:
 	bool equal(array_iter_base<U, forward> const& o) const {return elm == o.elm;}
 	void increment() {elm += forward?1:-1;}
 	void decrement() {elm += forward?-1:1;}
-	void advance(size_t n) {if (forward) elm += n; else elm -= n;}
+	void advance(ptrdiff_t n) {if (forward) elm += n; else elm -= n;}
 	ptrdiff_t distance_to(array_iter_base const & o) const {return (forward?1:-1) * (o.elm - elm);}
 	TT * elm;
 public:
diff --git a/tpie/array_view_base.h b/tpie/array_view_base.h
index 59b03ce..6c3053e 100644
--- a/tpie/array_view_base.h
+++ b/tpie/array_view_base.h
@@ -51,7 +51,7 @@ public:
 		inline bool equal(iterator const& o) const {return elm == o.elm;}
 		inline void increment() {++elm;}
 		inline void decrement() {--elm;}
-		inline void advance(size_t n) {elm += n;}
+		inline void advance(ptrdiff_t n) {elm += n;}
 		inline ptrdiff_t distance_to(iterator const & o) const {return o.elm - elm;}
 		T & operator[](ptrdiff_t n) const noexcept {return *(elm + n);}
 		T * elm;
-- 
2.43.0


From 3654ccf416a15ac527b34639b6c719e0853fb184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 049/144] fix: object whose constructor threw is inspected when
 its memory is released

---
 tpie/memory.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpie/memory.h b/tpie/memory.h
index 9c78d32..705336a 100644
--- a/tpie/memory.h
+++ b/tpie/memory.h
@@ -235,7 +235,11 @@ struct allocation_scope_magic {
 	}
 	
 	~allocation_scope_magic() {
-		tpie_deallocate(data);
+		// There is no object in the memory, so tpie_deallocate cannot be used.
+		if (data) {
+			uint8_t * p = reinterpret_cast<uint8_t *>(data);
+			delete[] (std::is_polymorphic<T>::value ? p - sizeof(size_t) : p);
+		}
 		if (deregister) get_memory_manager().register_deallocation(deregister, typeid(T));
 	}
 };
-- 
2.43.0


From 32cb745790173a4e5690ea0d84fdce5ccfee1c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:51 +0000
Subject: [PATCH 050/144] fix: sorter of an abandoned pipeline refers to the
 memory bucket of a destroyed node

---
 tpie/pipelining/merge_sorter.cpp     |  4 ++++
 tpie/pipelining/merge_sorter.h       |  6 ++++++
 tpie/pipelining/serialization_sort.h | 14 ++++++++++++++
 tpie/pipelining/sort.h               | 14 ++++++++++++++
 tpie/serialization_sorter.h          |  5 +++++
 5 files changed, 43 insertions(+)

diff --git a/tpie/pipelining/merge_sorter.cpp b/tpie/pipelining/merge_sorter.cpp
index 89245a5..ca03219 100644
--- a/tpie/pipelining/merge_sorter.cpp
+++ b/tpie/pipelining/merge_sorter.cpp
@@ -258,6 +258,10 @@ void merge_sorter_base::set_owner(tpie::pipelining::node * n) {
 	m_owning_node = n;
 }
 
+void merge_sorter_base::release_owner(tpie::pipelining::node * n) {
+	if (n == m_owning_node) set_owner(nullptr);
+}
+
 	
 static memory_size_type clamp(memory_size_type lo, memory_size_type val, memory_size_type hi) {
 	return std::max(lo, std::min(val, hi));
diff --git a/tpie/pipelining/merge_sorter.h b/tpie/pipelining/merge_sorter.h
index 45a58e1..ab7a297 100644
--- a/tpie/pipelining/merge_sorter.h
+++ b/tpie/pipelining/merge_sorter.h
@@ -222,6 +222,12 @@ public:
 
 	void set_owner(tpie::pipelining::node * n);
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief Take back the memory bucket if it is owned by the given node.
+	/// To be called before the node is destroyed.
+	///////////////////////////////////////////////////////////////////////////
+	void release_owner(tpie::pipelining::node * n);
+
 	void set_phase_1_files(memory_size_type f1) {
 		p.filesPhase1 = f1;
 		check_not_started();
diff --git a/tpie/pipelining/serialization_sort.h b/tpie/pipelining/serialization_sort.h
index 2cb9017..6215bc2 100644
--- a/tpie/pipelining/serialization_sort.h
+++ b/tpie/pipelining/serialization_sort.h
@@ -196,6 +196,12 @@ public:
 
 	sort_calc_t(sort_calc_t && other) = default;
 
+	~sort_calc_t() {
+		// The output node may hold the sorter longer than this node exists.
+		sorterptr sorter = m_sorter ? m_sorter : m_weak_sorter.lock();
+		if (sorter) sorter->release_owner(this);
+	}
+
 	template <typename dest_t>
 	sort_calc_t(dest_t dest)
 		: dest(new dest_t(std::move(dest)))
@@ -297,6 +303,14 @@ public:
 		m_propagate_called = false;
 	}
 
+	sort_input_t(sort_input_t && other) = default;
+
+	~sort_input_t() {
+		// The output node may hold the sorter longer than this node exists.
+		sorterptr sorter = m_sorter ? m_sorter : m_weak_sorter.lock();
+		if (sorter) sorter->release_owner(this);
+	}
+
 	void propagate() override {
 		m_propagate_called = true;
 	}
diff --git a/tpie/pipelining/sort.h b/tpie/pipelining/sort.h
index c6b4a23..adf958e 100644
--- a/tpie/pipelining/sort.h
+++ b/tpie/pipelining/sort.h
@@ -222,6 +222,12 @@ public:
 
 	sort_calc_t(sort_calc_t && other) = default;
 
+	~sort_calc_t() {
+		// The output node may hold the sorter longer than this node exists.
+		sorterptr sorter = m_sorter ? m_sorter : m_weakSorter.lock();
+		if (sorter) sorter->release_owner(this);
+	}
+
 	template <typename dest_t>
 	sort_calc_t(dest_t dest)
 		: dest(new dest_t(std::move(dest)))
@@ -335,6 +341,14 @@ public:
 		set_plot_options(PLOT_BUFFERED | PLOT_SIMPLIFIED_HIDE);
 	}
 
+	sort_input_t(sort_input_t && other) = default;
+
+	~sort_input_t() {
+		// The output node may hold the sorter longer than this node exists.
+		sorterptr sorter = m_sorter ? m_sorter : m_weakSorter.lock();
+		if (sorter) sorter->release_owner(this);
+	}
+
 	void propagate() override {
 		if (this->can_fetch("items"))
 			m_sorter->set_items(this->fetch<stream_size_type>("items"));
diff --git a/tpie/serialization_sorter.h b/tpie/serialization_sorter.h
index 13fe8e0..62b1aa1 100644
--- a/tpie/serialization_sorter.h
+++ b/tpie/serialization_sorter.h
@@ -665,6 +665,11 @@ public:
 
 		m_owning_node = n;
 	}
+
+	// Take back the memory buckets if they are owned by the given node.
+	void release_owner(pipelining::node * n) {
+		if (n == m_owning_node) set_owner(nullptr);
+	}
 private:
 	static memory_size_type clamp(memory_size_type lo, memory_size_type val, memory_size_type hi) {
 		return std::max(lo, std::min(val, hi));
-- 
2.43.0


From fe1a5e8a385f0be7963a000dfbdcb7a213ee2c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 051/144] fix: destroying a stack whose stream was closed by a
 failure terminates the process

---
 tpie/stack.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/stack.h b/tpie/stack.h
index 5360d84..897428f 100644
--- a/tpie/stack.h
+++ b/tpie/stack.h
@@ -92,6 +92,8 @@ public:
     /// end of the stack.
     ////////////////////////////////////////////////////////////////////
 	~stack() {
+		// A stream is closed when an operation on it fails.
+		if (!m_stream.is_open()) return;
 		empty_buffer();
 		m_stream.truncate(m_stream.get_position());
 	}
-- 
2.43.0


From 5865804e7c2da090ec8f949313813d487893409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 052/144] fix: stream buffer lost when there is no memory to
 register it

---
 tpie/compressed/buffer.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/tpie/compressed/buffer.h b/tpie/compressed/buffer.h
index 89c25c0..78841fd 100644
--- a/tpie/compressed/buffer.h
+++ b/tpie/compressed/buffer.h
@@ -273,22 +273,21 @@ public:
 			if (target != m_buffers.end()) return target->second;
 
 			// If not found, wait for a free buffer to become available.
-			buffer_t b;
+			buffermapit i;
 			while (true) {
-				buffermapit i = m_buffers.begin();
+				i = m_buffers.begin();
 				while (i != m_buffers.end() && !i->second.unique()) ++i;
-				if (i == m_buffers.end()) {
-					compressor().wait_for_request_done(lock);
-					continue;
-				} else {
-					b.swap(i->second);
-					m_buffers.erase(i);
-					break;
-				}
+				if (i != m_buffers.end()) break;
+				compressor().wait_for_request_done(lock);
 			}
 
+			// Move the map node, so that the buffer is not lost
+			// when there is no memory for a new one.
+			auto node = m_buffers.extract(i);
+			node.key() = blockNumber;
+			buffer_t b = node.mapped();
+			m_buffers.insert(std::move(node));
 			b->reset();
-			m_buffers.insert(std::make_pair(blockNumber, b));
 			clean();
 			return b;
 		} else {
-- 
2.43.0


From 964557489dd8ddfb59bfc85920b2cc0f6c146f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 053/144] fix: usage stays increased when an allocation cannot
 be recorded by type

---
 tpie/memory.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tpie/memory.h b/tpie/memory.h
index 705336a..2d888dd 100644
--- a/tpie/memory.h
+++ b/tpie/memory.h
@@ -79,7 +79,12 @@ public:
 	void register_allocation(size_t bytes, const std::type_info & t) {
 		register_increased_usage(bytes);
 #ifndef TPIE_NDEBUG
-		register_typed_allocation(bytes, t);
+		try {
+			register_typed_allocation(bytes, t);
+		} catch (...) {
+			register_decreased_usage(bytes);
+			throw;
+		}
 #else
 		unused(t);
 #endif
-- 
2.43.0


From 4a400aa7297382fcdaba48d65f38bca96c45310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:31 +0000
Subject: [PATCH 054/144] fix: dequeuing from an empty queue leaves it with a
 wrapped around size

---
 tpie/queue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/queue.h b/tpie/queue.h
index 3af8aee..52541b4 100644
--- a/tpie/queue.h
+++ b/tpie/queue.h
@@ -99,6 +99,7 @@ public:
 	/// \return The dequeued item
 	////////////////////////////////////////////////////////////////////
 	const T & pop() {
+		if (m_size == 0) throw end_of_stream_exception();
 		--m_size;
 		if(pop_queue().can_read()) {
 			// The front of the queue is the pop stream
-- 
2.43.0


From 1d73629d1bcad0bd5e8dc6b127dacf805c0ce70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:13 +0000
Subject: [PATCH 055/144] fix: subtracting from an iterator of a packed array
 advances it

---
 tpie/packed_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 567d806..12e070b 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -64,7 +64,7 @@ public:
 	CT operator+(difference_type n) const {CT x=self(); return x += n;}
 	CT operator-(difference_type n) const {CT x=self(); return x -= n;}
 	CT & operator+=(difference_type n) {self().index() += (forward?n:-n); return self();}
-	CT & operator-=(difference_type n) {self().index() += (forward?n:-n); return self();}
+	CT & operator-=(difference_type n) {self().index() += (forward?-n:n); return self();}
 	RT operator[](difference_type n) {return *(self() + n);}
 };
 
-- 
2.43.0


From a942290948c06fdf4e8d995e398026f0849553ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:13 +0000
Subject: [PATCH 056/144] fix: packed arrays of 32 bits per element lose their
 contents

---
 tpie/packed_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 12e070b..fd42abf 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -125,7 +125,7 @@ private:
 	/// \brief Mask that will extract the lowest order logical element.
 	///////////////////////////////////////////////////////////////////////////
 	static storage_type mask() {
-		return (1 << B)-1;
+		return ~storage_type(0) >> (sizeof(storage_type) * 8 - B);
 	}
 
 	template <bool forward>
@@ -365,7 +365,7 @@ public:
 	void fill(T value) {
 		storage_type x=0;
 		for (size_t i=0; i < perword(); ++i) 
-			x = (x << B) + ((storage_type)value & mask());
+			x |= ((storage_type)value & mask()) << low(i);
 		for (size_t i=0; i < words(m_size); ++i)
 			m_elements[i] = x;		
 	}
-- 
2.43.0


From 9e73a3f5ba1935c5ae81b1570c8609868f11ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:13 +0000
Subject: [PATCH 057/144] fix: packed array that failed to resize refers to
 freed memory

---
 tpie/packed_array.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index fd42abf..ee30fab 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -353,8 +353,10 @@ public:
 	void resize(size_t s) {
 		if (s == m_size) return;
 		tpie_delete_array(m_elements, words(m_size));
+		m_elements = nullptr;
+		m_size = 0;
+		if (s) m_elements = tpie_new_array<storage_type>(words(s));
 		m_size = s;
-		m_elements = m_size?tpie_new_array<storage_type>(words(m_size)):nullptr;
 	}
 
 	/////////////////////////////////////////////////////////
-- 
2.43.0


From 226fb9f3d10834d6abcc44c2544cf295fc63bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:13 +0000
Subject: [PATCH 058/144] fix: assigning one dereferenced packed array iterator
 to another redirects the iterator

---
 tpie/packed_array.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index ee30fab..1800431 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -153,6 +153,10 @@ private:
 			*p = (*p & ~(mask()<<i)) | ((b & mask()) << i);
 	 		return *this;
 		}
+		iter_return_type(const iter_return_type &) = default;
+		iter_return_type & operator=(const iter_return_type & o) {
+			return *this = static_cast<T>(o);
+		}
 	};
 
 	/////////////////////////////////////////////////////////
-- 
2.43.0


From 8e48d59a4c1b5c0958b8bcaaef8b687452dc448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 059/144] fix: reverse iterators of empty arrays are formed by
 undefined null pointer arithmetic

---
 tpie/array.h        |  2 ++
 tpie/packed_array.h | 13 ++++++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/tpie/array.h b/tpie/array.h
index 1b03258..bea0f20 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -385,10 +385,12 @@ private:
 	}
 
 	reverse_iterator get_rev_iter(size_t idx) {
+		if (m_size == 0) return reverse_iterator(m_elements);
 		return reverse_iterator(m_elements+m_size-idx-1);
 	}
 
 	const_reverse_iterator get_rev_iter(size_t idx) const {
+		if (m_size == 0) return const_reverse_iterator(m_elements);
 		return const_reverse_iterator(m_elements+m_size-idx-1);
 	}
 public:
diff --git a/tpie/packed_array.h b/tpie/packed_array.h
index 1800431..21ed857 100644
--- a/tpie/packed_array.h
+++ b/tpie/packed_array.h
@@ -471,11 +471,14 @@ public:
 	const_iterator end() const {return const_iterator(m_elements,m_size);}
 
 	//We use m_elements -1 as basic for the reverse operators
-	//To make sure that the index of rend is positive
-	reverse_iterator rbegin() {return reverse_iterator(m_elements-1, perword()+m_size-1);}
-	const_reverse_iterator rbegin() const {return const_reverse_iterator(m_elements-1, perword()+m_size-1);}
-	reverse_iterator rend() {return reverse_iterator(m_elements-1, perword()-1);}
-	const_reverse_iterator rend() const {return const_reverse_iterator(m_elements-1, perword()-1);}
+	//To make sure that the index of rend is positive. An empty
+	//array has no elements to be before
+	storage_type * reverse_base() const {return m_elements?m_elements-1:m_elements;}
+
+	reverse_iterator rbegin() {return reverse_iterator(reverse_base(), perword()+m_size-1);}
+	const_reverse_iterator rbegin() const {return const_reverse_iterator(reverse_base(), perword()+m_size-1);}
+	reverse_iterator rend() {return reverse_iterator(reverse_base(), perword()-1);}
+	const_reverse_iterator rend() const {return const_reverse_iterator(reverse_base(), perword()-1);}
 
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Swap two arrays.
-- 
2.43.0


From f46424b1c5e3ddf07dfd9dc952810900933ed979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 060/144] fix: assigning an array to itself loses its elements

---
 tpie/array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/array.h b/tpie/array.h
index bea0f20..57d6b3c 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -212,6 +212,7 @@ public:
 	/// \return A reference to this array.
 	///////////////////////////////////////////////////////////////////////////
 	array & operator=(const array & other) {
+		if (this == &other) return *this;
 		resize(other.size());
 		for (size_t i=0; i < size(); ++i) m_elements[i] = other[i];
 		return *this;
-- 
2.43.0


From 53755163da11c9e1295639c05f125432bffc85e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 061/144] fix: copying through reverse iterators of arrays
 copies in the wrong direction

---
 tpie/array.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/tpie/array.h b/tpie/array.h
index 57d6b3c..272a846 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -738,12 +738,13 @@ void swap(tpie::array<T> & a, tpie::array<T> & b) {
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief std::copy template specialization for tpie::array.
 ///////////////////////////////////////////////////////////////////////////////
-template <typename TT1, bool forward1, typename TT2, bool forward2>
-tpie::array_iter_base<TT2, forward2>
-copy(tpie::array_iter_base<TT1, forward1> first,
-     tpie::array_iter_base<TT1, forward1> last,
-	 tpie::array_iter_base<TT2, forward2> d_first) {
+template <typename TT1, typename TT2>
+tpie::array_iter_base<TT2, true>
+copy(tpie::array_iter_base<TT1, true> first,
+     tpie::array_iter_base<TT1, true> last,
+	 tpie::array_iter_base<TT2, true> d_first) {
 
+	if (first == last) return d_first;
 	ptrdiff_t dist = copy(&*first, &*last, &*d_first) - &*d_first;
 	return d_first + dist;
 }
@@ -751,24 +752,26 @@ copy(tpie::array_iter_base<TT1, forward1> first,
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief std::copy template specialization for tpie::array as input.
 ///////////////////////////////////////////////////////////////////////////////
-template <typename TT, bool forward, typename OutputIterator>
+template <typename TT, typename OutputIterator>
 OutputIterator
-copy(tpie::array_iter_base<TT, forward> first,
-     tpie::array_iter_base<TT, forward> last,
+copy(tpie::array_iter_base<TT, true> first,
+     tpie::array_iter_base<TT, true> last,
 	 OutputIterator d_first) {
 
+	if (first == last) return d_first;
 	return copy(&*first, &*last, d_first);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief std::copy template specialization for tpie::array as output.
 ///////////////////////////////////////////////////////////////////////////////
-template <typename TT, bool forward, typename InputIterator>
-tpie::array_iter_base<TT, forward>
+template <typename TT, typename InputIterator>
+tpie::array_iter_base<TT, true>
 copy(InputIterator first,
 	 InputIterator last,
-	 tpie::array_iter_base<TT, forward> d_first) {
+	 tpie::array_iter_base<TT, true> d_first) {
 
+	if (first == last) return d_first;
 	ptrdiff_t dist = copy(first, last, &*d_first) - &*d_first;
 	return d_first + dist;
 }
-- 
2.43.0


From 0b14dcd7249cc24400b0bab011764eedaec3e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 062/144] fix: elements are leaked when constructing an array
 with a custom allocator fails

---
 tpie/array.h | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/tpie/array.h b/tpie/array.h
index 272a846..78bff18 100644
--- a/tpie/array.h
+++ b/tpie/array.h
@@ -666,27 +666,50 @@ template <typename T, typename Allocator>
 struct allocator_usage {
 	static void alloc_copy(array<T, Allocator> & host, const T * copy_from) {
 		host.m_elements = host.m_size ? host.m_allocator.allocate(host.m_size) : 0;
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_allocator.construct(host.m_elements+i, copy_from[i]);
+		size_t i = 0;
+		try {
+			for (; i < host.m_size; ++i) {
+				host.m_allocator.construct(host.m_elements+i, copy_from[i]);
+			}
+		} catch (...) {
+			release(host, i);
+			throw;
 		}
 	}
 
 	static void alloc_fill(array<T, Allocator> & host, const T & elm) {
 		host.m_elements = host.m_size ? host.m_allocator.allocate(host.m_size) : 0;
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_allocator.construct(host.m_elements+i, elm);
+		size_t i = 0;
+		try {
+			for (; i < host.m_size; ++i) {
+				host.m_allocator.construct(host.m_elements+i, elm);
+			}
+		} catch (...) {
+			release(host, i);
+			throw;
 		}
 	}
 
 	static void alloc_dfl(array<T, Allocator> & host) {
 		host.m_elements = host.m_size ? host.m_allocator.allocate(host.m_size) : 0;
-		for (size_t i = 0; i < host.m_size; ++i) {
-			host.m_allocator.construct(host.m_elements+i);
+		size_t i = 0;
+		try {
+			for (; i < host.m_size; ++i) {
+				host.m_allocator.construct(host.m_elements+i);
+			}
+		} catch (...) {
+			release(host, i);
+			throw;
 		}
 	}
 
 	static void destruct_and_dealloc(array<T, Allocator> & host) {
-		for (size_t i = 0; i < host.m_size; ++i) {
+		release(host, host.m_size);
+	}
+
+private:
+	static void release(array<T, Allocator> & host, size_t constructed) {
+		for (size_t i = 0; i < constructed; ++i) {
 			host.m_allocator.destroy(host.m_elements+i);
 		}
 		host.m_allocator.deallocate(host.m_elements, host.m_size);
-- 
2.43.0


From bc0240705ae1ee10311ce0107ef5cc0ed5f8cd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 063/144] fix: internal stack or vector that failed to resize
 still counts its elements

---
 tpie/internal_stack_vector_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/internal_stack_vector_base.h b/tpie/internal_stack_vector_base.h
index 46de428..0bd2507 100644
--- a/tpie/internal_stack_vector_base.h
+++ b/tpie/internal_stack_vector_base.h
@@ -74,7 +74,7 @@ public:
 	///
 	/// \param size  New capacity of the structure.
 	///////////////////////////////////////////////////////////////////////////
-	void resize(size_t size=0) {m_elements.resize(size); m_size=0;}
+	void resize(size_t size=0) {m_size=0; m_elements.resize(size);}
 
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Check if no elements are currently pushed to the structure.
-- 
2.43.0


From 73fb945aab2c54742ded5f0fb0ed0a4f9f001f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:46 +0000
Subject: [PATCH 064/144] fix: internal queue that failed to resize still
 counts its elements

---
 tpie/internal_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/internal_queue.h b/tpie/internal_queue.h
index c6258b5..89310e2 100644
--- a/tpie/internal_queue.h
+++ b/tpie/internal_queue.h
@@ -68,7 +68,7 @@ public:
 	///
 	/// \param size The number of elements to contain.
 	///////////////////////////////////////////////////////////////////////////
-	void resize(size_t size=0) {m_elements.resize(size); m_first = m_last = 0;}
+	void resize(size_t size=0) {m_first = m_last = 0; m_elements.resize(size);}
 	
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Return the item that has been in the queue for the longest time.
-- 
2.43.0


From 10e9331b639ebd1b1c3f1a4c3edb73af9453d048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:40 +0000
Subject: [PATCH 065/144] fix: views of empty ranges and of the end of arrays
 are formed by dereferencing the end

---
 tpie/array_view.h | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/tpie/array_view.h b/tpie/array_view.h
index cb1b393..86b71ad 100644
--- a/tpie/array_view.h
+++ b/tpie/array_view.h
@@ -32,6 +32,19 @@
 
 namespace tpie {
 
+namespace bits {
+
+///////////////////////////////////////////////////////////////////////////////
+/// \internal
+/// \brief Address of the first element, or null if there is none.
+///////////////////////////////////////////////////////////////////////////////
+template <typename C>
+auto view_start(C & c) -> decltype(&c.front()) {
+	return c.empty() ? nullptr : &c.front();
+}
+
+} // namespace bits
+
 
 ///////////////////////////////////////////////////////////////////////////////
 /// \brief Encapsulation of two pointers from any random access container. Like
@@ -57,19 +70,19 @@ public:
 	///////////////////////////////////////////////////////////////////////////
 	template <typename A>
 	inline array_view(std::vector<T, A> & v):
-		array_view_base<T>(&*(v.begin()), &(*v.end())) {}
+		array_view_base<T>(bits::view_start(v), bits::view_start(v) + v.size()) {}
 
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief tpie::array constructor.
 	///////////////////////////////////////////////////////////////////////////
 	inline array_view(tpie::array<T> & v):
-		array_view_base<T>(&*(v.begin()), &(*v.end())) {}
+		array_view_base<T>(bits::view_start(v), bits::view_start(v) + v.size()) {}
 
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief tpie::internal_vector constructor.
 	///////////////////////////////////////////////////////////////////////////
 	inline array_view(tpie::internal_vector<T> & v):
-		array_view_base<T>(&*(v.begin()), &(*v.end())) {}
+		array_view_base<T>(bits::view_start(v), bits::view_start(v) + v.size()) {}
 
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief std::vector subsequence.
@@ -79,7 +92,7 @@ public:
 	///////////////////////////////////////////////////////////////////////////
 	template <typename A>
 	inline array_view(std::vector<T, A> & v, size_t start, size_t end):
-		array_view_base<T>(&v[start], &v[end]) {}
+		array_view_base<T>(bits::view_start(v) + start, bits::view_start(v) + end) {}
 
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief tpie::array subsequence.
@@ -88,7 +101,7 @@ public:
 	/// \param end Index past the last element of the view (such that view.back() == v[end-1]).
 	///////////////////////////////////////////////////////////////////////////
 	inline array_view(tpie::array<T> & v, size_t start, size_t end):
-		array_view_base<T>(&v[start], &v[end]) {}
+		array_view_base<T>(bits::view_start(v) + start, bits::view_start(v) + end) {}
 
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Pointer constructor.
@@ -111,24 +124,24 @@ template <typename T>
 class array_view<const T>: public array_view_base<const T> {
 public:
 	inline array_view(array_view<T> o):
-		array_view_base<const T>(&*(o.begin()), &*(o.end())) {}
+		array_view_base<const T>(bits::view_start(o), bits::view_start(o) + o.size()) {}
 
 	template <typename A>
 	inline array_view(const std::vector<T, A> & v):
-		array_view_base<const T>(&*(v.begin()), &*(v.end())) {}
+		array_view_base<const T>(bits::view_start(v), bits::view_start(v) + v.size()) {}
 
 	inline array_view(const tpie::array<T> & v):
-		array_view_base<const T>(&*(v.begin()), &*(v.end())) {}
+		array_view_base<const T>(bits::view_start(v), bits::view_start(v) + v.size()) {}
 
 	inline array_view(const tpie::internal_vector<T> & v):
-		array_view_base<const T>(&*(v.begin()), &(*v.end())) {}
+		array_view_base<const T>(bits::view_start(v), bits::view_start(v) + v.size()) {}
 
 	template <typename A>
 	inline array_view(const std::vector<T, A> & v, size_t start, size_t end):
-		array_view_base<const T>(&v[start], &v[end]) {}
+		array_view_base<const T>(bits::view_start(v) + start, bits::view_start(v) + end) {}
 
 	inline array_view(const tpie::array<T> & v, size_t start, size_t end):
-		array_view_base<const T>(&v[start], &v[end]) {}
+		array_view_base<const T>(bits::view_start(v) + start, bits::view_start(v) + end) {}
 
 	inline array_view(const T * start, const T * end):
 		array_view_base<const T>(start, end) {}
@@ -140,7 +153,9 @@ public:
 
 template <typename T>
 array_view<typename std::remove_pointer<typename std::iterator_traits<T>::pointer>::type > make_array_view(T start, T end) {
-	return array_view<typename std::remove_pointer<typename std::iterator_traits<T>::pointer>::type>(&*start, &*end);
+	typedef typename std::remove_pointer<typename std::iterator_traits<T>::pointer>::type elm_t;
+	if (start == end) return array_view<elm_t>(static_cast<elm_t *>(nullptr), static_cast<elm_t *>(nullptr));
+	return array_view<elm_t>(&*start, &*start + (end - start));
 }
 
 template <typename T>
-- 
2.43.0


From 4960ae7b22168930130bc45c016953cb048de1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 066/144] fix: tiny multisets and multimaps insert without
 their comparator

---
 tpie/tiny.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 52f7c6e..8622866 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -106,8 +106,8 @@ struct MultiInsertHelp {
 		typedef iterator result;
 		
 		template <typename Comp>
-		static result handle(Inner & inner, const Comp &) {
-			iterator y=std::upper_bound(inner.begin(), inner.end()-1, inner.back());
+		static result handle(Inner & inner, const Comp & comp) {
+			iterator y=std::upper_bound(inner.begin(), inner.end()-1, inner.back(), comp);
 			std::rotate(y, inner.end()-1, inner.end());
 			return y;
 		}
-- 
2.43.0


From 21a6d0275c3398d14bb03bc1bacc55f8185eb19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 067/144] fix: erasing a range of a tiny container returns the
 beginning instead of the following element

---
 tpie/tiny.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 8622866..b100902 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -315,9 +315,7 @@ public:
 	 * last removed element.
 	 */
 	iterator erase(iterator first, iterator last) {
-		std::rotate(first, last, inner.end());
-		inner.resize(size() - (last-first));
-		return begin();
+		return inner.erase(first, last);
 	}
 
 	/**
-- 
2.43.0


From fe4bfcdb0c4a7fc0e7a510a7ba4433b0325f7aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 068/144] fix: tiny maps convert keys to the mapped type in
 lookups

---
 tpie/tiny.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index b100902..f48e2c2 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -699,7 +699,7 @@ template <typename Key,
 		  typename T,
 		  typename Comp=std::less<Key>,
 		  typename Alloc=std::allocator<std::pair<Key, T> > >
-using multimap = set_impl<std::pair<Key, T>, T, bits::PairExtract<Key, T>, Comp, Alloc, bits::MultiInsertHelp>;
+using multimap = set_impl<std::pair<Key, T>, Key, bits::PairExtract<Key, T>, Comp, Alloc, bits::MultiInsertHelp>;
 
 /**
  * \brief A std::map compatible map, useful when we do not have many elements (less then 512)
@@ -708,9 +708,9 @@ template <typename Key,
 		  typename T,
 		  typename Comp=std::less<Key>,
 		  typename Alloc=std::allocator<std::pair<Key, T> >
-		  > class map: public set_impl<std::pair<Key, T>, T, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> {
+		  > class map: public set_impl<std::pair<Key, T>, Key, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> {
 private:
-	typedef set_impl<std::pair<Key, T>, T, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> P;
+	typedef set_impl<std::pair<Key, T>, Key, bits::PairExtract<Key, T>, Comp, Alloc, bits::SingleInsertHelp> P;
 public:
 
 	map() {}
-- 
2.43.0


From b7c0ea73d2315756070eda4f7dc6edf3c8625797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 069/144] fix: ordering comparisons of tiny containers
 contradict each other

---
 tpie/tiny.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index f48e2c2..8095f7f 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -520,7 +520,7 @@ public:
 	 * less than the contents of rhs, false otherwise.
 	 */
 	friend bool operator<(const set_impl & lhs, const set_impl & rhs) {
-		return std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end(), lhs.comp);
+		return std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end());
 	}
 
 	/**
@@ -545,7 +545,7 @@ public:
 	 * greater than or equal the contents of rhs, false otherwise.
 	 */
 	friend bool operator>=(const set_impl & lhs, const set_impl & rhs) {
-		return !std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end(), lhs.comp);
+		return !std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(), rhs.end());
 	}
 
 	/**
-- 
2.43.0


From 7db65aee633cbc199cedfc9612d7c037355682a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:52 +0000
Subject: [PATCH 070/144] fix: inserting a range into a tiny container moves an
 iterator outside its range

---
 tpie/tiny.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/tiny.h b/tpie/tiny.h
index 8095f7f..377a38f 100644
--- a/tpie/tiny.h
+++ b/tpie/tiny.h
@@ -617,7 +617,7 @@ public:
 	 */
 	template <class InputIt>
 	void insert(InputIt first, InputIt last) {
-		inner.reserve(size() + last-first);
+		inner.reserve(size() + (last-first));
 		for (InputIt i=first; i != last; ++i)
 			insert(*i);
 	}
-- 
2.43.0


From 739566c1a97bac880af93e8885ea08f2641791df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:08 +0000
Subject: [PATCH 071/144] fix: btree: split full nodes evenly when the maximal
 fan-out is odd

The left node could be left with fewer than the minimal number of entries.
---
 tpie/btree/btree.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tpie/btree/btree.h b/tpie/btree/btree.h
index 293fe29..72f2adc 100644
--- a/tpie/btree/btree.h
+++ b/tpie/btree/btree.h
@@ -164,7 +164,9 @@ private:
 	NT split_and_insert(CT c, NT left, size_t index) {
 		tp_assert(m_state.store().count(left) == max_size(left), "Node not full");
 		
-		size_t left_size = max_size(left)/2;
+		// Leave the smaller part to the node that gets the new entry.
+		const bool insert_left = index <= max_size(left)/2;
+		size_t left_size = insert_left ? max_size(left)/2 : max_size(left) - max_size(left)/2;
 		size_t right_size = max_size(left)-left_size;
 		NT right = m_state.store().create(left);
 		for (size_t i=0; i < right_size; ++i)
@@ -172,7 +174,7 @@ private:
 		m_state.store().set_count(left, left_size);
 		m_state.store().set_count(right, right_size);
 
-		if (index <= left_size)
+		if (insert_left)
 			insert_part(left, c, index);
 		else
 			insert_part(right, c, index - left_size);
-- 
2.43.0


From 430cc480854bf1e831addb93e82f9b6a8907af57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:08 +0000
Subject: [PATCH 072/144] fix: btree: find returns the first item with the key

When items with equal keys were spread over several leaves, it returned the
first of them in the last of these leaves.
---
 tpie/btree/btree.h | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/tpie/btree/btree.h b/tpie/btree/btree.h
index 72f2adc..c0ff898 100644
--- a/tpie/btree/btree.h
+++ b/tpie/btree/btree.h
@@ -386,21 +386,9 @@ public:
 			return itr;
 		}
 
-		std::vector<internal_type> path;
-		leaf_type l = find_leaf<true>(path, v);
-	
-		size_t i=0;
-		size_t z = m_state.store().count(l);
-		while (true) {
-			if (i == z) {
-				itr.goto_end();
-				return itr;
-			}
-			if (!m_comp(m_state.min_key(l, i), v) &&
-				!m_comp(v, m_state.min_key(l, i))) break;
-			++i;
-		}
-		itr.goto_item(path, l, i);
+		// Items with equal keys may be spread over several leaves.
+		itr = lower_bound(v);
+		if (itr == end() || m_comp(v, m_state.min_key(*itr))) itr.goto_end();
 		return itr;
 	}
 
-- 
2.43.0


From f6cdde46491cd6935a18cafdba0f54806a30b789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:08 +0000
Subject: [PATCH 073/144] fix: serialized btree: iterators of an empty tree
 that was just built can be compared

---
 tpie/btree/serialized_store.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpie/btree/serialized_store.h b/tpie/btree/serialized_store.h
index 11568b7..2820c1b 100644
--- a/tpie/btree/serialized_store.h
+++ b/tpie/btree/serialized_store.h
@@ -299,11 +299,13 @@ private:
 		}
 
 		bool operator==(const leaf_type & o) const noexcept {
+			// Both are null in an empty tree that was just built.
+			if (!ptr || !o.ptr) return ptr == o.ptr;
 			return ptr->my_offset == o->my_offset;
 		}
 
 		bool operator!=(const leaf_type & o) const noexcept {
-			return !(this == o);
+			return !(*this == o);
 		}
 	};
 
-- 
2.43.0


From c87abae35cdb135e1467120cd0cbbae825584ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:08 +0000
Subject: [PATCH 074/144] fix: serialized btree: read the metadata from where
 it was written

It was read from wherever the file happened to be positioned.
---
 tpie/btree/serialized_store.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/btree/serialized_store.h b/tpie/btree/serialized_store.h
index 2820c1b..7789e06 100644
--- a/tpie/btree/serialized_store.h
+++ b/tpie/btree/serialized_store.h
@@ -604,6 +604,7 @@ private:
 		if (metadata_offset == 0 || metadata_size == 0)
 			return {};
 		std::string data(metadata_size, '\0');
+		f->seekg(metadata_offset);
 		f->read(&data[0], metadata_size);
 		return data;
 	}
-- 
2.43.0


From 1f9a293eeba551cc133ebbd39ad0ec92913c6bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:30 +0000
Subject: [PATCH 075/144] fix: block_collection: a partially written last block
 can be read

Reading a block always reads all of it, so reading beyond the end of the file failed
(or hung).
---
 tpie/blocks/block_collection.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tpie/blocks/block_collection.cpp b/tpie/blocks/block_collection.cpp
index 57896d2..391c95a 100644
--- a/tpie/blocks/block_collection.cpp
+++ b/tpie/blocks/block_collection.cpp
@@ -76,6 +76,11 @@ void block_collection::write_block(block_handle handle, const block & b) {
 
 	m_accessor.seek_i(handle.position);
 	m_accessor.write_i(static_cast<const void*>(b.get()), b.size());
+
+	// Reading gives all of the block, also when it is the last one in the file.
+	if(b.size() < handle.size && m_accessor.file_size_i() < handle.position + handle.size) {
+		m_accessor.truncate_i(handle.position + handle.size);
+	}
 }
 
 } // namespace blocks
-- 
2.43.0


From c21b3a680b97697dfdcdf874cbc9168268af572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:59 +0000
Subject: [PATCH 076/144] fix: block_collection_cache: a block can be freed
 while the cache is empty

Freeing a block right after opening the collection failed an assertion in debug builds.
---
 tpie/blocks/block_collection_cache.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tpie/blocks/block_collection_cache.cpp b/tpie/blocks/block_collection_cache.cpp
index 79dba63..39da765 100644
--- a/tpie/blocks/block_collection_cache.cpp
+++ b/tpie/blocks/block_collection_cache.cpp
@@ -52,7 +52,6 @@ block_handle block_collection_cache::get_free_block() {
 
 void block_collection_cache::free_block(block_handle handle) {
 	tp_assert(handle.size == m_blockSize, "the size of the handle is not correct")
-	tp_assert(m_curSize > 0, "the current size of the cache is 0");
 
 	block_map_t::iterator i = m_blockMap.find(handle);
 
-- 
2.43.0


From e6ab89928b9814f770229de407414de86ac0106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:03 +0000
Subject: [PATCH 077/144] fix: serialization readers: keep the position when
 the next block cannot be read

---
 tpie/serialization_stream.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index bc91c55..390cb50 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -339,11 +339,11 @@ void serialization_reader_base::read_block(const stream_size_type blk) {
 	stream_size_type from = blk * block_size();
 	stream_size_type to = std::min(from + block_size(), m_size);
 	if (to <= from) throw end_of_stream_exception();
-	m_index = 0;
-	m_blockSize = to-from;
 	m_fileAccessor.seek_i(bits::serialization_header::header_size()
 						  + from);
-	m_fileAccessor.read_i(m_block.get(), m_blockSize);
+	m_fileAccessor.read_i(m_block.get(), to-from);
+	m_index = 0;
+	m_blockSize = to-from;
 }
 
 void serialization_reader_base::close() {
@@ -364,12 +364,10 @@ stream_size_type serialization_reader_base::size() {
 } // namespace bits
 
 void serialization_reader::next_block() /*override*/ {
-	if (m_blockSize == 0) {
-		m_blockNumber = 0;
-	} else {
-		++m_blockNumber;
-	}
-	read_block(m_blockNumber);
+	// The position is kept if there is no next block or it cannot be read.
+	const stream_size_type next = m_blockSize == 0 ? 0 : m_blockNumber + 1;
+	read_block(next);
+	m_blockNumber = next;
 }
 
 serialization_reader::serialization_reader()
@@ -396,8 +394,8 @@ stream_size_type serialization_reader::offset() {
 void serialization_reverse_reader::next_block() /*override*/ {
 	if (m_blockNumber == 0)
 		throw end_of_stream_exception();
+	read_block(m_blockNumber - 1);
 	--m_blockNumber;
-	read_block(m_blockNumber);
 	std::reverse(m_block.begin(), m_block.begin() + m_blockSize);
 }
 
-- 
2.43.0


From a87cf67f6f140e8f43f294fe6b9cc000bf267457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:11 +0000
Subject: [PATCH 078/144] fix: serialization_reverse_writer: a value of no
 bytes can be written first

---
 tpie/serialization_stream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/serialization_stream.h b/tpie/serialization_stream.h
index 7af2c02..3f2ec32 100644
--- a/tpie/serialization_stream.h
+++ b/tpie/serialization_stream.h
@@ -190,7 +190,7 @@ public:
 			const memory_size_type n = data.size();
 			const char * const s = data.data();
 			if (wr.m_index + n <= wr.block_size()) {
-				std::copy(s, s + n, &wr.m_block[block_size() - wr.m_index - n]);
+				std::copy(s, s + n, wr.m_block.get() + (block_size() - wr.m_index - n));
 				wr.m_index += n;
 			} else {
 				const char * i = s + n;
@@ -203,7 +203,7 @@ public:
 
 					memory_size_type writeSize = std::min(remaining, blockRemaining);
 
-					std::copy(i - writeSize, i, &wr.m_block[block_size() - wr.m_index - writeSize]);
+					std::copy(i - writeSize, i, wr.m_block.get() + (block_size() - wr.m_index - writeSize));
 					i -= writeSize;
 					written += writeSize;
 					wr.m_index += writeSize;
-- 
2.43.0


From 2749375b6122ce1725ebade7db09727021084f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:20 +0000
Subject: [PATCH 079/144] fix: job manager: jobs can be enqueued while the
 worker count changes

---
 tpie/job.cpp | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/tpie/job.cpp b/tpie/job.cpp
index 3ee1ed6..f91b4d4 100644
--- a/tpie/job.cpp
+++ b/tpie/job.cpp
@@ -41,13 +41,17 @@ public:
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Default constructor.
 	///////////////////////////////////////////////////////////////////////////
-	job_manager() : m_jobs(128), m_kill_job_pool(false) {}
+	job_manager() : m_jobs(128), m_kill_job_pool(false), m_resizing(false) {}
 
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Initialize the thread pool.
 	///////////////////////////////////////////////////////////////////////////
 	void init_pool(size_t threads) {
-		m_kill_job_pool = false;
+		{
+			std::lock_guard<std::mutex> lock(jobs_mutex);
+			m_kill_job_pool = false;
+			m_resizing = false;
+		}
 		m_thread_pool.resize(threads);
 		for (size_t i = 0; i < threads; ++i) {
 			std::function<void()> f(worker);
@@ -70,6 +74,18 @@ public:
 		}
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief Replace the workers. Jobs may be enqueued in the meantime.
+	///////////////////////////////////////////////////////////////////////////
+	void resize_pool(size_t threads) {
+		{
+			std::lock_guard<std::mutex> lock(jobs_mutex);
+			m_resizing = true;
+		}
+		shutdown_pool();
+		init_pool(threads);
+	}
+
 	size_t worker_count() const noexcept {
 		return m_thread_pool.size();
 	}
@@ -93,6 +109,11 @@ private:
 	///////////////////////////////////////////////////////////////////////////
 	bool m_kill_job_pool;
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief True while the workers are being replaced.
+	///////////////////////////////////////////////////////////////////////////
+	bool m_resizing;
+
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief Worker thread entry point.
 	///////////////////////////////////////////////////////////////////////////
@@ -131,8 +152,7 @@ void finish_job() {
 
 void set_worker_count(memory_size_type workers) {
 	if (the_job_manager->worker_count() != workers) {
-		the_job_manager->shutdown_pool();
-		the_job_manager->init_pool(workers);
+		the_job_manager->resize_pool(workers);
 	}
 }
 
@@ -159,10 +179,9 @@ void job::enqueue(job * parent) {
 	if (m_state != job_idle)
 		throw tpie::exception("Bad job state");
 
-	m_state = job_enqueued;
-
 	std::unique_lock<std::mutex> lock(the_job_manager->jobs_mutex);
-	if (the_job_manager->m_kill_job_pool) throw job_manager_exception();
+	if (the_job_manager->m_kill_job_pool && !the_job_manager->m_resizing) throw job_manager_exception();
+	m_state = job_enqueued;
 	m_parent = parent;
 	m_dependencies = 1;
 	if (m_parent) ++m_parent->m_dependencies;
-- 
2.43.0


From 936ce001bfa0100d926d6c375d60cafa04f9cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:03 +0000
Subject: [PATCH 080/144] fix: compressed streams: closing after a failed
 truncate does not wait for ever

---
 tpie/compressed/stream_base.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 309e2c6..f16a518 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -369,6 +369,12 @@ public:
 		return m_response.get_read_offset(m_streamBlocks - 1);
 	}
 
+	bool last_block_read_offset_known() {
+		return m_streamBlocks <= 1
+			|| m_lastBlockReadOffset != std::numeric_limits<stream_size_type>::max()
+			|| m_response.has_block_info(m_streamBlocks - 1);
+	}
+
 	void finish_requests(compressor_thread_lock & l) {
 		tp_assert(!(m_buffer.get() != 0), "finish_requests called when own buffer is still held");
 		m_buffers.clean();
@@ -433,9 +439,11 @@ public:
 		// Pending writes report their block when they finish, so forget about
 		// the old blocks only now.
 		m_response.clear_block_info();
-		get_buffer(l, 0);
+		// The stream is empty even if the following fails.
+		m_bufferDirty = false;
 		m_o->m_size = 0;
 		m_streamBlocks = 0;
+		get_buffer(l, 0);
 		m_byteStreamAccessor.truncate(0);
 		update_recorded_size(l);
 	
@@ -943,6 +951,9 @@ void compressed_stream_base::close() {
 			if (error) std::rethrow_exception(error);
 			m_p->m_response.check_write_error();
 			if (m_p->use_compression()) {
+				// All requests are finished, so waiting for the offset would be in vain.
+				if (!m_p->last_block_read_offset_known())
+					throw stream_exception("The last block was not written");
 				m_p->m_byteStreamAccessor.set_last_block_read_offset(m_p->last_block_read_offset(l));
 			}
 			m_p->m_byteStreamAccessor.set_size(m_size);
-- 
2.43.0


From 8e38466180baea20fcb84f619e8d836665f3a6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 081/144] fix: progress: a moved sub-indicator keeps reporting
 to its parent

---
 tpie/progress_indicator_base.cpp         |  3 +++
 tpie/progress_indicator_subindicator.cpp | 10 +++++++---
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/tpie/progress_indicator_base.cpp b/tpie/progress_indicator_base.cpp
index 89e7845..8e37b9f 100644
--- a/tpie/progress_indicator_base.cpp
+++ b/tpie/progress_indicator_base.cpp
@@ -31,6 +31,7 @@ struct progress_indicator_base::refresh_impl {
 progress_indicator_base::progress_indicator_base(stream_size_type range)
 	: m_range(range)
 	, m_current(0)
+	, m_remainingSteps(0)
 	, m_predictor(nullptr)
 {
 	m_refreshImpl = new progress_indicator_base::refresh_impl;
@@ -39,6 +40,7 @@ progress_indicator_base::progress_indicator_base(stream_size_type range)
 progress_indicator_base::progress_indicator_base(progress_indicator_base&& o)
 	: m_range(o.m_range)
 	, m_current(o.m_current)
+	, m_remainingSteps(o.m_remainingSteps)
 	, m_predictor(o.m_predictor)
 	, m_refreshImpl(o.m_refreshImpl) {
 	o.m_predictor = nullptr;
@@ -48,6 +50,7 @@ progress_indicator_base::progress_indicator_base(progress_indicator_base&& o)
 progress_indicator_base & progress_indicator_base::operator=(progress_indicator_base&& o) {
 	std::swap(m_range, o.m_range);
 	std::swap(m_current, o.m_current);
+	std::swap(m_remainingSteps, o.m_remainingSteps);
 	std::swap(m_predictor, o.m_predictor);
 	std::swap(m_refreshImpl, o.m_refreshImpl);
 	return *this;
diff --git a/tpie/progress_indicator_subindicator.cpp b/tpie/progress_indicator_subindicator.cpp
index 560f330..2d34401 100644
--- a/tpie/progress_indicator_subindicator.cpp
+++ b/tpie/progress_indicator_subindicator.cpp
@@ -35,6 +35,10 @@ void progress_indicator_subindicator::pop_breadcrumb() {
 progress_indicator_subindicator::progress_indicator_subindicator()
 	: progress_indicator_base(0)
 	, m_parent(nullptr)
+	, m_outerRange(0)
+	, m_oldValue(0)
+	, m_importance(IMPORTANCE_MAJOR)
+	, m_logGroupMode(log_group_mode::enabled)
 #ifndef TPIE_NDEBUG
 	, m_init_called(false)
 	, m_done_called(false)
@@ -73,9 +77,9 @@ progress_indicator_subindicator::progress_indicator_subindicator(progress_indica
 #endif
 {
 #ifndef TPIE_NDEBUG
-	m_init_called = false;
+	o.m_init_called = false;
 #endif
-	m_parent = nullptr;
+	o.m_parent = nullptr;
 }
 
 progress_indicator_subindicator & progress_indicator_subindicator::operator=(progress_indicator_subindicator && o) {
@@ -88,7 +92,7 @@ progress_indicator_subindicator & progress_indicator_subindicator::operator=(pro
 	std::swap(m_logGroupMode, o.m_logGroupMode);
 #ifndef TPIE_NDEBUG
 	std::swap(m_init_called, o.m_init_called);
-	std::swap(m_done_called, m_done_called);
+	std::swap(m_done_called, o.m_done_called);
 #endif
 	return *this;
 }
-- 
2.43.0


From e1bdbea644b8532c34fed25f78ad71ed77585116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 082/144] fix: progress: many steps in a short time do not
 overflow the refresh interval

---
 tpie/progress_indicator_base.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tpie/progress_indicator_base.cpp b/tpie/progress_indicator_base.cpp
index 8e37b9f..3330265 100644
--- a/tpie/progress_indicator_base.cpp
+++ b/tpie/progress_indicator_base.cpp
@@ -19,6 +19,8 @@
 
 #include "progress_indicator_base.h"
 #include <tpie/tpie_assert.h>
+#include <algorithm>
+#include <limits>
 
 namespace tpie {
 
@@ -83,11 +85,14 @@ void progress_indicator_base::call_refresh() {
 	//    k' := t0 * f
 	//        = k / (t * m_frequency).
 	// However, we limit k' to be at most 2*k.
-	const stream_size_type k_new = static_cast<stream_size_type>(
-		m_current / (t * refresh_impl::FREQUENCY));
+	// k' itself may be too large for an integer.
+	const double k_new = static_cast<double>(m_current) / (t * refresh_impl::FREQUENCY);
 	const stream_size_type a = 1;
-	const stream_size_type b = 2 * m_current;
-	this->m_remainingSteps = std::max(a, std::min(k_new, b));
+	const stream_size_type b = 2 * std::min(m_current, std::numeric_limits<stream_size_type>::max() / 2);
+	if (k_new < static_cast<double>(b))
+		this->m_remainingSteps = std::max(a, static_cast<stream_size_type>(k_new));
+	else
+		this->m_remainingSteps = b;
 
 	this->refresh();
 }
-- 
2.43.0


From acf503b76ef9c6dfe9bbd9f7694676ab44b7ed67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 083/144] fix: progress: large ranges do not overflow the share
 of a sub-indicator

---
 tpie/progress_indicator_subindicator.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tpie/progress_indicator_subindicator.cpp b/tpie/progress_indicator_subindicator.cpp
index 2d34401..a93fa66 100644
--- a/tpie/progress_indicator_subindicator.cpp
+++ b/tpie/progress_indicator_subindicator.cpp
@@ -19,6 +19,7 @@
 
 #include "progress_indicator_subindicator.h"
 #include <tpie/backtrace.h>
+#include <limits>
 #include <sstream>
 
 namespace tpie {
@@ -136,7 +137,19 @@ void progress_indicator_subindicator::refresh() {
 	stream_size_type val = get_current();
 	if (val > get_range()) val = get_range();
 	if (get_range() == 0) return;
-	stream_size_type value= val* m_outerRange / get_range();
+	stream_size_type value;
+	if (val == get_range()) {
+		value = m_outerRange;
+	} else if (m_outerRange == 0 || val <= std::numeric_limits<stream_size_type>::max() / m_outerRange) {
+		value = val * m_outerRange / get_range();
+	} else {
+		// The product overflows.
+		double fraction = static_cast<double>(val) / static_cast<double>(get_range());
+		double v = fraction * static_cast<double>(m_outerRange);
+		value = v < static_cast<double>(m_outerRange) ? static_cast<stream_size_type>(v) : m_outerRange;
+	}
+	// Never go backwards, also not by rounding.
+	if (value < m_oldValue) value = m_oldValue;
 	if (m_parent) {
 		m_parent->raw_step(value - m_oldValue);
 		m_oldValue = value;
-- 
2.43.0


From 554e98f7e07c229e914c133b99ec7ad3402ad2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 084/144] fix: progress: a sub-indicator of no steps is
 complete when it is done

---
 tpie/progress_indicator_subindicator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tpie/progress_indicator_subindicator.cpp b/tpie/progress_indicator_subindicator.cpp
index a93fa66..e9e3be0 100644
--- a/tpie/progress_indicator_subindicator.cpp
+++ b/tpie/progress_indicator_subindicator.cpp
@@ -181,6 +181,11 @@ void progress_indicator_subindicator::done() {
 	progress_indicator_base::done();
 	m_current = m_range; 
 	refresh();
+	if (m_range == 0 && m_parent) {
+		// There was nothing to do, and now that is done.
+		m_parent->raw_step(m_outerRange - m_oldValue);
+		m_oldValue = m_outerRange;
+	}
 }
 
 } //namespace tpie
-- 
2.43.0


From 93d5dd3aeed1c2ca601e383ea8db81df8db8020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 085/144] fix: progress: empty and large ranges and long titles
 can be drawn

---
 tpie/progress_indicator_arrow.h    |  8 +++++---
 tpie/progress_indicator_terminal.h | 15 ++++++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/tpie/progress_indicator_arrow.h b/tpie/progress_indicator_arrow.h
index c74fec4..60c3db2 100644
--- a/tpie/progress_indicator_arrow.h
+++ b/tpie/progress_indicator_arrow.h
@@ -82,9 +82,11 @@ namespace tpie {
 	    //  Compute the relative length of the arrow.
 		//std::cout << "refresh " << m_description << std::endl;
 
-		memory_size_type l = m_indicatorLength - 12  - m_title.size();
+		// There is always room for the head of the arrow.
+		memory_size_type l = m_indicatorLength > 12 + m_title.size() ?
+			m_indicatorLength - 12 - m_title.size() : 1;
 		memory_size_type progress = (m_range != 0) ?
-			static_cast<memory_size_type>(l * m_current / m_range) : 0;
+			static_cast<memory_size_type>(static_cast<double>(l) * (static_cast<double>(m_current) / static_cast<double>(m_range))) : 0;
 
 		std::string newStatus;
 		{
@@ -105,7 +107,7 @@ namespace tpie {
 			status << std::string(l-progress-1, ' ');
 			status << "] ";
 
-			status << m_current * 100 / m_range << '%';
+			status << percentage() << '%';
 
 			for (std::deque<std::string>::iterator i = m_crumbs.begin(); i != m_crumbs.end(); ++i) {
 				if (i == m_crumbs.begin()) status << ' ';
diff --git a/tpie/progress_indicator_terminal.h b/tpie/progress_indicator_terminal.h
index 5b4b17d..aef3b39 100644
--- a/tpie/progress_indicator_terminal.h
+++ b/tpie/progress_indicator_terminal.h
@@ -24,6 +24,7 @@
 #ifndef _TPIE_PROGRESS_INDICATOR_TERMINAL_H
 #define _TPIE_PROGRESS_INDICATOR_TERMINAL_H
 
+#include <limits>
 #include <tpie/portability.h>
 
 #include <tpie/progress_indicator_base.h>
@@ -129,7 +130,16 @@ public:
 	
 protected:
 
-	
+	///////////////////////////////////////////////////////////////////////////
+	/// Compute the percentage. An empty range is always complete.
+	///////////////////////////////////////////////////////////////////////////
+	stream_size_type percentage() const {
+		if (m_range == 0) return 100;
+		if (m_current <= std::numeric_limits<stream_size_type>::max() / 100)
+			return m_current * 100 / m_range;
+		return static_cast<stream_size_type>(static_cast<double>(m_current) / static_cast<double>(m_range) * 100.0);
+	}
+
 	////////////////////////////////////////////////////////////////////
 	///
 	///  Compute and print the percentage or step count.
@@ -147,8 +157,7 @@ protected:
 	    //else {
 		//		std::cout << 
 	    //}
-		stream_size_type r = (m_current) * 100 / (m_range);
-		m_os << r << '%';
+		m_os << percentage() << '%';
 	}
 	
 	/**  A string holding the description of the title */
-- 
2.43.0


From 1d9a529d8e2fe39de558f47e02dacb528f8131e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:59 +0000
Subject: [PATCH 086/144] fix: pipelining: memory and files are divided until
 the limit or every maximum is reached

---
 tpie/pipelining/runtime.cpp | 163 +++++++++++++++++++-----------------
 1 file changed, 86 insertions(+), 77 deletions(-)

diff --git a/tpie/pipelining/runtime.cpp b/tpie/pipelining/runtime.cpp
index 2eee67e..dbc8db2 100644
--- a/tpie/pipelining/runtime.cpp
+++ b/tpie/pipelining/runtime.cpp
@@ -677,6 +677,53 @@ public:
 	}
 };
 
+static memory_size_type saturating_add(memory_size_type a, memory_size_type b) {
+	memory_size_type r = a + b;
+	return r < a ? std::numeric_limits<memory_size_type>::max() : r;
+}
+
+static memory_size_type clamp_usage(memory_size_type lo, memory_size_type hi, double v) {
+	// Neither lo nor hi is necessarily representable as a double.
+	if (!(v > lo)) return lo;
+	if (v >= hi) return hi;
+	return std::min(hi, std::max(lo, static_cast<memory_size_type>(v)));
+}
+
+///////////////////////////////////////////////////////////////////////////////
+/// \brief  Find the largest factor for which no more than the limit is assigned.
+///
+/// \param assigned  The amount assigned using a given factor.
+/// \param all_maximal  Whether everyone is assigned their maximum
+/// using the given factor, so that a larger factor makes no difference.
+///////////////////////////////////////////////////////////////////////////////
+template <typename Assigned, typename AllMaximal>
+double find_factor(memory_size_type limit, double fraction_sum,
+				   Assigned assigned, AllMaximal all_maximal) {
+	auto factor = [&](double c) {return limit * c / fraction_sum;};
+
+	double c_lo = 0.0;
+	double c_hi = 1.0;
+	// Exponential search
+	while (assigned(factor(c_hi)) < limit) {
+		if (all_maximal(factor(c_hi))) return factor(c_hi);
+		c_hi *= 2;
+	}
+
+	// Binary search
+	while (c_hi - c_lo > 1e-6) {
+		double c = c_lo + (c_hi-c_lo)/2;
+		if (c <= c_lo || c >= c_hi) break;
+
+		if (assigned(factor(c)) > limit) {
+			c_hi = c;
+		} else {
+			c_lo = c;
+		}
+	}
+
+	return factor(c_lo);
+}
+
 class resource_runtime {
 public:
 	resource_runtime(const std::vector<node *> & nodes, resource_type type)
@@ -688,8 +735,8 @@ public:
 	{
 		const size_t N = m_nodes.size();
 		for (size_t i = 0; i < N; ++i) {
-			m_minimumUsage += minimum_usage(i);
-			m_maximumUsage += maximum_usage(i);
+			m_minimumUsage = saturating_add(m_minimumUsage, minimum_usage(i));
+			m_maximumUsage = saturating_add(m_maximumUsage, maximum_usage(i));
 			m_fraction += fraction(i);
 		}
 	}
@@ -735,19 +782,20 @@ public:
 	memory_size_type sum_assigned_usage(double factor) const {
 		memory_size_type total = 0;
 		for (size_t i = 0; i < m_nodes.size(); ++i)
-			total += get_assigned_usage(i, factor);
+			total = saturating_add(total, get_assigned_usage(i, factor));
 		return total;
 	};
 
-	memory_size_type get_assigned_usage(size_t i, double factor) const {
-		return clamp(minimum_usage(i), maximum_usage(i), factor * fraction(i));
+	// Whether all nodes that want any are assigned their maximum.
+	bool all_maximal(double factor) const {
+		for (size_t i = 0; i < m_nodes.size(); ++i)
+			if (fraction(i) > 0 && get_assigned_usage(i, factor) < maximum_usage(i))
+				return false;
+		return true;
 	};
 
-	static memory_size_type clamp(memory_size_type lo, memory_size_type hi,
-								  double v) {
-		if (v < lo) return lo;
-		if (v > hi) return hi;
-		return static_cast<memory_size_type>(v);
+	memory_size_type get_assigned_usage(size_t i, double factor) const {
+		return clamp_usage(minimum_usage(i), maximum_usage(i), factor * fraction(i));
 	};
 
 	void print_usage(double c, std::ostream & os) {
@@ -825,6 +873,7 @@ public:
 
 	memory_size_type sum_minimum_memory(size_t phase) const; // sum the minimum memory for datastructures used in the phase
 	double sum_fraction(size_t i) const; // sum the fractions for datastructures used in phase i
+	bool all_maximal(double factor, size_t phase) const; // whether all datastructures used in the phase are assigned their maximum
 	memory_size_type sum_assigned_memory(double factor, size_t phase) const; // sum the assigned memory for datastructures used in the phase
 	void minimize_factor(double factor, size_t phase); // the factor for the datastructure in the phase is set to be no higher than the given factor
 	memory_size_type sum_assigned_memory(size_t phase) const; // sum the assigned memory for datastructures used in the phase using the factors given to the minimize_factor method
@@ -842,8 +891,6 @@ public:
 	
 	//void print_memory(double c, std::ostream & os);
 private:
-	static memory_size_type clamp(memory_size_type lo, memory_size_type hi, double v);
-
 	struct datastructure_info_t {
 		memory_size_type min;
 		memory_size_type max;
@@ -1060,7 +1107,7 @@ memory_size_type datastructure_runtime::sum_minimum_memory(size_t phase) const {
 	for(std::map<std::string, datastructure_info_t>::const_iterator i = m_datastructures.begin(); i != m_datastructures.end(); ++i) {
 		const datastructure_info_t & agg_info = i->second;
 		if(agg_info.left_most_phase <= phase && phase <= agg_info.right_most_phase)
-			r += agg_info.min;
+			r = saturating_add(r, agg_info.min);
 	}
 
 	return r;
@@ -1082,7 +1129,7 @@ memory_size_type datastructure_runtime::sum_assigned_memory(double factor, size_
 	for(std::map<std::string, datastructure_info_t>::const_iterator i = m_datastructures.begin(); i != m_datastructures.end(); ++i) {
 		const datastructure_info_t & agg_info = i->second;
 		if(agg_info.left_most_phase <= phase && phase <= agg_info.right_most_phase)
-			r += clamp(agg_info.min, agg_info.max, agg_info.priority * factor);
+			r = saturating_add(r, clamp_usage(agg_info.min, agg_info.max, agg_info.priority * factor));
 	}
 
 	return r;
@@ -1101,21 +1148,26 @@ memory_size_type datastructure_runtime::sum_assigned_memory(size_t phase) const
 	for(std::map<std::string, datastructure_info_t>::const_iterator i = m_datastructures.begin(); i != m_datastructures.end(); ++i) {
 		const datastructure_info_t & agg_info = i->second;
 		if(agg_info.left_most_phase <= phase && phase <= agg_info.right_most_phase)
-			r += clamp(agg_info.min, agg_info.max, agg_info.priority * agg_info.factor);
+			r = saturating_add(r, clamp_usage(agg_info.min, agg_info.max, agg_info.priority * agg_info.factor));
 	}
 
 	return r;
 }
 
-memory_size_type datastructure_runtime::clamp(memory_size_type lo, memory_size_type hi, double v) {
-	if(v < lo) return lo;
-	if(v > hi) return hi;
-	return static_cast<memory_size_type>(v);
+bool datastructure_runtime::all_maximal(double factor, size_t phase) const {
+	for(std::map<std::string, datastructure_info_t>::const_iterator i = m_datastructures.begin(); i != m_datastructures.end(); ++i) {
+		const datastructure_info_t & agg_info = i->second;
+		if(agg_info.left_most_phase <= phase && phase <= agg_info.right_most_phase
+		   && agg_info.priority > 0
+		   && clamp_usage(agg_info.min, agg_info.max, agg_info.priority * factor) < agg_info.max)
+			return false;
+	}
+	return true;
 }
 
 void datastructure_runtime::assign_memory() {
 	for(std::map<std::string, datastructure_info_t>::iterator i = m_datastructures.begin(); i != m_datastructures.end(); ++i) {
-		memory_size_type mem = clamp(i->second.min, i->second.max, i->second.factor * i->second.priority);
+		memory_size_type mem = clamp_usage(i->second.min, i->second.max, i->second.factor * i->second.priority);
 		m_nodeMap.get_datastructures().insert(std::make_pair(i->first, std::make_pair(mem, any_noncopyable())));
 	}
 }
@@ -1774,34 +1826,9 @@ double runtime::get_files_factor(memory_size_type files, const file_runtime & fr
 		return 0.0;
 	}
 
-	double c_lo = 0.0;
-	double c_hi = 1.0;
-	// Exponential search
-	memory_size_type oldFilesAssigned = 0;
-	while (true) {
-		double factor = files * c_hi / fraction_sum;
-		memory_size_type filesAssigned = frt.sum_assigned_usage(factor);
-		if (filesAssigned < files && filesAssigned != oldFilesAssigned)
-			c_hi *= 2;
-		else
-			break;
-		oldFilesAssigned = filesAssigned;
-	}
-
-	// Binary search
-	while (c_hi - c_lo > 1e-6) {
-		double c = c_lo + (c_hi-c_lo)/2;
-		double factor = files * c / fraction_sum;
-		memory_size_type filesAssigned = frt.sum_assigned_usage(factor);
-
-		if (filesAssigned > files) {
-			c_hi = c;
-		} else {
-			c_lo = c;
-		}
-	}
-
-	return files * c_lo / fraction_sum;
+	return find_factor(files, fraction_sum,
+		[&](double factor) {return frt.sum_assigned_usage(factor);},
+		[&](double factor) {return frt.all_maximal(factor);});
 }
 
 /*static*/
@@ -1846,7 +1873,7 @@ void runtime::reassign_memory(const std::vector<std::vector<node *> > & phases,
 
 /*static*/
 double runtime::get_memory_factor(memory_size_type memory, memory_size_type phase, const memory_runtime & mrt, const datastructure_runtime & drt, bool datastructures_locked) {
-	memory_size_type min = mrt.sum_minimum_usage() + drt.sum_minimum_memory(phase);
+	memory_size_type min = saturating_add(mrt.sum_minimum_usage(), drt.sum_minimum_memory(phase));
 	if (min > memory) {
 		log_warning() << "Not enough memory for pipelining phase ("
 					  << min << " > " << memory << ")"
@@ -1860,34 +1887,16 @@ double runtime::get_memory_factor(memory_size_type memory, memory_size_type phas
 		return 0.0;
 	}
 
-	double c_lo = 0.0;
-	double c_hi = 1.0;
-	// Exponential search
-	memory_size_type oldMemoryAssigned = 0;
-	while (true) {
-		double factor = memory * c_hi / fraction_sum;
-		memory_size_type memoryAssigned = mrt.sum_assigned_usage(factor) + (datastructures_locked ? drt.sum_assigned_memory(phase) : drt.sum_assigned_memory(factor, phase));
-		if (memoryAssigned < memory && memoryAssigned != oldMemoryAssigned)
-			c_hi *= 2;
-		else
-			break;
-		oldMemoryAssigned = memoryAssigned;
-	}
-
-	// Binary search
-	while (c_hi - c_lo > 1e-6) {
-		double c = c_lo + (c_hi-c_lo)/2;
-		double factor = memory * c / fraction_sum;
-		memory_size_type memoryAssigned = mrt.sum_assigned_usage(factor) + (datastructures_locked ? drt.sum_assigned_memory(phase) : drt.sum_assigned_memory(factor, phase));
-
-		if (memoryAssigned > memory) {
-			c_hi = c;
-		} else {
-			c_lo = c;
-		}
-	}
-
-	return memory * c_lo / fraction_sum;
+	return find_factor(memory, fraction_sum,
+		[&](double factor) {
+			return saturating_add(mrt.sum_assigned_usage(factor), datastructures_locked
+				? drt.sum_assigned_memory(phase)
+				: drt.sum_assigned_memory(factor, phase));
+		},
+		[&](double factor) {
+			return mrt.all_maximal(factor)
+				&& (datastructures_locked || drt.all_maximal(factor, phase));
+		});
 }
 
 }
-- 
2.43.0


From 48d1322381eef12382a29ec7a58e7a73caccfb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:34 +0000
Subject: [PATCH 087/144] fix: pipelining: every node can ask for the memory of
 its data structures

---
 tpie/pipelining/node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/pipelining/node.cpp b/tpie/pipelining/node.cpp
index bb43ff0..c19838f 100644
--- a/tpie/pipelining/node.cpp
+++ b/tpie/pipelining/node.cpp
@@ -322,7 +322,7 @@ void node::set_datastructure_memory_limits(const std::string & name, memory_size
 }
 
 memory_size_type node::get_datastructure_memory(const std::string & name) {
-	const bits::node_map::datastructuremap_t & structures = get_node_map()->get_datastructures();
+	const bits::node_map::datastructuremap_t & structures = get_node_map()->find_authority()->get_datastructures();
 	bits::node_map::datastructuremap_t::const_iterator i = structures.find(name);
 
 	if(i == structures.end())
-- 
2.43.0


From 39bf8fc2fe7b737f7bca0471aaf34b1bd65b8c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:34 +0000
Subject: [PATCH 088/144] fix: pipelining: a moved node keeps its forwards and
 data structures

---
 tpie/pipelining/node.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tpie/pipelining/node.cpp b/tpie/pipelining/node.cpp
index c19838f..9440649 100644
--- a/tpie/pipelining/node.cpp
+++ b/tpie/pipelining/node.cpp
@@ -80,6 +80,9 @@ node::node(node && other)
 	: token(other.token, this)
 	, m_parameters(std::move(other.m_parameters))
 	, m_buckets(std::move(other.m_buckets))
+	, m_forwardedFromHere(std::move(other.m_forwardedFromHere))
+	, m_forwardedToHere(std::move(other.m_forwardedToHere))
+	, m_datastructures(std::move(other.m_datastructures))
 	, m_stepsLeft(std::move(other.m_stepsLeft))
 	, m_pi(std::move(other.m_pi))
 	, m_state(std::move(other.m_state))
@@ -94,6 +97,9 @@ node & node::operator=(node && other) {
 	token.assign(other.token, this);
 	m_parameters = std::move(other.m_parameters);
 	m_buckets = std::move(other.m_buckets);
+	m_forwardedFromHere = std::move(other.m_forwardedFromHere);
+	m_forwardedToHere = std::move(other.m_forwardedToHere);
+	m_datastructures = std::move(other.m_datastructures);
 	m_stepsLeft = std::move(other.m_stepsLeft);
 	m_pi = std::move(other.m_pi);
 	m_state = std::move(other.m_state);
-- 
2.43.0


From 98f29987dd576e7d6d7703dba43bc4539b1a1582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:12 +0000
Subject: [PATCH 089/144] fix: pipelining: a graph with a token that has no
 node is rejected

---
 tpie/pipelining/runtime.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpie/pipelining/runtime.cpp b/tpie/pipelining/runtime.cpp
index dbc8db2..eac8c4b 100644
--- a/tpie/pipelining/runtime.cpp
+++ b/tpie/pipelining/runtime.cpp
@@ -1208,6 +1208,10 @@ gocontext_ptr runtime::go_init(stream_size_type items,
 	if (get_node_count() == 0)
 		throw tpie::exception("no nodes in pipelining graph");
 
+	for (const auto & i : m_nodeMap)
+		if (!i.second)
+			throw tpie::exception("pipelining graph has a token that belongs to no node");
+
 	// Partition nodes into phases (using union-find)
 	std::map<node *, size_t> phaseMap;
 	get_phase_map(phaseMap);
-- 
2.43.0


From ac174673a47ef48f02ac693823e26059ba294381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:12 +0000
Subject: [PATCH 090/144] fix: pipelining: two phases can share memory through
 more than one pair of nodes

---
 tpie/pipelining/runtime.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpie/pipelining/runtime.cpp b/tpie/pipelining/runtime.cpp
index eac8c4b..bba6c30 100644
--- a/tpie/pipelining/runtime.cpp
+++ b/tpie/pipelining/runtime.cpp
@@ -1548,7 +1548,9 @@ void runtime::get_phases(const std::map<node *, size_t> & phaseMap,
 
 			// Check if we already have a green edge from fromPhase or to toPhase
 			// If so one of edges can't be satisfied, but all green edges must be satisfied
-			if (greenEdges.find(fromPhase) != greenEdges.end() ||
+			auto it = greenEdges.find(fromPhase);
+			if (it != greenEdges.end() && it->second == toPhase) continue;
+			if (it != greenEdges.end() ||
 				revGreenEdges.find(toPhase) != revGreenEdges.end()) {
 				throw tpie::exception("get_phases: can't satisfy all green edges");
 			}
-- 
2.43.0


From e34c09d051ab40f5e21d52458bb531c82bfc59f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:37 +0000
Subject: [PATCH 091/144] fix: pipelining: joining node maps does not use a map
 that was freed

---
 tpie/pipelining/tokens.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpie/pipelining/tokens.cpp b/tpie/pipelining/tokens.cpp
index 129001e..a5d9ddb 100644
--- a/tpie/pipelining/tokens.cpp
+++ b/tpie/pipelining/tokens.cpp
@@ -72,9 +72,10 @@ node_map::ptr node_map::find_authority() {
 	ptr result(i);
 
 	// path compression
-	node_map * j = m_authority.get();
+	// The path may hold the only reference to its next map
+	ptr j = m_authority;
 	while (j->m_authority) {
-		node_map * k = j->m_authority.get();
+		ptr k = j->m_authority;
 		j->m_authority = result;
 		j = k;
 	}
-- 
2.43.0


From fe101b41884d59af6b5ed6f0be2b2550d20fbe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:11 +0000
Subject: [PATCH 092/144] fix: pipelining: cyclic dependencies are rejected,
 also within a phase and along shared memory

---
 tpie/pipelining/runtime.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/pipelining/runtime.cpp b/tpie/pipelining/runtime.cpp
index bba6c30..3563e27 100644
--- a/tpie/pipelining/runtime.cpp
+++ b/tpie/pipelining/runtime.cpp
@@ -1222,6 +1222,8 @@ gocontext_ptr runtime::go_init(stream_size_type items,
 	// Build phase graph
 	graph<size_t> phaseGraph;
 	get_phase_graph(phaseMap, phaseGraph);
+	if (!phaseGraph.check_acyclical())
+		throw tpie::exception("the dependencies between pipelining phases are cyclic");
 
 	// Build phases vector
 
-- 
2.43.0


From cb3d72e5c434b864e130938a9cfab25fc34e64ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:11 +0000
Subject: [PATCH 093/144] fix: pipelining: a cycle of pushes and pulls is
 rejected before anything runs

---
 tpie/pipelining/runtime.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/pipelining/runtime.cpp b/tpie/pipelining/runtime.cpp
index 3563e27..4c18243 100644
--- a/tpie/pipelining/runtime.cpp
+++ b/tpie/pipelining/runtime.cpp
@@ -1236,6 +1236,8 @@ gocontext_ptr runtime::go_init(stream_size_type items,
 	get_item_flow_graphs(phases, itemFlow);
 	std::vector<graph<node *> > actor;
 	get_actor_graphs(phases, actor);
+	for (auto & g: itemFlow) g.validate_acyclical();
+	for (auto & g: actor) g.validate_acyclical();
 
 	// Make the nodeMap forward all the forwards calls
 	// made on pipe_bases
-- 
2.43.0


From d41aa6246d350fcd35c56e4c2d2f0be46fe95788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:16 +0000
Subject: [PATCH 094/144] fix: sort: the overloads for uncompressed streams and
 for two streams with a comparator compile

---
 tpie/sort.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/tpie/sort.h b/tpie/sort.h
index bdeb6d9..326f083 100644
--- a/tpie/sort.h
+++ b/tpie/sort.h
@@ -140,7 +140,7 @@ void generic_sort(Stream & instream, Stream & outstream, Compare comp,
 template<typename T, typename Compare>
 void sort(uncompressed_stream<T> &instream, uncompressed_stream<T> &outstream,
 		  Compare comp, progress_indicator_base & indicator) {
-	bits::generic_sort<uncompressed_stream<T>, T, Compare>(instream, outstream, &comp, &indicator);
+	bits::generic_sort<uncompressed_stream<T>, T, Compare>(instream, outstream, comp, &indicator);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -150,7 +150,17 @@ template<typename T>
 void sort(uncompressed_stream<T> &instream, uncompressed_stream<T> &outstream,
 		  tpie::progress_indicator_base* indicator=NULL) {
 	std::less<T> comp;
-	sort(instream, outstream, comp, indicator);
+	bits::generic_sort<uncompressed_stream<T>, T>(instream, outstream, comp, indicator);
+}
+
+///////////////////////////////////////////////////////////////////////////////
+/// \brief Sort elements of a stream using the given STL-style comparator
+/// object.
+///////////////////////////////////////////////////////////////////////////////
+template<typename T, typename Compare>
+void sort(file_stream<T> &instream, file_stream<T> &outstream,
+		  Compare comp, progress_indicator_base & indicator) {
+	bits::generic_sort<file_stream<T>, T, Compare>(instream, outstream, comp, &indicator);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -178,7 +188,7 @@ void sort(file_stream<T> &instream, file_stream<T> &outstream,
 template<typename T, typename Compare>
 void sort(uncompressed_stream<T> &instream, Compare comp,
 		  progress_indicator_base & indicator) {
-	sort(instream, instream, comp, &indicator);
+	bits::generic_sort<uncompressed_stream<T>, T>(instream, comp, &indicator);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -197,7 +207,8 @@ void sort(file_stream<T> &instream, Compare comp,
 template<typename T>
 void sort(uncompressed_stream<T> &instream, 
 		  progress_indicator_base &indicator) {
-	sort(instream, instream, &indicator);
+	std::less<T> comp;
+	sort(instream, comp, indicator);
 }
 
 template<typename T>
-- 
2.43.0


From a4748135629b2e9ef66d2168f8940fbd5a4111be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:18 +0000
Subject: [PATCH 095/144] fix: sort_manager: what the output stream contained
 before does not remain in the output

---
 tpie/sort_manager.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpie/sort_manager.h b/tpie/sort_manager.h
index d86b488..873d4e2 100644
--- a/tpie/sort_manager.h
+++ b/tpie/sort_manager.h
@@ -190,11 +190,13 @@ void sort_manager<T,I,M>::sort(file_stream<T>* in, file_stream<T>* out,
 		throw exception("NULL_POINTER");
 	}
 
+	// The output replaces whatever the output stream contains
+	if (in != out) out->truncate(0);
+
 	if (inStream->size() < 2) {
 		if (m_indicator) {m_indicator->init(1); m_indicator->step(); m_indicator->done();}
 		in->seek(0);
 		if (in != out) {
-			out->seek(0);
 			if (in->size() == 1)
 				out->write(in->read());
 		}
-- 
2.43.0


From a796f491bd3e788adcbeb9498f320ebc5dcf4deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:31 +0000
Subject: [PATCH 096/144] fix: merge sorter: elements kept behind pointers are
 freed with the sorter

---
 tpie/pipelining/store.h | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/tpie/pipelining/store.h b/tpie/pipelining/store.h
index d4d7a37..ae8eb8c 100644
--- a/tpie/pipelining/store.h
+++ b/tpie/pipelining/store.h
@@ -103,20 +103,17 @@ struct explicit_tpie_pointer_store {
 	template <typename element_t>
 	struct specific {
 		typedef element_t element_type;
-		typedef element_t * store_type;
+		// Owns the element, so that elements left in the sorter are deleted.
+		typedef tpie::unique_ptr<element_t> store_type;
 		typedef element_t * outer_type;
 
 		static const size_t item_size = sizeof(element_t) + sizeof(store_type);
 
-		element_type store_to_element(const store_type e) {
-			element_type ans=*e;
-			tpie_delete(e);
-			return ans;
-		}
-		store_type element_to_store(const element_type & e) {return tpie_new<element_type>(e);}
-		static const element_type & store_as_element(const store_type e) {return *e;}
-		store_type outer_to_store(const outer_type & e) {return e;}
-		outer_type store_to_outer(const store_type & e) {return e;}
+		element_type store_to_element(store_type e) {return *e;}
+		store_type element_to_store(const element_type & e) {return store_type(tpie_new<element_type>(e));}
+		static const element_type & store_as_element(const store_type & e) {return *e;}
+		store_type outer_to_store(const outer_type & e) {return store_type(e);}
+		outer_type store_to_outer(store_type e) {return e.release();}
 	};
 
 	template <typename element_t>
@@ -172,24 +169,17 @@ struct pointer_store {
 	template <typename element_t>
 	struct specific {
 		typedef element_t element_type;
-		typedef element_t * store_type;
+		// Owns the element, so that elements left in the sorter are deleted.
+		typedef tpie::unique_ptr<element_t> store_type;
 		typedef element_t outer_type;
 
 		static const size_t item_size = sizeof(element_t) + sizeof(store_type);
 
-		element_type store_to_element(const store_type e) {
-			element_type ans=*e;
-			tpie_delete(e);
-			return ans;
-		}
-		store_type element_to_store(const element_type & e) {return tpie_new<element_type>(e);}
-		static const element_type & store_as_element(const store_type e) {return *e;}
-		store_type outer_to_store(const outer_type & e) {return tpie_new<element_type>(e);}
-		outer_type store_to_outer(const store_type & e) {
-			outer_type ans=*e;
-			tpie_delete(e);
-			return ans;
-		}
+		element_type store_to_element(store_type e) {return *e;}
+		store_type element_to_store(const element_type & e) {return store_type(tpie_new<element_type>(e));}
+		static const element_type & store_as_element(const store_type & e) {return *e;}
+		store_type outer_to_store(const outer_type & e) {return store_type(tpie_new<element_type>(e));}
+		outer_type store_to_outer(store_type e) {return *e;}
 	};
 
 	template <typename element_t>
-- 
2.43.0


From a2873234d696e304b4c9981c6ff1d7f8fefdf1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 097/144] fix: file_stream: a stream that cannot be closed
 during unwinding does not end the process

---
 tpie/compressed/stream_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index f16a518..9ee04bd 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -836,7 +836,8 @@ compressed_stream_base::~compressed_stream_base() {
 		close();
 	} catch (std::exception & e) {
 		log_error() << "Someone threw an error in file_stream::~file_stream: " << e.what() << std::endl;
-		abort();
+		// During unwinding, the exception that caused it is already on its way.
+		if (!std::uncaught_exceptions()) abort();
 	}
 	delete m_p;
 	// non-trivial field destructors:
-- 
2.43.0


From 25d69b582277e23f5211c17d132e8af269e88594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:38 +0000
Subject: [PATCH 098/144] fix: merge sorter: a run that cannot be written is
 reported instead of ending the process

---
 tpie/pipelining/merge_sorter.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tpie/pipelining/merge_sorter.h b/tpie/pipelining/merge_sorter.h
index ab7a297..0fc7193 100644
--- a/tpie/pipelining/merge_sorter.h
+++ b/tpie/pipelining/merge_sorter.h
@@ -574,6 +574,8 @@ private:
 		open_run_file_write(fs, 0, m_finishedRuns);
 		for (memory_size_type i = 0; i < m_currentRunItemCount; ++i)
 			fs.write(m_store.store_to_element(std::move(m_currentRunItems[i])));
+		// Closing may fail, which the destructor cannot report.
+		fs.close();
 		m_currentRunItemCount = 0;
 		++m_finishedRuns;
 	}
@@ -662,6 +664,8 @@ private:
 			pi.step();
 			out.write(m_store.store_to_element(m_merger.pull()));
 		}
+		// Closing may fail, which the destructor cannot report.
+		out.close();
 		return nextRunNumber;
 	}
 
-- 
2.43.0


From 6bf130835de47eeddbc3138db6bdee82d8f16bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:50 +0000
Subject: [PATCH 099/144] fix: sort_manager: an output stream of runs is freed,
 and reported, when it cannot be written

---
 tpie/sort_manager.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tpie/sort_manager.h b/tpie/sort_manager.h
index 873d4e2..8646b88 100644
--- a/tpie/sort_manager.h
+++ b/tpie/sort_manager.h
@@ -118,9 +118,6 @@ private:
 	TPIE_OS_OFFSET nRuns; //The number of sorted runs left to merge
 	arity_t mrgArity; //Max runs we can merge at one time
 	    
-	// The output stream to which we are currently writing runs
-	file_stream<T>* curOutputRunStream;
-	    
 	// The mininum number of runs in each output stream
 	// some streams can have one additional run
 	TPIE_OS_OFFSET minRunsPerStream; 
@@ -161,7 +158,6 @@ sort_manager<T, I, M>::sort_manager(I* isort, M* mheap):
 	nItemsPerRun(0),
 	nRuns(0),
 	mrgArity(0),
-	curOutputRunStream(NULL),
 	minRunsPerStream(0),
 	nXtraRuns(0),
 	nItemsInLastRun(0),
@@ -572,7 +568,7 @@ void sort_manager<T,I,M>::partition_and_sort_runs(progress_indicator_base* indic
 	for(arity_t ii=0; ii<mrgArity; ii++){   //For each output stream
 		// Dynamically allocate the stream
 		// We account for these mmBytesPerStream in phase 2 (output stream)
-		curOutputRunStream = tpie_new<file_stream<T> >();
+		tpie::unique_ptr<file_stream<T> > curOutputRunStream(tpie_new<file_stream<T> >());
 		curOutputRunStream->open(temporaries[ii], access_write);
 
 		// How many runs should this stream get?
@@ -587,7 +583,7 @@ void sort_manager<T,I,M>::partition_and_sort_runs(progress_indicator_base* indic
 		    }
 
 			progress_indicator_subindicator sort_indicator(indicator, 1000);
-			m_internalSorter->sort(inStream, curOutputRunStream, 
+			m_internalSorter->sort(inStream, curOutputRunStream.get(), 
 								   nItemsInThisRun, &sort_indicator);
 		} // For each run in this stream
 		
@@ -596,7 +592,8 @@ void sort_manager<T,I,M>::partition_and_sort_runs(progress_indicator_base* indic
 						 << curOutputRunStream->size() << " items to file " 
 						 << static_cast<TPIE_OS_OUTPUT_SIZE_T>(ii));
 		check_size+=curOutputRunStream->size();
-		tpie_delete(curOutputRunStream);
+		// Closing may fail, which the destructor cannot report.
+		curOutputRunStream->close();
 
 	}//For each output stream
 	tp_assert(check_size == nInputItems, "item count mismatch");
@@ -754,6 +751,8 @@ void sort_manager<T,I,M>::merge_to_output(progress_indicator_base* indicator, tp
 						 << curOutputRunStream.size() << " items " 
 						 << "to file " << static_cast<TPIE_OS_OUTPUT_SIZE_T>(ii) << "\n");
 		    check_size+=curOutputRunStream.size();
+		    // Closing may fail, which the destructor cannot report.
+		    curOutputRunStream.close();
 		} // For each new output stream
 
 		tp_assert(check_size==nInputItems, "item count mismatch in merge");
-- 
2.43.0


From 141ea5581a70de30fbd5cff166a7e1aa1b81d1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:01 +0000
Subject: [PATCH 100/144] fix: merge sorter: the minimum memory of run
 formation is what it uses

---
 tpie/pipelining/merge_sorter.cpp |  2 +-
 tpie/pipelining/merge_sorter.h   | 31 ++++++++++++++++++++++---------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/tpie/pipelining/merge_sorter.cpp b/tpie/pipelining/merge_sorter.cpp
index ca03219..a98cd7c 100644
--- a/tpie/pipelining/merge_sorter.cpp
+++ b/tpie/pipelining/merge_sorter.cpp
@@ -326,7 +326,7 @@ void merge_sorter_base::calculate_parameters() {
 	memory_size_type tempFileMemory = 2*p.fanout*sizeof(temp_file);
 	
 	log_pipe_debug() << "Phase 1: " << p.memoryPhase1 << " b available memory; " << streamMemory << " b for a single stream; " << tempFileMemory << " b for temp_files\n";
-	memory_size_type min_m1 = std::max<memory_size_type>(128*1024UL, 16*m_item_size) + bits::run_positions::memory_usage() + streamMemory + tempFileMemory;
+	memory_size_type min_m1 = minimum_run_memory() + bits::run_positions::memory_usage() + streamMemory + tempFileMemory;
 	if (p.memoryPhase1 < min_m1) {
 		log_warning() << "Not enough phase 1 memory for 128 KB items and an open stream! (" << p.memoryPhase1 << " < " << min_m1 << ")\n";
 		p.memoryPhase1 = min_m1;
diff --git a/tpie/pipelining/merge_sorter.h b/tpie/pipelining/merge_sorter.h
index 0fc7193..62ce212 100644
--- a/tpie/pipelining/merge_sorter.h
+++ b/tpie/pipelining/merge_sorter.h
@@ -265,17 +265,22 @@ public:
 
 	
 	memory_size_type minimum_memory_phase_1() noexcept {
-		// Our *absolute minimum* memory requirements are a single item and
-		// twice as many temp_files as the fanout.
+		// Our minimum memory requirements are the shortest runs that
+		// calculate_parameters will form and twice as many temp_files as the fanout.
 		// However, our fanout calculation does not take the memory available
 		// in this phase (run formation) into account.
-		// Thus, we assume the largest fanout, meaning we might overshoot.
-		// If we do overshoot, we will just spend the extra bytes on a run length
-		// longer than 1, which is probably what the user wants anyway.
-		sort_parameters tmp_p((sort_parameters()));
-		tmp_p.runLength = 1;
-		tmp_p.fanout = calculate_fanout(std::numeric_limits<memory_size_type>::max(), 0);
-		return phase_1_memory(tmp_p);
+		// Thus, we assume the largest fanout that the files of phase 2 allow,
+		// meaning we might overshoot.
+		// If we do overshoot, we will just spend the extra bytes on a longer run
+		// length, which is probably what the user wants anyway.
+		memory_size_type files = p.filesPhase2;
+		if (!files) files = defaultFiles;
+		if (files < minimumFilesPhase2) files = minimumFilesPhase2;
+		const memory_size_type unbounded = std::numeric_limits<memory_size_type>::max();
+		return minimum_run_memory()
+			+ bits::run_positions::memory_usage()
+			+ m_element_file_stream_memory_usage
+			+ 2*calculate_fanout(unbounded, std::min<memory_size_type>(files, 1 << 20))*sizeof(temp_file);
 	}
 
 	memory_size_type minimum_memory_phase_2() noexcept {
@@ -316,6 +321,14 @@ protected:
 	/// \brief Calculate parameters from given memory amount.
 	///////////////////////////////////////////////////////////////////////////
 	void calculate_parameters();
+
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief Memory used for the items of the shortest run we form when the
+	/// parameters are calculated.
+	///////////////////////////////////////////////////////////////////////////
+	memory_size_type minimum_run_memory() const noexcept {
+		return std::max<memory_size_type>(128*1024UL, 16*m_item_size);
+	}
 	
 	// Checks if we should still be able to change parameters
 	void check_not_started() {
-- 
2.43.0


From a8fa87de76b0e16bda4b72a356c1e34cc13ec409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 101/144] fix: serialization_sorter: a sorter whose files
 cannot be written or read can be destroyed

---
 tpie/serialization_sorter.h   | 37 +++++++++++++++++++++++------------
 tpie/serialization_stream.cpp | 17 ++++++++++++++++
 tpie/serialization_stream.h   |  4 ++++
 3 files changed, 46 insertions(+), 12 deletions(-)

diff --git a/tpie/serialization_sorter.h b/tpie/serialization_sorter.h
index 62b1aa1..a88d96a 100644
--- a/tpie/serialization_sorter.h
+++ b/tpie/serialization_sorter.h
@@ -27,6 +27,8 @@
 #include <tpie/array_view.h>
 #include <tpie/tempname.h>
 #include <tpie/tpie_log.h>
+#include <map>
+
 #include <tpie/stats.h>
 #include <tpie/parallel_sort.h>
 
@@ -278,6 +280,9 @@ class file_handler {
 
 	array<serialization_reader> m_readers;
 
+	// Sizes of the run files from m_fileOffset on that have been written.
+	std::map<size_t, stream_size_type> m_runSizes;
+
 	std::string m_tempDir;
 
 	std::string run_file(size_t physicalIndex) {
@@ -302,7 +307,11 @@ public:
 	}
 
 	~file_handler() {
-		reset();
+		try {
+			reset();
+		} catch (const std::exception & e) {
+			log_error() << "Could not remove the runs of a serialization sorter: " << e.what() << std::endl;
+		}
 	}
 
 	void set_temp_dir(const std::string & tempDir) {
@@ -377,9 +386,8 @@ public:
 		if (m_readersOpen == 0) throw exception("close_readers_and_delete: no readers open");
 
 		for (size_t i = 0; i < m_readersOpen; ++i) {
-			decrease_usage(m_fileOffset + i, m_readers[i].file_size());
 			m_readers[i].close();
-			std::filesystem::remove(run_file(m_fileOffset + i));
+			remove_run(m_fileOffset + i);
 		}
 		m_fileOffset += m_readersOpen;
 		m_readersOpen = 0;
@@ -399,17 +407,12 @@ public:
 		m_readers.resize(0);
 		if (m_writerOpen) {
 			log_debug() << "reset: Close writer" << std::endl;
-			close_writer();
+			m_writer.abandon();
+			m_writerOpen = false;
 		}
 		log_debug() << "Remove " << m_fileOffset << " through " << m_nextFileOffset << std::endl;
-		for (size_t i = m_fileOffset; i < m_nextFileOffset; ++i) {
-			std::string runFile = run_file(i);
-			serialization_reader rd;
-			rd.open(runFile);
-			decrease_usage(i, rd.file_size());
-			rd.close();
-			std::filesystem::remove(runFile);
-		}
+		for (size_t i = m_fileOffset; i < m_nextFileOffset; ++i)
+			remove_run(i);
 		m_fileOffset = m_nextLevelFileOffset = m_nextFileOffset = 0;
 	}
 
@@ -417,6 +420,16 @@ private:
 	void increase_usage(size_t idx, stream_size_type sz) {
 		log_debug() << "+ " << idx << ' ' << sz << std::endl;
 		increment_temp_file_usage(static_cast<stream_offset_type>(sz));
+		m_runSizes[idx] = sz;
+	}
+
+	// A run that could not be written may have no file, and has no size.
+	void remove_run(size_t idx) {
+		std::filesystem::remove(run_file(idx));
+		auto i = m_runSizes.find(idx);
+		if (i == m_runSizes.end()) return;
+		decrease_usage(idx, i->second);
+		m_runSizes.erase(i);
 	}
 
 	void decrease_usage(size_t idx, stream_size_type sz) {
diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 390cb50..94bb67f 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -221,6 +221,17 @@ void serialization_writer_base::close(bool reverse) {
 	m_fileAccessor.close_i();
 }
 
+void serialization_writer_base::abandon() noexcept {
+	if (!m_open) return;
+	m_open = false;
+	m_tempFile = 0;
+	try {
+		m_fileAccessor.close_i();
+	} catch (const std::exception &) {
+		// Nobody relies on what the file holds.
+	}
+}
+
 stream_size_type serialization_writer_base::file_size() {
 	return serialization_header::header_size() + m_size;
 }
@@ -262,6 +273,12 @@ void serialization_writer::close() {
 	p_t::close(false);
 }
 
+void serialization_writer::abandon() noexcept {
+	m_block.resize(0);
+	m_index = 0;
+	p_t::abandon();
+}
+
 serialization_reverse_writer::serialization_reverse_writer()
 	: m_index(0)
 {
diff --git a/tpie/serialization_stream.h b/tpie/serialization_stream.h
index 3f2ec32..1134a89 100644
--- a/tpie/serialization_stream.h
+++ b/tpie/serialization_stream.h
@@ -73,6 +73,8 @@ protected:
 
 	void close(bool reverse);
 
+	void abandon() noexcept;
+
 public:
 	static memory_size_type memory_usage() { return block_size(); }
 
@@ -91,6 +93,8 @@ private:
 	void write_block();
 
 public:
+	/** \brief Close the file without writing the data still in memory. */
+	void abandon() noexcept;
 
 	class serializer {
 		serialization_writer & wr;
-- 
2.43.0


From 18a564fa56d7480c4e37da6238e362743ac47f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 102/144] fix: serialization_sorter: the directory of the runs
 is removed with them

---
 tpie/serialization_sorter.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/serialization_sorter.h b/tpie/serialization_sorter.h
index a88d96a..bdae3ea 100644
--- a/tpie/serialization_sorter.h
+++ b/tpie/serialization_sorter.h
@@ -413,6 +413,8 @@ public:
 		log_debug() << "Remove " << m_fileOffset << " through " << m_nextFileOffset << std::endl;
 		for (size_t i = m_fileOffset; i < m_nextFileOffset; ++i)
 			remove_run(i);
+		std::error_code ignored;
+		std::filesystem::remove(m_tempDir, ignored);
 		m_fileOffset = m_nextLevelFileOffset = m_nextFileOffset = 0;
 	}
 
-- 
2.43.0


From d341af5424dccb7253b078b614e82ab4d7b9df72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 103/144] fix: serialization_sorter: the minimum memory
 suffices to merge items of minimum size

---
 tpie/serialization_sorter.h | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/tpie/serialization_sorter.h b/tpie/serialization_sorter.h
index bdae3ea..ef1a079 100644
--- a/tpie/serialization_sorter.h
+++ b/tpie/serialization_sorter.h
@@ -651,11 +651,11 @@ public:
 
 	static memory_size_type minimum_memory_phase_2() {
 		return serialization_writer::memory_usage()
-			+ 2*serialization_reader::memory_usage();
+			+ 2*(sizeof(T) + serialization_reader::memory_usage());
 	}
 
 	static memory_size_type minimum_memory_phase_3() {
-		return 2*serialization_reader::memory_usage();
+		return 2*(sizeof(T) + serialization_reader::memory_usage());
 	}
 
 	memory_size_type actual_memory_phase_3() {
@@ -729,23 +729,12 @@ private:
 
 		memory_size_type memAvail3 = m_params.memoryPhase3;
 
-		// We have to keep a writer open no matter what.
-		if (memAvail2 <= serialization_writer::memory_usage()) {
-			log_error() << "Not enough memory for outputting. "
-				<< "mem avail = " << memAvail3
-				<< ", writer usage = " << serialization_writer::memory_usage()
-				<< std::endl;
-			throw exception("Not enough memory for outputting.");
-		}
-
-		memory_size_type memForMerge = std::min(memAvail2, memAvail3);
-
 		// We do not yet know the serialized size of the largest item,
 		// so this calculation has to be redone.
 		// Instead, we assume that all items have minimum size.
 
 		// We have to keep a writer open no matter what.
-		memory_size_type fanoutMemory = memForMerge - serialization_writer::memory_usage();
+		memory_size_type fanoutMemory = memAvail2 - serialization_writer::memory_usage();
 
 		// This is a lower bound on the memory used per fanout.
 		memory_size_type perFanout = m_params.minimumItemSize + serialization_reader::memory_usage();
@@ -754,13 +743,22 @@ private:
 		memory_size_type fanout = std::min(fanoutMemory / perFanout, m_params.filesPhase2 - 1);
 		if (fanout < 2) {
 			log_error() << "Not enough memory for merging, even when minimum item size is assumed. "
-				<< "mem avail = " << memForMerge
+				<< "mem avail = " << memAvail2
 				<< ", fanout memory = " << fanoutMemory
 				<< ", per fanout >= " << perFanout
 				<< std::endl;
 			throw exception("Not enough memory for merging.");
 		}
 
+		// No writer is open while outputting.
+		if (std::min(memAvail3 / perFanout, m_params.filesPhase3 - 1) < 2) {
+			log_error() << "Not enough memory for outputting, even when minimum item size is assumed. "
+				<< "mem avail = " << memAvail3
+				<< ", per fanout >= " << perFanout
+				<< std::endl;
+			throw exception("Not enough memory for outputting.");
+		}
+
 		m_params.tempDir = tempname::tpie_dir_name();
 		m_files.set_temp_dir(m_params.tempDir);
 
-- 
2.43.0


From 06372a5efa003110b641eb17e55da570c4a1b091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:29 +0000
Subject: [PATCH 104/144] fix: serialization_sorter: the shrunk buffer is
 counted when deciding whether to report from memory

---
 tpie/serialization_sorter.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tpie/serialization_sorter.h b/tpie/serialization_sorter.h
index ef1a079..5d13d6b 100644
--- a/tpie/serialization_sorter.h
+++ b/tpie/serialization_sorter.h
@@ -182,12 +182,21 @@ public:
 		return m_buffer_bucket->count + m_item_bucket->count;
 	}
 
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Compute the memory usage after a call to shrink_buffer().
+	///////////////////////////////////////////////////////////////////////////
+	memory_size_type shrunk_memory_usage() {
+		return array<T>::memory_usage(m_items) - array<T>::memory_usage(0)
+			+ m_item_bucket->count;
+	}
+
 	bool can_shrink_buffer() {
-		return current_serialized_size() <= get_memory_manager().available();
+		return shrunk_memory_usage() <= get_memory_manager().available();
 	}
 
 	void shrink_buffer() {
-		array<T> newBuffer(array_view<const T>(begin(), end()));
+		array<T> newBuffer(m_items, m_buffer_bucket);
+		std::copy(begin(), end(), newBuffer.get());
 		m_buffer.swap(newBuffer);
 	}
 
@@ -823,7 +832,7 @@ public:
 			log_debug() << "Got " << m_sorter.current_serialized_size()
 				<< " bytes of items. Internal reporting mode." << std::endl;
 		} else if (m_files.next_level_runs() == 0
-				   && m_sorter.current_serialized_size() <= internalThreshold
+				   && m_sorter.shrunk_memory_usage() <= internalThreshold
 				   && m_sorter.can_shrink_buffer()) {
 
 			m_sorter.sort();
-- 
2.43.0


From eb24b224fdeaf9f5886ca979b940ebe6e877379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:27 +0000
Subject: [PATCH 105/144] fix: parallel pipelining: workers do not step the
 progress indicator of the main thread

---
 tpie/pipelining/parallel/base.h | 39 +++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/tpie/pipelining/parallel/base.h b/tpie/pipelining/parallel/base.h
index cd538da..dcc95a3 100644
--- a/tpie/pipelining/parallel/base.h
+++ b/tpie/pipelining/parallel/base.h
@@ -77,6 +77,7 @@ protected:
 
 		virtual void init_node(node & r) override {
 			r.set_progress_indicator(t->m_progressIndicators.get(index));
+			t->m_nodes[index].push_back(r.get_id());
 		}
 
 		size_t index;
@@ -86,17 +87,29 @@ protected:
 
 	std::vector<before_t *> m_dests;
 
+	/** For each worker, the nodes run by it. */
+	std::vector<std::vector<node_token::id_t> > m_nodes;
+
 public:
 	before_t & operator[](size_t idx) {
 		return *m_dests[idx];
 	}
 
-	stream_size_type sum_steps() {
-		stream_size_type res = 0;
-		for (size_t i = 0; i < m_progressIndicators.size(); ++i) {
-			res += m_progressIndicators.get(i)->get_current();
-		}
-		return res;
+	/// The steps made by a worker, which must not be running.
+	stream_size_type get_steps(size_t idx) {
+		return m_progressIndicators.get(idx)->get_current();
+	}
+
+	///////////////////////////////////////////////////////////////////////////
+	/// \brief  Set the progress indicators of the nodes run in parallel.
+	///
+	/// The runtime has given all nodes of the phase the same progress
+	/// indicator, which only the main thread may use.
+	///////////////////////////////////////////////////////////////////////////
+	void set_progress_indicators(bits::node_map & nodeMap) {
+		for (size_t i = 0; i < m_nodes.size(); ++i)
+			for (node_token::id_t id : m_nodes[i])
+				nodeMap.get(id)->set_progress_indicator(m_progressIndicators.get(i));
 	}
 
 	virtual ~threads() {}
@@ -139,6 +152,7 @@ public:
 		m_data.realloc(numJobs);
 		this->m_progressIndicators.realloc(numJobs);
 		this->m_dests.resize(numJobs);
+		this->m_nodes.resize(numJobs);
 
 		// construct elements manually
 		for (size_t i = 0; i < numJobs; ++i) {
@@ -792,6 +806,8 @@ private:
 	std::shared_ptr<consumer<T2> > cons;
 	internal_queue<memory_size_type> m_outputOrder;
 	stream_size_type m_steps;
+	/** The steps made by each worker when it was last seen waiting. */
+	std::vector<stream_size_type> m_workerSteps;
 
 	///////////////////////////////////////////////////////////////////////////
 	/// \brief  Check if a worker is waiting for the main thread.
@@ -895,7 +911,14 @@ private:
 		// In effect, every time step() is called once in a single worker,
 		// we process this as if all workers called step().
 
-		stream_size_type steps = st->pipes->sum_steps();
+		// A worker that is running may be calling step() at this moment.
+
+		stream_size_type steps = 0;
+		for (size_t i = 0; i < st->opts.numJobs; ++i) {
+			if (st->get_state(i) != PROCESSING)
+				m_workerSteps[i] = st->pipes->get_steps(i);
+			steps += m_workerSteps[i];
+		}
 		if (steps != m_steps) {
 			this->get_progress_indicator()->step(st->opts.numJobs*(steps - m_steps));
 			m_steps = steps;
@@ -995,6 +1018,7 @@ public:
 		, written(0)
 		, cons(new consumer_t(std::move(cons)))
 		, m_steps(0)
+		, m_workerSteps(st->opts.numJobs)
 	{
 		for (size_t i = 0; i < st->opts.numJobs; ++i) {
 			this->add_push_destination(st->input(i));
@@ -1028,6 +1052,7 @@ public:
 
 	void begin() override {
 		inputBuffer.resize(st->opts.bufSize);
+		st->pipes->set_progress_indicators(*this->get_node_map()->find_authority());
 
 		state_base::lock_t lock(st->mutex);
 		while (st->runningWorkers != st->opts.numJobs) {
-- 
2.43.0


From dfa38963b3d42cd0be2c5d45a0f6ec93d597c126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:27 +0000
Subject: [PATCH 106/144] fix: parallel pipelining: an exception while the
 workers start does not hang or end the process

---
 tpie/pipelining/parallel/base.h | 35 ++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/tpie/pipelining/parallel/base.h b/tpie/pipelining/parallel/base.h
index dcc95a3..e4a74b7 100644
--- a/tpie/pipelining/parallel/base.h
+++ b/tpie/pipelining/parallel/base.h
@@ -604,11 +604,14 @@ protected:
 	}
 
 	~before() {
-		state_base::lock_t lock(st.mutex);
+		{
+			state_base::lock_t lock(st.mutex);
 
-		auto s = st.get_state(parId);
-		tp_assert_release(s == INITIALIZING || s == DONE, "State should be INITIALIZING or DONE in before::~before");
+			auto s = st.get_state(parId);
+			tp_assert_release(s == INITIALIZING || s == DONE, "State should be INITIALIZING or DONE in before::~before");
+		}
 
+		// The worker needs the lock to end.
 		if (m_worker.joinable())
 			m_worker.join();
 	}
@@ -679,11 +682,22 @@ private:
 	void worker() {
 		state_base::lock_t lock(st.mutex);
 
-		m_buffer.reset(new parallel_input_buffer<T>(st.opts));
-		m_inputBuffers[parId] = m_buffer.get();
+		// The pipeline may have been stopped before this thread got here.
+		if (st.get_state(parId) == DONE) return;
 
-		// virtual invocation
-		st.output(parId).worker_initialize();
+		try {
+			m_buffer.reset(new parallel_input_buffer<T>(st.opts));
+			m_inputBuffers[parId] = m_buffer.get();
+
+			// virtual invocation
+			st.output(parId).worker_initialize();
+		} catch (...) {
+			// Pass it to the main thread.
+			st.transition_state(parId, INITIALIZING, DONE);
+			st.eptr = std::current_exception();
+			st.producerCond.notify_one();
+			return;
+		}
 
 		st.transition_state(parId, INITIALIZING, IDLE);
 		running_signal _(st.runningWorkers, st.producerCond);
@@ -951,8 +965,6 @@ private:
 	/// even if no exception has been thrown from the main thread.
 	///////////////////////////////////////////////////////////////////////////
 	void stop_workers(state_base::lock_t & lock) {
-		if (st->runningWorkers == 0) return;
-
 		bool done = false;
 		while (!done) {
 			// Force maintainOrder == false to avoid deadlock in case processor p
@@ -987,7 +999,8 @@ private:
 				case DONE:
 					break;
 
-				// If we get an exception before begin() has been called
+				// If we get an exception before begin() has been called,
+				// or before the worker has started
 				case INITIALIZING:
 
 				// If the worker is idle
@@ -1055,7 +1068,7 @@ public:
 		st->pipes->set_progress_indicators(*this->get_node_map()->find_authority());
 
 		state_base::lock_t lock(st->mutex);
-		while (st->runningWorkers != st->opts.numJobs) {
+		while (!st->eptr && st->runningWorkers != st->opts.numJobs) {
 			st->producerCond.wait(lock);
 		}
 
-- 
2.43.0


From 99f90a6b706f309bc88be9adf6d03e306f11e39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:49 +0000
Subject: [PATCH 107/144] fix: internal_reverser: compiles (std::stack::pop
 returns nothing)

---
 tpie/pipelining/reverse.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tpie/pipelining/reverse.h b/tpie/pipelining/reverse.h
index bfc0023..89118a3 100644
--- a/tpie/pipelining/reverse.h
+++ b/tpie/pipelining/reverse.h
@@ -166,7 +166,8 @@ public:
 
 	void go() override {
 		while (!m_stack->empty()) {
-			dest.push(m_stack->pop());
+			dest.push(m_stack->top());
+			m_stack->pop();
 			step();
 		}
 	}
-- 
2.43.0


From 7d68783ac41ff49caf9c8d6f6d4337fca777bf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:49 +0000
Subject: [PATCH 108/144] fix: pull_tee: is a node

---
 tpie/pipelining/file_stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/pipelining/file_stream.h b/tpie/pipelining/file_stream.h
index aaaf028..c519bf5 100644
--- a/tpie/pipelining/file_stream.h
+++ b/tpie/pipelining/file_stream.h
@@ -345,7 +345,7 @@ private:
 };
 
 template <typename source_t, typename T>
-class pull_tee_t {
+class pull_tee_t: public node {
 public:
 	typedef T item_type;
 	pull_tee_t(source_t source, file_stream<item_type> & fs): fs(fs), source(std::move(source)) {
-- 
2.43.0


From 823be7d7e388d4ceeeaa6c35e70489ad56d8be42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:49 +0000
Subject: [PATCH 109/144] fix: pull_output: begin and end of the source are not
 called a second time

---
 tpie/pipelining/file_stream.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tpie/pipelining/file_stream.h b/tpie/pipelining/file_stream.h
index c519bf5..3d5798d 100644
--- a/tpie/pipelining/file_stream.h
+++ b/tpie/pipelining/file_stream.h
@@ -315,11 +315,9 @@ public:
 	}
 
 	void go() override {
-		source.begin();
 		while (source.can_pull()) {
 			fs.write(source.pull());
 		}
-		source.end();
 	}
 	
 private:
-- 
2.43.0


From 1b310887ef922fe2458410f22cfb56d254634874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:49 +0000
Subject: [PATCH 110/144] fix: range: forward the number of items it pushes

---
 tpie/pipelining/numeric.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tpie/pipelining/numeric.h b/tpie/pipelining/numeric.h
index 8459fa1..d3dbdd8 100644
--- a/tpie/pipelining/numeric.h
+++ b/tpie/pipelining/numeric.h
@@ -53,7 +53,11 @@ public:
 	range_t(dest_t dest, item_type from, item_type to, item_type increment) : from(from), to(to), increment(increment), dest(std::move(dest)) {}
 
 	void propagate() {
-		stream_size_type items = (from - to) / increment;
+		stream_size_type items = 0;
+		if (from < to) {
+			items = static_cast<stream_size_type>((to - from) / increment);
+			if (from + static_cast<item_type>(items) * increment < to) ++items;
+		}
 		set_steps(items);
 		forward("items", items);
 	}
-- 
2.43.0


From 13be17e58a0195c82373839f74da45e87aae159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:49 +0000
Subject: [PATCH 111/144] fix: pull pipes: middles can be combined with middles
 and ends

---
 tpie/pipelining/pair_factory.h | 2 +-
 tpie/pipelining/pipe_base.h    | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tpie/pipelining/pair_factory.h b/tpie/pipelining/pair_factory.h
index 5909455..52133be 100644
--- a/tpie/pipelining/pair_factory.h
+++ b/tpie/pipelining/pair_factory.h
@@ -125,7 +125,7 @@ public:
 	/// \brief
 	///////////////////////////////////////////////////////////////////////////
 	void set_destination_kind_pull() {
-		self().fact1.set_destination_kind_pull();
+		self().fact2.set_destination_kind_pull();
 	}
 
 private:
diff --git a/tpie/pipelining/pipe_base.h b/tpie/pipelining/pipe_base.h
index b7c1490..6b9c6ef 100644
--- a/tpie/pipelining/pipe_base.h
+++ b/tpie/pipelining/pipe_base.h
@@ -421,18 +421,18 @@ public:
 
 	template <typename fact2_t>
 	pullpipe_middle<bits::pair_factory<fact2_t, fact_t> >
-	operator|(pipe_middle<fact2_t> && r) {
+	operator|(pullpipe_middle<fact2_t> && r) {
 		fact2_t f = std::move(r.factory);
 		f.set_destination_kind_pull();
 		return bits::pair_factory<fact2_t, fact_t>(std::move(f), std::move(factory));
 	}
 
 	template <typename fact2_t>
-	pullpipe_end<bits::termpair_factory<fact2_t, fact_t> >
-	operator|(pipe_end<fact2_t> && r) {
+	pullpipe_end<bits::pair_factory<fact2_t, fact_t> >
+	operator|(pullpipe_end<fact2_t> && r) {
 		fact2_t f = std::move(r.factory);
 		f.set_destination_kind_pull();
-		return bits::termpair_factory<fact2_t, fact_t>(std::move(f), std::move(factory));
+		return bits::pair_factory<fact2_t, fact_t>(std::move(f), std::move(factory));
 	}
 
 	fact_t factory;
-- 
2.43.0


From 9f9b7c0dff2ad95a157204d0120e24ab61c2b2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:49 +0000
Subject: [PATCH 112/144] fix: virtual pull chunks: input and output types may
 differ, and their first stage pulls

---
 tpie/pipelining/virtual.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/pipelining/virtual.h b/tpie/pipelining/virtual.h
index 90d84a1..be865f4 100644
--- a/tpie/pipelining/virtual.h
+++ b/tpie/pipelining/virtual.h
@@ -844,7 +844,7 @@ public:
 		input_type temp(m_input);
 		this->m_nodeMap = temp.get_node_map();
 		fact_t f = std::move(pipe.factory);
-		f.set_destination_kind_push();
+		f.set_destination_kind_pull();
 		m_output = new bits::virtpullsrc_impl<constructed_type, Output>(f.construct(std::move(temp)));
 		this->m_node = bits::virt_node::take_own(m_output);
 		return *this;
@@ -1254,7 +1254,7 @@ public:
 	explicit devirtualization_pull_factory(virtual_chunk_pull<Input, Output> chunk) : chunk(chunk) {}
 
 	template <typename src_t>
-	bits::devirtualize_pull_begin_node<Input> construct(src_t && src) {
+	bits::devirtualize_pull_begin_node<Output> construct(src_t && src) {
 		auto srcnode = std::make_unique<bits::devirtualize_pull_end_node<src_t, Input>>(std::move(src), chunk);
 		this->init_sub_node(*srcnode);
 		bits::devirtualize_pull_begin_node<Output> r(chunk, std::move(srcnode));
-- 
2.43.0


From 5284080f67fbfda70abf08e23961d4796e2601cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:01 +0000
Subject: [PATCH 113/144] fix: input: a stream that is not open forwards a
 number of items of the right type

---
 tpie/pipelining/file_stream.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tpie/pipelining/file_stream.h b/tpie/pipelining/file_stream.h
index 3d5798d..93c2b14 100644
--- a/tpie/pipelining/file_stream.h
+++ b/tpie/pipelining/file_stream.h
@@ -57,13 +57,12 @@ public:
 	}
 
 	void propagate() override {
-		if (options & STREAM_RESET) fs.seek(0);
-		
 		if (fs.is_open()) {
+			if (options & STREAM_RESET) fs.seek(0);
 			forward("items", fs.size() - fs.offset());
 			set_steps(fs.size() - fs.offset());
 		} else {
-			forward("items", 0);
+			forward("items", stream_size_type(0));
 		}
 	}
 
-- 
2.43.0


From 498be53c9b72362f8a61e63cab26aa0e4a5d2d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:52 +0000
Subject: [PATCH 114/144] fix: internal reversers and buffers: the items are
 freed when the pipeline ends before the consumer does

---
 tpie/pipelining/internal_buffer.h | 13 ++++++++-----
 tpie/pipelining/reverse.h         | 21 ++++++++++++++-------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/tpie/pipelining/internal_buffer.h b/tpie/pipelining/internal_buffer.h
index e07efec..8ef6fa5 100644
--- a/tpie/pipelining/internal_buffer.h
+++ b/tpie/pipelining/internal_buffer.h
@@ -34,6 +34,7 @@ namespace bits {
 
 template <typename T>
 class internal_buffer_pull_output_t: public node {
+	tpie::unique_ptr<internal_queue<T> > * m_queue_ptr;
 	internal_queue<T> * m_queue;
 public:
 	typedef T item_type;
@@ -45,7 +46,8 @@ public:
 	}
 
 	void propagate() override {
-		m_queue = fetch<internal_queue<T> *>("queue");
+		m_queue_ptr = fetch<tpie::unique_ptr<internal_queue<T> > *>("queue");
+		m_queue = m_queue_ptr->get();
 	}
 
 	bool can_pull() const {
@@ -59,7 +61,7 @@ public:
 	}
 
 	void end() override {
-		tpie_delete(m_queue);
+		m_queue_ptr->reset();
 		m_queue=NULL;
 	}
 };
@@ -77,8 +79,8 @@ public:
 	}
 
 	void propagate() override {
-		m_queue = tpie::tpie_new<internal_queue<item_type> >(size);
-		forward("queue", m_queue, 1);
+		m_queue.reset(tpie::tpie_new<internal_queue<item_type> >(size));
+		forward("queue", &m_queue, 1);
 	}
 
 	void push(const T & item) {
@@ -87,7 +89,8 @@ public:
 	}
 
 private:
-	internal_queue<item_type> * m_queue;
+	// Owned here, so that it is freed even if the consumer is never ended.
+	tpie::unique_ptr<internal_queue<item_type> > m_queue;
 	size_t size;
 };
 
diff --git a/tpie/pipelining/reverse.h b/tpie/pipelining/reverse.h
index 89118a3..5476764 100644
--- a/tpie/pipelining/reverse.h
+++ b/tpie/pipelining/reverse.h
@@ -83,8 +83,8 @@ public:
 	}
 
 	void propagate() override {
-		m_stack = tpie_new<std::stack<item_type> >();
-		forward("stack", m_stack, 1);
+		m_stack.reset(tpie_new<std::stack<item_type> >());
+		forward("stack", &m_stack, 1);
 	}
 
 	///////////////////////////////////////////////////////////////////////////////
@@ -94,7 +94,8 @@ public:
 		m_stack->push(t);
 	}
 private:
-	std::stack<item_type> * m_stack;
+	// Owned here, so that it is freed even if the output is never ended.
+	tpie::unique_ptr<std::stack<item_type> > m_stack;
 	std::shared_ptr<node> m_output;
 };
 
@@ -159,7 +160,8 @@ public:
 	}
 
 	void propagate() override {
-		m_stack = fetch<std::stack<item_type> *>("stack");
+		m_stack_ptr = fetch<tpie::unique_ptr<std::stack<item_type> > *>("stack");
+		m_stack = m_stack_ptr->get();
 		forward("items", m_stack->size());
 		set_steps(m_stack->size());
 	}
@@ -173,10 +175,12 @@ public:
 	}
 
 	void end() override {
-		tpie_delete(m_stack);
+		m_stack_ptr->reset();
+		m_stack = nullptr;
 	}
 private:
 	dest_t dest;
+	tpie::unique_ptr<std::stack<item_type> > * m_stack_ptr;
 	std::stack<item_type> * m_stack;
 };
 
@@ -239,7 +243,8 @@ public:
 	}
 
 	void propagate() override {
-		m_stack = fetch<std::stack<item_type> *>("stack");
+		m_stack_ptr = fetch<tpie::unique_ptr<std::stack<item_type> > *>("stack");
+		m_stack = m_stack_ptr->get();
 		forward("items", m_stack->size());
 	}
 
@@ -260,9 +265,11 @@ public:
 	}
 
 	void end() override {
-		tpie_delete(m_stack);
+		m_stack_ptr->reset();
+		m_stack = nullptr;
 	}
 private:
+	tpie::unique_ptr<std::stack<item_type> > * m_stack_ptr;
 	std::stack<item_type> * m_stack;
 };
 
-- 
2.43.0


From ed57256ccf832db2f7928e8ace48596702d8137e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:35 +0000
Subject: [PATCH 115/144] fix: virtual chunks: an empty chunk that cannot be
 connected or devirtualized is refused

---
 tpie/pipelining/virtual.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tpie/pipelining/virtual.h b/tpie/pipelining/virtual.h
index be865f4..01ca712 100644
--- a/tpie/pipelining/virtual.h
+++ b/tpie/pipelining/virtual.h
@@ -591,6 +591,7 @@ public:
 			return *bits::assert_types_equal_and_return<Input, Output, virtual_chunk_end<Input> *>
 				::go(&dest);
 		}
+		if (dest.empty()) throw virtual_chunk_missing_end();
 		m_output->set_destination(acc::get_input(dest));
 		return acc::construct<virtual_chunk_end<Input>>(*this, dest);
 	}
@@ -875,6 +876,7 @@ public:
 			return *bits::assert_types_equal_and_return<Input, Output, virtual_chunk_pull_end<Input> *>
 				::go(&dest);
 		}
+		if (dest.empty()) throw virtual_chunk_missing_end();
 		acc::get_input(dest)->set_source(get_output());
 		return acc::construct<virtual_chunk_pull_end<Input>>(*this, dest);
 	}
@@ -1282,6 +1284,7 @@ pipe_end<termfactory<bits::devirtualize_end_node<Input>, virtual_chunk_end<Input
  */
 template <typename Output>
 pipe_begin<tfactory<bits::devirtualize_begin_node, Args<Output>, virtual_chunk_begin<Output>>> devirtualize(const virtual_chunk_begin<Output> & in) {
+	if (in.empty()) throw virtual_chunk_missing_begin();
 	return {in};
 }
 
@@ -1290,6 +1293,7 @@ pipe_begin<tfactory<bits::devirtualize_begin_node, Args<Output>, virtual_chunk_b
  */
 template <typename Input, typename Output>
 pipe_middle<bits::devirtualization_factory<Input, Output>> devirtualize(const virtual_chunk<Input, Output> & mid) {
+	if (mid.empty()) throw virtual_chunk_missing_middle();
 	return {mid};
 }
 
@@ -1298,6 +1302,7 @@ pipe_middle<bits::devirtualization_factory<Input, Output>> devirtualize(const vi
  */
 template <typename Input>
 pullpipe_begin<termfactory<bits::devirtualize_pull_begin_node<Input>, virtual_chunk_pull_begin<Input>>> devirtualize(const virtual_chunk_pull_begin<Input> & out) {
+	if (out.empty()) throw virtual_chunk_missing_begin();
 	return {out};
 }
 
@@ -1306,6 +1311,7 @@ pullpipe_begin<termfactory<bits::devirtualize_pull_begin_node<Input>, virtual_ch
  */
 template <typename Input>
 pullpipe_end<tfactory<bits::devirtualize_pull_end_node, Args<Input>, virtual_chunk_pull_end<Input>>> devirtualize(const virtual_chunk_pull_end<Input> & in) {
+	if (in.empty()) throw virtual_chunk_missing_end();
 	return {in};
 }
 
@@ -1314,6 +1320,7 @@ pullpipe_end<tfactory<bits::devirtualize_pull_end_node, Args<Input>, virtual_chu
  */
 template <typename Input, typename Output>
 pullpipe_middle<bits::devirtualization_pull_factory<Input, Output>> devirtualize(const virtual_chunk_pull<Input, Output> & mid) {
+	if (mid.empty()) throw virtual_chunk_missing_middle();
 	return {mid};
 }
 	
-- 
2.43.0


From b8f37728834feed3f4359fb6ea39539d9f515d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:14 +0000
Subject: [PATCH 116/144] fix: buffers and reversers: the node gets what its
 pipe was given (memory, forwards)

---
 tpie/pipelining/factory_helpers.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tpie/pipelining/factory_helpers.h b/tpie/pipelining/factory_helpers.h
index 50c869d..7dc69f1 100644
--- a/tpie/pipelining/factory_helpers.h
+++ b/tpie/pipelining/factory_helpers.h
@@ -169,15 +169,18 @@ public:
 	using constructed_type = I<typename push_type<dest_t>::type>;
 
 	template <typename dest_t>
-	constructed_type<dest_t> construct(dest_t && dest) const {
+	constructed_type<dest_t> construct(dest_t && dest) {
 		node_token input_token;
 		typedef typename push_type<dest_t>::type item_type;
 		std::shared_ptr<OB> o = std::make_shared<O<dest_t> >(std::forward<dest_t>(dest), input_token);
-		return I<item_type>(input_token, std::move(o));
+		this->init_sub_node(*o);
+		I<item_type> i(input_token, std::move(o));
+		this->init_sub_node(i);
+		return i;
 	};
 
 	template <typename dest_t>
-	constructed_type<dest_t> construct_copy(dest_t && dest) const {
+	constructed_type<dest_t> construct_copy(dest_t && dest) {
 		return construct(std::forward<dest_t>(dest));
 	};
 };
-- 
2.43.0


From ccd67f3fffa6f674aa1f3a25ca8532fcaef9e230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:14 +0000
Subject: [PATCH 117/144] fix: a pipe of several nodes forwards the values it
 was given only once

---
 tpie/pipelining/factory_base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tpie/pipelining/factory_base.cpp b/tpie/pipelining/factory_base.cpp
index cf38d50..2dc710e 100644
--- a/tpie/pipelining/factory_base.cpp
+++ b/tpie/pipelining/factory_base.cpp
@@ -143,6 +143,9 @@ void factory_base::init_common(node & r) {
 	for (auto &p : m_forwards) {
 		nodeMap->forward_from_pipe_base(r.get_id(), p.first, std::move(p.second));
 	}
+	// The values are forwarded once, from the first node that was constructed
+	// (the last one in the pipeline); the others would forward moved-from values.
+	m_forwards.clear();
 }
 
 }
-- 
2.43.0


From aa432001c170802f6d01a4719bd577931dcffba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:36 +0000
Subject: [PATCH 118/144] fix: file_stream: destroying a temporary stream, or
 one only read from, does not abort when closing it fails

---
 tpie/compressed/stream_base.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index 9ee04bd..e9b444f 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -832,12 +832,15 @@ compressed_stream_base::compressed_stream_base(memory_size_type itemSize,
 }
 
 compressed_stream_base::~compressed_stream_base() {
+	// Nothing is lost with a temporary file that goes away with us,
+	// or when we have only been reading.
+	const bool replaceable = m_p->m_ownedTempFile.get() != nullptr || !m_p->m_canWrite;
 	try {
 		close();
 	} catch (std::exception & e) {
 		log_error() << "Someone threw an error in file_stream::~file_stream: " << e.what() << std::endl;
 		// During unwinding, the exception that caused it is already on its way.
-		if (!std::uncaught_exceptions()) abort();
+		if (!replaceable && !std::uncaught_exceptions()) abort();
 	}
 	delete m_p;
 	// non-trivial field destructors:
-- 
2.43.0


From 245f94efd42c8c9f40deef3b7a233986156f5ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:36 +0000
Subject: [PATCH 119/144] fix: merge_sorter: destroying the run positions does
 not terminate when closing them fails

---
 tpie/pipelining/merge_sorter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tpie/pipelining/merge_sorter.cpp b/tpie/pipelining/merge_sorter.cpp
index a98cd7c..a17f38d 100644
--- a/tpie/pipelining/merge_sorter.cpp
+++ b/tpie/pipelining/merge_sorter.cpp
@@ -29,7 +29,14 @@ run_positions::run_positions()
 }
 
 run_positions::~run_positions() {
-	close();
+	for (auto & stream : m_positions) {
+		try {
+			stream.close();
+		} catch (const std::exception & e) {
+			// The positions go away with us; nobody can miss them.
+			log_error() << "Closing the positions of the runs failed: " << e.what() << std::endl;
+		}
+	}
 }
 
 /*static*/ memory_size_type run_positions::memory_usage() noexcept {
-- 
2.43.0


From c17c5bb5f52edefa2cf3cfbd9003fdc66b94f985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:36 +0000
Subject: [PATCH 120/144] fix: priority_queue: report a failure to close a run
 instead of aborting

---
 tpie/priority_queue.inl | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tpie/priority_queue.inl b/tpie/priority_queue.inl
index 9db8370..6f3cb34 100644
--- a/tpie/priority_queue.inl
+++ b/tpie/priority_queue.inl
@@ -587,6 +587,8 @@ void priority_queue<T, Comparator, OPQType>::fill_buffer() {
 			}
 		}
 	}
+	// Errors are reported by close(), but not by the destructor.
+	for(memory_size_type i = 0; i<current_r; i++) data[i]->close();
 	} // destruct and deallocate `heap'
 #ifndef TPIE_NDEBUG
 	std::cout << "memavail before mb alloc: "
@@ -677,6 +679,9 @@ void priority_queue<T, Comparator, OPQType>::fill_group_buffer(group_type group)
 			}
 		}
 
+		// Errors are reported by close(), but not by the destructor.
+		out.close();
+		for(memory_size_type i = 0; i<setting_k; i++) data[i]->close();
 	}
 
 	//restore mergebuffer
@@ -754,6 +759,10 @@ void priority_queue<T, Comparator, OPQType>::empty_group(group_type group) {
 				heap.pop_and_push(data[current_slot-group*setting_k]->read(), current_slot);
 			}
 		}
+
+		// Errors are reported by close(), but not by the destructor.
+		newstream.close();
+		for(memory_size_type i = 0; i<setting_k; i++) if(data[i]) data[i]->close();
 	}
 
 #ifndef TPIE_NDEBUG
@@ -940,6 +949,7 @@ void priority_queue<T, Comparator, OPQType>::remove_group_buffer(group_type grou
 		data.seek(0);
 		data.read(arr.find(first_read), arr.find(first_read+second_read));
 	}
+	data.close();
 	assert(group_size(group) > 0);
 
 	// make sure that the new slot in group 0 is heap ordered with gbuffer0
@@ -1034,6 +1044,7 @@ void priority_queue<T, Comparator, OPQType>::write_slot(slot_type slotid, T* arr
 	file_stream<T> data(block_factor);
 	data.open(slot_data(slotid));
 	data.write(arr+0, arr+len);
+	data.close();
 	slot_start_set(slotid, 0);
 	slot_size_set(slotid, len);
 	if(current_r == 0 && slotid < setting_k) {
-- 
2.43.0


From ebdd2645a99fc8332d0cba956868bf11f6f80ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:36 +0000
Subject: [PATCH 121/144] fix: merger: report a failure to close a run instead
 of aborting

---
 tpie/pipelining/merger.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/pipelining/merger.h b/tpie/pipelining/merger.h
index 0b3e77d..782a6bf 100644
--- a/tpie/pipelining/merger.h
+++ b/tpie/pipelining/merger.h
@@ -65,6 +65,8 @@ public:
 	}
 
 	void reset() {
+		// Errors are reported by close(), but not by the destructor.
+		for (size_t i = 0; i < in.size(); ++i) in[i].close();
 		in.resize(0);
 		pq.resize(0);
 		itemsRead.resize(0);
-- 
2.43.0


From 8501060df0d70f68c4f77c9901e7c05d6015e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:36 +0000
Subject: [PATCH 122/144] fix: file accessor: the destructor does not throw
 when close fails

---
 tpie/file_accessor/posix.h   | 2 +-
 tpie/file_accessor/posix.inl | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/tpie/file_accessor/posix.h b/tpie/file_accessor/posix.h
index 0376178..1952801 100644
--- a/tpie/file_accessor/posix.h
+++ b/tpie/file_accessor/posix.h
@@ -39,7 +39,7 @@ private:
 
 public:
 	inline posix();
-	inline ~posix() {close_i();}
+	inline ~posix();
 
 	inline void open_ro(const std::string & path);
 	inline void open_wo(const std::string & path);
diff --git a/tpie/file_accessor/posix.inl b/tpie/file_accessor/posix.inl
index ad6b6ab..494aff6 100644
--- a/tpie/file_accessor/posix.inl
+++ b/tpie/file_accessor/posix.inl
@@ -161,6 +161,14 @@ void posix::close_i() {
 	if (res == -1 && errno != EINTR) throw_errno();
 }
 
+posix::~posix() {
+	try {
+		close_i();
+	} catch (const std::exception &) {
+		// Those who want to know about it call close_i().
+	}
+}
+
 void posix::truncate_i(stream_size_type bytes) {
 	if (ftruncate(m_fd, bytes) == -1) throw_errno();
 }
-- 
2.43.0


From 2259e8e2ccd22deb551d4240d1fd54902de1882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:36 +0000
Subject: [PATCH 123/144] fix: stack: destroying an anonymous stack, or one
 during unwinding, does not terminate when the disk fails

---
 tpie/stack.h | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/tpie/stack.h b/tpie/stack.h
index 897428f..65a0320 100644
--- a/tpie/stack.h
+++ b/tpie/stack.h
@@ -30,6 +30,9 @@
 #include <tpie/stream.h>
 #include <tpie/compressed/stream.h>
 #include <tpie/tpie_assert.h>
+#include <tpie/tpie_log.h>
+#include <cstdlib>
+#include <exception>
 
 namespace tpie {
 
@@ -47,6 +50,7 @@ public:
 		: m_stream(blockFactor)
 		, m_buffer(buffer_size(blockFactor))
 		, m_bufferItems(0)
+		, m_anonymous(true)
 	{
 		m_stream.open(static_cast<memory_size_type>(0), access_normal,
 					  compression_normal);
@@ -62,6 +66,7 @@ public:
 		: m_stream(blockFactor)
 		, m_buffer(buffer_size(blockFactor))
 		, m_bufferItems(0)
+		, m_anonymous(false)
 	{
 		m_stream.open(path, access_read_write,
 					  static_cast<memory_size_type>(0), access_normal,
@@ -79,6 +84,7 @@ public:
 		: m_stream(blockFactor)
 		, m_buffer(buffer_size(blockFactor))
 		, m_bufferItems(0)
+		, m_anonymous(false)
 	{
 		m_stream.open(tempFile, access_read_write,
 					  static_cast<memory_size_type>(0), access_normal,
@@ -92,10 +98,17 @@ public:
     /// end of the stack.
     ////////////////////////////////////////////////////////////////////
 	~stack() {
-		// A stream is closed when an operation on it fails.
-		if (!m_stream.is_open()) return;
-		empty_buffer();
-		m_stream.truncate(m_stream.get_position());
+		// A stream is closed when an operation on it fails,
+		// and an anonymous stack goes away with us.
+		if (!m_stream.is_open() || m_anonymous) return;
+		try {
+			empty_buffer();
+			m_stream.truncate(m_stream.get_position());
+		} catch (const std::exception & e) {
+			log_error() << "Could not write the items of a stack: " << e.what() << std::endl;
+			// During unwinding, the exception that caused it is already on its way.
+			if (!std::uncaught_exceptions()) abort();
+		}
 	}
 
     ////////////////////////////////////////////////////////////////////
@@ -160,6 +173,9 @@ private:
 	array<T> m_buffer;
 	size_t m_bufferItems;
 
+	/** Whether the file is removed together with the stack. */
+	bool m_anonymous;
+
 	inline void empty_buffer() {
 		if (m_bufferItems == 0) return;
 		m_stream.truncate(m_stream.get_position());
-- 
2.43.0


From 8f3178d891acac8f9abd03d9cd192511d326208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:36 +0000
Subject: [PATCH 124/144] fix: serialization writers: destruction during
 unwinding, or by a pipeline that failed, does not terminate when closing
 fails

---
 tpie/pipelining/serialization.h | 14 ++++++++++++++
 tpie/serialization_stream.cpp   | 27 +++++++++++++++++++++++++--
 tpie/serialization_stream.h     |  3 +++
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/tpie/pipelining/serialization.h b/tpie/pipelining/serialization.h
index ec4df36..cbc6817 100644
--- a/tpie/pipelining/serialization.h
+++ b/tpie/pipelining/serialization.h
@@ -137,6 +137,13 @@ public:
 		set_plot_options(PLOT_BUFFERED | PLOT_SIMPLIFIED_HIDE);
 	}
 
+	reverser_input_t(reverser_input_t &&) = default;
+
+	~reverser_input_t() {
+		// Without end(), nobody reads the file.
+		wr.abandon();
+	}
+
 	void propagate() override {
 		file.construct();
 		forward<tpie::maybe<tpie::temp_file>*>("__srev_file", &file, 1);
@@ -272,6 +279,13 @@ public:
 		set_plot_options(PLOT_BUFFERED | PLOT_SIMPLIFIED_HIDE);
 	}
 
+	buffer_input_t(buffer_input_t &&) = default;
+
+	~buffer_input_t() {
+		// Without end(), nobody reads the file.
+		wr.abandon();
+	}
+
 	void propagate() override {
 		file.construct();
 		forward<tpie::maybe<tpie::temp_file>*>("__sbuf_file", &file, 1);
diff --git a/tpie/serialization_stream.cpp b/tpie/serialization_stream.cpp
index 94bb67f..69abe41 100644
--- a/tpie/serialization_stream.cpp
+++ b/tpie/serialization_stream.cpp
@@ -19,7 +19,10 @@
 
 #include <tpie/serialization_stream.h>
 #include <tpie/array.h>
+#include <tpie/tpie_log.h>
 #include <algorithm>
+#include <cstdlib>
+#include <exception>
 
 ///////////////////////////////////////////////////////////////////////////////
 // serialization_header {{{
@@ -244,7 +247,14 @@ serialization_writer::serialization_writer()
 }
 
 serialization_writer::~serialization_writer() {
-	close();
+	try {
+		close();
+	} catch (const std::exception & e) {
+		log_error() << "Could not close a serialization stream: " << e.what() << std::endl;
+		// During unwinding, the exception that caused it is already on its way.
+		if (!std::uncaught_exceptions()) abort();
+		abandon();
+	}
 }
 
 void serialization_writer::write_block() {
@@ -285,7 +295,14 @@ serialization_reverse_writer::serialization_reverse_writer()
 }
 
 serialization_reverse_writer::~serialization_reverse_writer() {
-	close();
+	try {
+		close();
+	} catch (const std::exception & e) {
+		log_error() << "Could not close a serialization stream: " << e.what() << std::endl;
+		// During unwinding, the exception that caused it is already on its way.
+		if (!std::uncaught_exceptions()) abort();
+		abandon();
+	}
 }
 
 void serialization_reverse_writer::write_block() {
@@ -322,6 +339,12 @@ void serialization_reverse_writer::close() {
 	p_t::close(true);
 }
 
+void serialization_reverse_writer::abandon() noexcept {
+	m_block.resize(0);
+	m_index = 0;
+	p_t::abandon();
+}
+
 namespace bits {
 
 serialization_reader_base::serialization_reader_base()
diff --git a/tpie/serialization_stream.h b/tpie/serialization_stream.h
index 1134a89..8d0fbe9 100644
--- a/tpie/serialization_stream.h
+++ b/tpie/serialization_stream.h
@@ -221,6 +221,9 @@ public:
 
 	friend class serializer;
 
+	/** \brief Close the file without writing the data still in memory. */
+	void abandon() noexcept;
+
 	serialization_reverse_writer();
 	~serialization_reverse_writer();
 
-- 
2.43.0


From 2924752af7a0d46fd73c31301511aad49bbb288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:36 +0000
Subject: [PATCH 125/144] fix: serialization_sorter: remove the runs even when
 closing one of them fails

---
 tpie/serialization_sorter.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tpie/serialization_sorter.h b/tpie/serialization_sorter.h
index 5d13d6b..0714af8 100644
--- a/tpie/serialization_sorter.h
+++ b/tpie/serialization_sorter.h
@@ -409,10 +409,8 @@ public:
 	}
 
 	void reset() {
-		if (m_readersOpen > 0) {
-			log_debug() << "reset: Close readers" << std::endl;
-			close_readers_and_delete();
-		}
+		// The files being read are removed below even when closing them fails.
+		m_readersOpen = 0;
 		m_readers.resize(0);
 		if (m_writerOpen) {
 			log_debug() << "reset: Close writer" << std::endl;
-- 
2.43.0


From 5630f4938bcfa6b8257a5bc2772809303ca6421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:15 +0000
Subject: [PATCH 126/144] fix: block_collection_cache: a failing read or write
 leaves the cache as it was

---
 tpie/blocks/block_collection_cache.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/tpie/blocks/block_collection_cache.cpp b/tpie/blocks/block_collection_cache.cpp
index 39da765..ce42fff 100644
--- a/tpie/blocks/block_collection_cache.cpp
+++ b/tpie/blocks/block_collection_cache.cpp
@@ -18,6 +18,9 @@
 // along with TPIE.  If not, see <http://www.gnu.org/licenses/>
 
 #include <tpie/blocks/block_collection_cache.h>
+#include <tpie/tpie_log.h>
+#include <cstdlib>
+#include <exception>
 
 namespace tpie {
 
@@ -36,17 +39,23 @@ block_collection_cache::~block_collection_cache() {
 
 	for(block_map_t::iterator i = m_blockMap.begin(); i != end; ++i) {
 		if(i->second.dirty) {
-			m_collection.write_block(i->first, *i->second.pointer);
+			try {
+				m_collection.write_block(i->first, *i->second.pointer);
+			} catch (const std::exception & e) {
+				log_error() << "Could not write a cached block: " << e.what() << std::endl;
+				// During unwinding, the exception that caused it is already on its way.
+				if (!std::uncaught_exceptions()) abort();
+			}
 		}
 		tpie_delete(i->second.pointer);
 	}
 }
 
 block_handle block_collection_cache::get_free_block() {
-	block_handle h = m_collection.get_free_block();
-	block * cache_b = tpie_new<block>(m_blockSize);
 	prepare_cache();
-	add_to_cache(h, cache_b, true);
+	tpie::unique_ptr<block> cache_b(tpie_new<block>(m_blockSize));
+	block_handle h = m_collection.get_free_block();
+	add_to_cache(h, cache_b.release(), true);
 	return h;
 }
 
@@ -71,11 +80,11 @@ void block_collection_cache::prepare_cache() {
 
 	// write the last accessed block to disk
 	block_handle handle = m_blockList.front();
-	m_blockList.pop_front();
 
 	block_map_t::iterator i = m_blockMap.find(handle);
 	if(i->second.dirty)
 		m_collection.write_block(i->first, *(i->second.pointer));
+	m_blockList.pop_front();
 	tpie_delete(i->second.pointer);
 	--m_curSize;
 	m_blockMap.erase(i);
@@ -108,11 +117,12 @@ block * block_collection_cache::read_block(block_handle handle) {
 	// the block isn't in the cache
 	prepare_cache(); // make space in the cache for the new block
 
-	block * cache_b = tpie_new<block>();
+	tpie::unique_ptr<block> cache_b(tpie_new<block>());
 	m_collection.read_block(handle, *cache_b);
-	add_to_cache(handle, cache_b, false);
+	block * b = cache_b.release();
+	add_to_cache(handle, b, false);
 
-	return cache_b;
+	return b;
 }
 
 void block_collection_cache::write_block(block_handle handle) {
-- 
2.43.0


From db2e470170fdcd159497bf844d6a9cd875fad3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:15 +0000
Subject: [PATCH 127/144] fix: block collections: destruction during unwinding
 does not terminate when the disk fails

---
 tpie/blocks/block_collection.cpp   | 11 ++++++++++-
 tpie/blocks/freespace_collection.h | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/tpie/blocks/block_collection.cpp b/tpie/blocks/block_collection.cpp
index 391c95a..ae82045 100644
--- a/tpie/blocks/block_collection.cpp
+++ b/tpie/blocks/block_collection.cpp
@@ -19,6 +19,9 @@
 
 #include <tpie/tpie_assert.h>
 #include <tpie/blocks/block_collection.h>
+#include <tpie/tpie_log.h>
+#include <cstdlib>
+#include <exception>
 
 namespace tpie {
 
@@ -42,7 +45,13 @@ block_collection::block_collection(std::string fileName, memory_size_type blockS
 }
 
 block_collection::~block_collection() {
-	m_accessor.close_i();
+	try {
+		m_accessor.close_i();
+	} catch (const std::exception & e) {
+		log_error() << "Could not close a block collection: " << e.what() << std::endl;
+		// During unwinding, the exception that caused it is already on its way.
+		if (m_writeable && !std::uncaught_exceptions()) abort();
+	}
 }
 
 block_handle block_collection::get_free_block() {
diff --git a/tpie/blocks/freespace_collection.h b/tpie/blocks/freespace_collection.h
index 5508917..d4095fc 100644
--- a/tpie/blocks/freespace_collection.h
+++ b/tpie/blocks/freespace_collection.h
@@ -28,6 +28,9 @@
 #include <tpie/tpie_assert.h>
 #include <tpie/blocks/block.h>
 #include <tpie/stack.h>
+#include <tpie/tpie_log.h>
+#include <cstdlib>
+#include <exception>
 #include <limits>
 
 namespace tpie {
@@ -54,7 +57,13 @@ public:
 
 	~freespace_collection() {
 		// when closed the top element of the stacked is an infinitely large block representing the end of the file
-		m_free.push(block_handle(m_end, std::numeric_limits<stream_size_type>::max()));
+		try {
+			m_free.push(block_handle(m_end, std::numeric_limits<stream_size_type>::max()));
+		} catch (const std::exception & e) {
+			log_error() << "Could not write the free blocks: " << e.what() << std::endl;
+			// During unwinding, the exception that caused it is already on its way.
+			if (!std::uncaught_exceptions()) abort();
+		}
 	}
 
 	void free(block_handle handle) {
-- 
2.43.0


From 849164707d413838e116cd060ef0f029a12d5230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:15 +0000
Subject: [PATCH 128/144] fix: external btree: destruction during unwinding
 does not terminate when the disk fails

---
 tpie/btree/external_store_base.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tpie/btree/external_store_base.cpp b/tpie/btree/external_store_base.cpp
index 77dc431..58b18ae 100644
--- a/tpie/btree/external_store_base.cpp
+++ b/tpie/btree/external_store_base.cpp
@@ -19,6 +19,9 @@
 
 #include <tpie/blocks/block_collection_cache.h>
 #include <tpie/btree/external_store_base.h>
+#include <tpie/tpie_log.h>
+#include <cstdlib>
+#include <exception>
 
 namespace tpie {
 namespace bbits {
@@ -58,7 +61,8 @@ external_store_base::external_store_base(external_store_base&& other) noexcept
 }
 
 external_store_base::~external_store_base() {
-	if (!m_moved) {
+	if (m_moved) return;
+	try {
 		tpie::file_accessor::raw_file_accessor m_accessor;
 		m_accessor.try_open_rw(m_path);
 		stream_size_type size = sizeof(size_t) * 2 + sizeof(blocks::block_handle);
@@ -70,6 +74,10 @@ external_store_base::~external_store_base() {
 		m_accessor.write_i((void*) &m_size, sizeof(size_t));
 		m_accessor.seek_i(pos + 2 * sizeof(size_t));
 		m_accessor.write_i((void*) &m_root, sizeof(blocks::block_handle));
+	} catch (const std::exception & e) {
+		log_error() << "Could not write the root of a btree: " << e.what() << std::endl;
+		// During unwinding, the exception that caused it is already on its way.
+		if (!std::uncaught_exceptions()) abort();
 	}
 }
 
-- 
2.43.0


From 4d23c95092c0e6431ff1d4b6c249edbacc3f6c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:34 +0000
Subject: [PATCH 129/144] fix: priority_queue: respect the limit on open files
 also when merging

---
 tpie/priority_queue.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tpie/priority_queue.inl b/tpie/priority_queue.inl
index 6f3cb34..34720ca 100644
--- a/tpie/priority_queue.inl
+++ b/tpie/priority_queue.inl
@@ -142,8 +142,9 @@ void priority_queue<T, Comparator, OPQType>::init(memory_size_type mm_avail, str
 			const stream_size_type denominator = 2*sq_fanout_overhead;
 			setting_k = static_cast<memory_size_type>(nominator/denominator); //Set fanout
 
-			// Don't open too many files
-			setting_k = std::min(get_file_manager().available(), setting_k);
+			// Don't open too many files: a merge reads k and writes one.
+			const memory_size_type files = get_file_manager().available();
+			setting_k = std::min(files > 0 ? files - 1 : 0, setting_k);
 
 			// Performance degrades with more than around 250 open files
 			setting_k = std::min(static_cast<memory_size_type>(250), setting_k);
-- 
2.43.0


From 93663c649baba91e57a534b9726740d4b71eafff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:10 +0000
Subject: [PATCH 130/144] fix: stats: user counters beyond the last are not
 accessed

---
 tpie/stats.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tpie/stats.cpp b/tpie/stats.cpp
index 1c36d70..da11665 100644
--- a/tpie/stats.cpp
+++ b/tpie/stats.cpp
@@ -64,11 +64,11 @@ namespace tpie {
 	}
 
 	stream_size_type get_user(size_t i) {
-		return (i < sizeof(user)) ? user[i].load() : 0;
+		return (i < sizeof(user)/sizeof(user[0])) ? user[i].load() : 0;
 	}
 
 	void increment_user(size_t i, stream_size_type delta) {
-		if (i < sizeof(user)) user[i].fetch_add(delta);
+		if (i < sizeof(user)/sizeof(user[0])) user[i].fetch_add(delta);
 	}
 }  //  tpie namespace
 
-- 
2.43.0


From 40c125e827603eeb1d8d9bd70944b290bef5e7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:32 +0000
Subject: [PATCH 131/144] fix: resource_manager: exceeding the limit from
 several threads is not a data race

---
 tpie/resource_manager.cpp | 25 ++++++++++++++-----------
 tpie/resource_manager.h   | 10 +++++-----
 2 files changed, 19 insertions(+), 16 deletions(-)

diff --git a/tpie/resource_manager.cpp b/tpie/resource_manager.cpp
index 3886f13..639da28 100644
--- a/tpie/resource_manager.cpp
+++ b/tpie/resource_manager.cpp
@@ -41,12 +41,12 @@ size_t resource_manager::available() const noexcept {
 	return 0;
 }
 
-void resource_manager::print_resource_complaint(std::ostream & os, size_t amount, size_t usage) {
-	size_t diff = usage - m_limit;
+void resource_manager::print_resource_complaint(std::ostream & os, size_t amount, size_t usage, size_t limit) {
+	size_t diff = usage - limit;
 
 	os << "Resource " << resource_managed << " limit exceeded by " << amount_with_unit(diff)
-	   << " (" << (diff * 100 / m_limit) << "%), while trying to increase usage by " << amount_with_unit(amount) << "."
-	   << " Limit is " << amount_with_unit(m_limit) << ", but " << amount_with_unit(usage) << " would be used.";
+	   << " (" << (diff * 100 / limit) << "%), while trying to increase usage by " << amount_with_unit(amount) << "."
+	   << " Limit is " << amount_with_unit(limit) << ", but " << amount_with_unit(usage) << " would be used.";
 }
 
 void resource_manager::register_increased_usage(size_t amount) {
@@ -56,11 +56,12 @@ void resource_manager::register_increased_usage(size_t amount) {
 		break;
 	case ENFORCE_THROW: {
 		size_t usage = m_used.fetch_add(amount) + amount;
-		if (usage > m_limit && m_limit > 0) {
+		size_t limit = m_limit;
+		if (usage > limit && limit > 0) {
 			// The resource is not handed out.
 			m_used.fetch_sub(amount);
 			std::stringstream ss;
-			print_resource_complaint(ss, amount, usage);
+			print_resource_complaint(ss, amount, usage, limit);
 			throw_out_of_resource_error(ss.str());
 			throw out_of_resource_error(ss.str());
 		}
@@ -68,12 +69,14 @@ void resource_manager::register_increased_usage(size_t amount) {
 	case ENFORCE_DEBUG:
 	case ENFORCE_WARN: {
 		size_t usage = m_used.fetch_add(amount) + amount;
-		if (usage > m_limit && usage - m_limit > m_maxExceeded && m_limit > 0) {
-			m_maxExceeded = usage - m_limit;
-			if (m_maxExceeded >= m_nextWarning) {
-				m_nextWarning = m_maxExceeded + m_maxExceeded/8;
+		size_t limit = m_limit;
+		if (usage > limit && usage - limit > m_maxExceeded && limit > 0) {
+			size_t exceeded = usage - limit;
+			m_maxExceeded = exceeded;
+			if (exceeded >= m_nextWarning) {
+				m_nextWarning = exceeded + exceeded/8;
 				std::ostream & os = (m_enforce == ENFORCE_DEBUG) ? log_debug() : log_warning();
-				print_resource_complaint(os, amount, usage);
+				print_resource_complaint(os, amount, usage, limit);
 				os << std::endl;
 			}
 		}
diff --git a/tpie/resource_manager.h b/tpie/resource_manager.h
index 44be3da..56a292c 100644
--- a/tpie/resource_manager.h
+++ b/tpie/resource_manager.h
@@ -102,15 +102,15 @@ public:
 	virtual ~resource_manager() = default;
 
 private:
-	void print_resource_complaint(std::ostream & os, size_t amount, size_t usage);
+	void print_resource_complaint(std::ostream & os, size_t amount, size_t usage, size_t limit);
 protected:
 	virtual void throw_out_of_resource_error(const std::string & s) = 0;
 
 	std::atomic<size_t> m_used;
-	size_t m_limit;
-	size_t m_maxExceeded;
-	size_t m_nextWarning;
-	enforce_t m_enforce;
+	std::atomic<size_t> m_limit;
+	std::atomic<size_t> m_maxExceeded;
+	std::atomic<size_t> m_nextWarning;
+	std::atomic<enforce_t> m_enforce;
 
 	resource_type resource_managed;
 };
-- 
2.43.0


From c8e7fc0485d0e043a13fc005c3412f151e939326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:30 +0000
Subject: [PATCH 132/144] fix: log: several threads may log at the same time

---
 tpie/logstream.cpp | 18 ++++++++++++++++--
 tpie/logstream.h   |  3 ++-
 tpie/tpie_log.cpp  | 33 +++++++++++++++++++++++----------
 tpie/tpie_log.h    | 14 +++++++-------
 4 files changed, 48 insertions(+), 20 deletions(-)

diff --git a/tpie/logstream.cpp b/tpie/logstream.cpp
index 44e8f1b..cb36c44 100644
--- a/tpie/logstream.cpp
+++ b/tpie/logstream.cpp
@@ -20,13 +20,18 @@
 #include <algorithm>
 #include <tpie/logstream.h>
 #include <cstdio>
+#include <mutex>
 #include <tpie/tpie_log.h>
 namespace tpie {
 
 namespace log_bits {
 
 std::vector<log_target *> log_targets;
-bool logging_disabled;
+std::atomic<bool> logging_disabled;
+
+/// Protects the list of targets and the targets themselves. A target may log.
+static std::recursive_mutex targets_mutex;
+typedef std::lock_guard<std::recursive_mutex> targets_lock;
 
 }
 
@@ -40,6 +45,7 @@ log_stream_buf::~log_stream_buf() {flush();}
 
 
 void log_to_targets(log_level level, const char * data, size_t size) {
+	targets_lock lock(targets_mutex);
 	if (!logging_disabled)
 		for(size_t i = 0; i < log_targets.size(); ++i)
 				log_targets[i]->log(level, data, size);
@@ -48,6 +54,7 @@ void log_to_targets(log_level level, const char * data, size_t size) {
 void log_stream_buf::flush() {
 	if (pptr() == m_buff) return;
 	if (!logging_disabled) {
+		targets_lock lock(targets_mutex);
 		*pptr() = 0;
 		if (log_targets.empty())
 			// As a special service if no one is listening
@@ -68,16 +75,21 @@ int log_stream_buf::overflow(int c) {
 
 int log_stream_buf::sync() {
 	//Do not display the messages before there is a target
-	if (log_targets.empty()) return 0;
+	{
+		targets_lock lock(targets_mutex);
+		if (log_targets.empty()) return 0;
+	}
 	flush();
 	return 0;
 }
 
 void add_log_target(log_target * t) {
+	targets_lock lock(targets_mutex);
 	log_targets.push_back(t);
 }
 
 void remove_log_target(log_target * t) {
+	targets_lock lock(targets_mutex);
 	std::vector<log_target *>::iterator i =
 		std::find(log_targets.begin(), log_targets.end(), t);
 	if (i != log_targets.end()) {
@@ -87,11 +99,13 @@ void remove_log_target(log_target * t) {
 }
 
 void begin_log_group(const std::string & name) {
+	targets_lock lock(targets_mutex);
 	for(size_t i = 0; i < log_targets.size(); ++i)
 		log_targets[i]->begin_group(name);
 }
 
 void end_log_group() {
+	targets_lock lock(targets_mutex);
 	for(size_t i = 0; i < log_targets.size(); ++i)
 		log_targets[i]->end_group();
 }
diff --git a/tpie/logstream.h b/tpie/logstream.h
index 690f609..d58bd83 100644
--- a/tpie/logstream.h
+++ b/tpie/logstream.h
@@ -27,6 +27,7 @@
 #include <tpie/tpie_export.h>
 #include <tpie/config.h>
 #include <tpie/loglevel.h>
+#include <atomic>
 #include <streambuf>
 #include <ostream>
 
@@ -34,7 +35,7 @@ namespace tpie {
 
 namespace log_bits {
 
-extern bool logging_disabled;
+extern std::atomic<bool> logging_disabled;
 
 }
 
diff --git a/tpie/tpie_log.cpp b/tpie/tpie_log.cpp
index fd93c32..5d1f3fb 100644
--- a/tpie/tpie_log.cpp
+++ b/tpie/tpie_log.cpp
@@ -128,7 +128,21 @@ namespace log_bits {
 bool log_selector::s_init;
 log_level log_selector::s_level;
 
-std::vector<std::shared_ptr<logstream> > log_instances;
+/// The streams of this thread. They are deleted by the log_reaper; messages
+/// logged even later (by static destructors) go to new ones.
+static thread_local logstream * log_instances[LOG_USER3 + 1];
+
+struct log_reaper {
+	bool armed = false;
+	~log_reaper() {
+		for (auto & l : log_instances) {
+			delete l;
+			l = nullptr;
+		}
+	}
+};
+
+static thread_local log_reaper reaper;
 
 } // namespace log_bits
 
@@ -156,18 +170,17 @@ void finish_default_log() {
 
 namespace log_bits {
 
-void initiate_log_level(log_level level) {
-	while (log_instances.size() <= level)
-		log_instances.push_back(std::shared_ptr<logstream>());
-	log_instances[level] = std::make_shared<logstream>(level);
+logstream & log_instance(log_level level) {
+	if (!log_instances[level]) {
+		reaper.armed = true;
+		log_instances[level] = new logstream(level);
+	}
+	return *log_instances[level];
 }
 
 void flush_logs() {
-	for (size_t i = 0; i < log_instances.size(); ++i) {
-		if (log_instances[i].get() != 0) {
-			*log_instances[i] << std::flush;
-		}
-	}
+	for (auto & l : log_instances)
+		if (l) *l << std::flush;
 }
 
 } // namespace log_bits
diff --git a/tpie/tpie_log.h b/tpie/tpie_log.h
index 6033010..d63ad68 100644
--- a/tpie/tpie_log.h
+++ b/tpie/tpie_log.h
@@ -122,19 +122,19 @@ void finish_default_log();
 
 namespace log_bits {
 
-TPIE_EXPORT extern std::vector<std::shared_ptr<logstream> > log_instances;
-
-TPIE_EXPORT void initiate_log_level(log_level level);
+///////////////////////////////////////////////////////////////////////////////
+/// \brief The calling thread's stream of the given level. A thread does not
+/// share its streams, so messages are never mixed before they are complete.
+///////////////////////////////////////////////////////////////////////////////
+TPIE_EXPORT logstream & log_instance(log_level level);
 
+/// Flush the logs of the calling thread.
 TPIE_EXPORT void flush_logs();
 
 }
 
 inline logstream & get_log_by_level(log_level level) {
-	using namespace log_bits;
-	if (log_instances.size() <= level || log_instances[level].get() == 0)
-		initiate_log_level(level);
-	return *log_instances[level];
+	return log_bits::log_instance(level);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 2619a01c8717b7cfee21709562dd2522f8926684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:31 +0000
Subject: [PATCH 133/144] fix: log: a group may end that began before the
 target was added

---
 tpie/tpie_log.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/tpie_log.cpp b/tpie/tpie_log.cpp
index 5d1f3fb..13f9d5b 100644
--- a/tpie/tpie_log.cpp
+++ b/tpie/tpie_log.cpp
@@ -59,6 +59,7 @@ void tpie::file_log_target::begin_group(const std::string & name) {
 
 void tpie::file_log_target::end_group() {
 	if(LOG_DEBUG > m_threshold) return;
+	if(groups.empty()) return; // the group began before this target was added
 
 	m_out << build_prefix(groups.size()-1) << "x " << "Leaving " << groups.top() << std::endl;
 	groups.pop();
@@ -101,6 +102,7 @@ void tpie::stderr_log_target::begin_group(const std::string & name) {
 
 void tpie::stderr_log_target::end_group() {
 	if(LOG_DEBUG > m_threshold) return;
+	if(groups.empty()) return; // the group began before this target was added
 
 	std::string text = "Leaving " + groups.top() + "\n";
 	std::string prefix = build_prefix(groups.size()-1) + "x ";
-- 
2.43.0


From d675430978e536aa0ffb53902836fa7af60160e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:55 +0000
Subject: [PATCH 134/144] fix: progress: names of functions of any length, and
 of operators, do not overrun

---
 tpie/fractional_progress.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/tpie/fractional_progress.cpp b/tpie/fractional_progress.cpp
index e485482..b616fce 100644
--- a/tpie/fractional_progress.cpp
+++ b/tpie/fractional_progress.cpp
@@ -141,32 +141,30 @@ inline std::string fname(const char * file, const char * function, const char *
 	for(const char * z=file; *z; ++z)
 		if (*z=='\\' || *z == '/') y=(z+1);
 
-	char f[256];
+	std::string f;
 	{
-		const char * z=function+strlen(function)-1;
+		const char * z=function+strlen(function);
 		//Skip nested <> template function arguments emitted by vs
-		if (*z == '>') {	
-			--z;
+		if (z != function && *(z-1) == '>') {
+			const char * w=z-1;
 			int c=1;
-			while(c != 0) {
-				if (*z == '<') --c;
-				else if (*z == '>') ++c;
-				--z;
+			while(c != 0 && w != function) {
+				--w;
+				if (*w == '<') --c;
+				else if (*w == '>') ++c;
 			}
+			//operator> and the like have no arguments
+			if (c == 0) z=w;
 		}
-		++z;
 		//Skip anything before the last : since vs likes to include such jazz
 		const char * x=z;
 		while (x != function && *x != ':') --x;
-		if (*x == ':') ++x;
+		if (x != z && *x == ':') ++x;
 		//Copy result to f removing any whitespace (vs likes to write "operater ()")
-		char * k=f;
 		for(const char * i=x; i != z; ++i) {
 			if (*i == ' ') continue;
-			*k = *i;
-			++k;
+			f += *i;
 		}
-		*k = 0;
 	}	
 	std::string x;
 	x += y;
-- 
2.43.0


From 3b95a7b2c514310f1416a91b50b70da3ecc30461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:08 +0000
Subject: [PATCH 135/144] fix: consecutive_memory_available: the attempts of
 the search are really made

---
 tpie/memory.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tpie/memory.cpp b/tpie/memory.cpp
index 18111fb..9cb093e 100644
--- a/tpie/memory.cpp
+++ b/tpie/memory.cpp
@@ -86,12 +86,13 @@ std::pair<uint8_t *, size_t> memory_manager::__allocate_consecutive(size_t upper
 			   << " query amount is: " << mid*granularity << ":\n";
 
 		//try to allocate "mid" bytes of memory
-		//std::new throws an exception if memory allocation fails
+		//operator new throws an exception if memory allocation fails
+		//(and unlike a new expression, a call of it may not be optimized away)
 		try {
-			uint8_t* mem = new uint8_t[mid*granularity];
+			void * mem = ::operator new[](mid*granularity);
 			low = mid+1;
 			best=mid*granularity;
-			delete[] mem;
+			::operator delete[](mem);
 		} catch (std::bad_alloc &) {
 			high = mid-1;
 			lf.buf << "   failed.\n";
-- 
2.43.0


From e4d812b38536f02ace6aa14b9a69929d1c6c5946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:08 +0000
Subject: [PATCH 136/144] fix: resource_manager: a warning that cannot be
 written leaves the account right

---
 tpie/resource_manager.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tpie/resource_manager.cpp b/tpie/resource_manager.cpp
index 639da28..8b2d6e3 100644
--- a/tpie/resource_manager.cpp
+++ b/tpie/resource_manager.cpp
@@ -75,9 +75,15 @@ void resource_manager::register_increased_usage(size_t amount) {
 			m_maxExceeded = exceeded;
 			if (exceeded >= m_nextWarning) {
 				m_nextWarning = exceeded + exceeded/8;
-				std::ostream & os = (m_enforce == ENFORCE_DEBUG) ? log_debug() : log_warning();
-				print_resource_complaint(os, amount, usage, limit);
-				os << std::endl;
+				try {
+					std::ostream & os = (m_enforce == ENFORCE_DEBUG) ? log_debug() : log_warning();
+					print_resource_complaint(os, amount, usage, limit);
+					os << std::endl;
+				} catch (...) {
+					// The resource is not handed out.
+					m_used.fetch_sub(amount);
+					throw;
+				}
 			}
 		}
 		break; }
-- 
2.43.0


From e332722bd641613a79244c60196028b584cde4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:46 +0000
Subject: [PATCH 137/144] fix: tempname: a directory that cannot be written to
 is left as it was

---
 tpie/tempname.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/tempname.cpp b/tpie/tempname.cpp
index acf3fa6..a31bf3f 100644
--- a/tpie/tempname.cpp
+++ b/tpie/tempname.cpp
@@ -253,6 +253,8 @@ bool tempname::try_directory(const std::string& path) {
 	catch (tpie::exception &) {}
 	catch (std::filesystem::filesystem_error &) {}
 
+	std::error_code ec;
+	std::filesystem::remove(file_path, ec);
 	return false;
 }
 
-- 
2.43.0


From b330e7addc65f190ac1b7668a1c97f41848d80e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:48 +0000
Subject: [PATCH 138/144] fix: execution time database: a damaged file is
 ignored, it is not read beyond its end

---
 tpie/execution_time_predictor.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tpie/execution_time_predictor.cpp b/tpie/execution_time_predictor.cpp
index e99991a..7c7db73 100644
--- a/tpie/execution_time_predictor.cpp
+++ b/tpie/execution_time_predictor.cpp
@@ -118,7 +118,10 @@ public:
 		ifstream f;
 		std::string full_name = dir_name+file_name;
 		f.open(full_name.c_str(), ifstream::binary | ifstream::in);
-		if (f.is_open()) {
+		if (!f.is_open()) return;
+		try {
+			// Reading past the end of a damaged file throws.
+			f.exceptions(ifstream::failbit | ifstream::badbit | ifstream::eofbit);
 			using tpie::unserialize;
 			uint64_t magic;
 			unserialize(f, magic);
@@ -139,6 +142,9 @@ public:
 					e.add_point(p_t(n, time));
 				}
 			}
+		} catch (const std::ios_base::failure &) {
+			log_error() << "The time estimation database ``" << full_name << "'' is damaged; it is ignored." << std::endl;
+			db.clear();
 		}
 	}
 
@@ -176,7 +182,7 @@ public:
 	
 	time_type estimate(size_t id, stream_size_type n, double & confidence) {
 		db_type::iterator i=db.find(id);
-		if (i == db.end()) {
+		if (i == db.end() || i->second.count == 0) {
 			confidence=0.0;
 			return -1;
 		}
-- 
2.43.0


From ae5ca3a8c8f5aa81f8a9f112116cf2e2a40a33dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:48 +0000
Subject: [PATCH 139/144] fix: execution time database: a file that cannot be
 written does not replace the one before

---
 tpie/execution_time_predictor.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tpie/execution_time_predictor.cpp b/tpie/execution_time_predictor.cpp
index 7c7db73..489fe53 100644
--- a/tpie/execution_time_predictor.cpp
+++ b/tpie/execution_time_predictor.cpp
@@ -20,6 +20,7 @@
 #include <filesystem>
 #include <tpie/serialization2.h>
 #include <functional>
+#include <cstdio>
 #include <map>
 #include <algorithm>
 #include <iostream>
@@ -173,10 +174,16 @@ public:
 			}
 		}
 		f.close();
+		if (!f) {
+			log_error() << "Failed to store time estimation database: Could not write temporary file ``" << tmp.c_str() << "''" << std::endl;
+			std::remove(tmp.c_str());
+			return;
+		}
 		try {
 			atomic_rename(tmp, dir_name+file_name);
 		} catch(const std::runtime_error & e) {
 			log_error() << "Failed to store time estimation database: " << e.what() << std::endl;
+			std::remove(tmp.c_str());
 		}
 	}
 	
-- 
2.43.0


From af9b1547a8352d5a3ef4e8e0b79087d307e03ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:48 +0000
Subject: [PATCH 140/144] fix: execution time prediction: interpolate between
 known sizes without truncating to zero

---
 tpie/execution_time_predictor.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tpie/execution_time_predictor.cpp b/tpie/execution_time_predictor.cpp
index 489fe53..c3258e5 100644
--- a/tpie/execution_time_predictor.cpp
+++ b/tpie/execution_time_predictor.cpp
@@ -187,6 +187,12 @@ public:
 		}
 	}
 	
+	/** Compute time * a / b; the product need not be representable. */
+	static time_type scale(time_type time, stream_size_type a, stream_size_type b) {
+		double t = static_cast<double>(time) * static_cast<double>(a) / static_cast<double>(b);
+		return static_cast<time_type>(std::min(t, 4e18));
+	}
+
 	time_type estimate(size_t id, stream_size_type n, double & confidence) {
 		db_type::iterator i=db.find(id);
 		if (i == db.end() || i->second.count == 0) {
@@ -211,7 +217,7 @@ public:
 				return -1; 
 			}
 			confidence = std::min(1.3 / (1.0 + std::log(double(n / l->first))/std::log(2.0)), 1.0);
-			return (l->second*n)/l->first;
+			return scale(l->second, n, l->first);
 		}
 		
 		p_t p0(0,0);
@@ -219,7 +225,7 @@ public:
 		stream_size_type w=(l->first-p0.first);
 		stream_size_type x=(n - p0.first);
 		confidence=1.0;
-		return p0.second * (w - x) / w + l->second * (x/w);
+		return scale(p0.second, w - x, w) + scale(l->second, x, w);
 	}
 };
 
-- 
2.43.0


From be44042b02bb7c87c9d67a67c91a4737f19b66e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:24 +0000
Subject: [PATCH 141/144] fix: check nested pieces of a pipeline for
 connectedness at every depth

---
 tpie/pipelining/pair_factory.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tpie/pipelining/pair_factory.h b/tpie/pipelining/pair_factory.h
index 52133be..2bc9d20 100644
--- a/tpie/pipelining/pair_factory.h
+++ b/tpie/pipelining/pair_factory.h
@@ -228,6 +228,7 @@ template <typename fact1_t, typename fact2_t>
 struct maybe_check_connected<pair_factory<fact1_t, fact2_t> > {
 	static void check(const pair_factory<fact1_t, fact2_t> & fact) {
 		fact.assert_connected();
+		fact.recursive_connected_check();
 	}
 };
 
@@ -238,6 +239,7 @@ template <typename fact1_t, typename termfact2_t>
 struct maybe_check_connected<termpair_factory<fact1_t, termfact2_t> > {
 	static void check(const termpair_factory<fact1_t, termfact2_t> & fact) {
 		fact.assert_connected();
+		fact.recursive_connected_check();
 	}
 };
 
-- 
2.43.0


From 6c1c618aa1959879c8279fdca2ae176659dcde76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:24 +0000
Subject: [PATCH 142/144] fix: return from pair_factory_base's move assignment

---
 tpie/pipelining/pair_factory.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tpie/pipelining/pair_factory.h b/tpie/pipelining/pair_factory.h
index 2bc9d20..47777c5 100644
--- a/tpie/pipelining/pair_factory.h
+++ b/tpie/pipelining/pair_factory.h
@@ -49,6 +49,7 @@ public:
 		using std::swap;
 		m_final = other.m_final;
 		swap(m_maps, other.m_maps);
+		return *this;
 	}
 
 	double memory() const noexcept {
-- 
2.43.0


From 1ca5c9f7dd9c2448eb7cb1b702ea32b66b8245cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:57 +0000
Subject: [PATCH 143/144] fix: return from pipe_middle's assignment of a
 factory

---
 tpie/pipelining/pipe_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tpie/pipelining/pipe_base.h b/tpie/pipelining/pipe_base.h
index 6b9c6ef..3390859 100644
--- a/tpie/pipelining/pipe_base.h
+++ b/tpie/pipelining/pipe_base.h
@@ -252,7 +252,7 @@ public:
 	pipe_middle(const fact_t && o) = delete;
 	pipe_middle(fact_t && o): factory(std::move(o)) {}
 	pipe_middle & operator=(const fact_t &) = delete;
-	pipe_middle & operator=(fact_t && o) {factory = std::move(o);}
+	pipe_middle & operator=(fact_t && o) {factory = std::move(o); return *this;}
 
 
 
-- 
2.43.0


From 1f79a5af7446dd06ebbf746311947f1259903bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:22 +0000
Subject: [PATCH 144/144] fix: wait for the block that is read, not for any
 request of the stream

---
 tpie/compressed/stream_base.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tpie/compressed/stream_base.cpp b/tpie/compressed/stream_base.cpp
index e9b444f..91d9966 100644
--- a/tpie/compressed/stream_base.cpp
+++ b/tpie/compressed/stream_base.cpp
@@ -691,7 +691,9 @@ public:
 		m_buffer->transition_state(compressor_buffer_state::dirty,
 								   compressor_buffer_state::reading);
 		compressor().request(r);
-		while (!m_response.done()) {
+		// Writes may be in flight, and done() is set by the first of them,
+		// so wait for the buffer we are interested in.
+		while (m_buffer->is_busy()) {
 			m_response.wait(lock);
 		}
 		m_response.check_read_error();
-- 
2.43.0

