From 6620ef8ce015c997a58cbbec8004482b4c684c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 01/74] fix: JobQueue::cancelQueuedJobs() passes the cancelled
 jobs to the clean-up function

std::remove_if() leaves the elements past the new end in a valid but unspecified
state (moved-from, or copies of the jobs that stay), so the clean-up function was
given the wrong jobs.
---
 vrs/helpers/JobQueue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrs/helpers/JobQueue.h b/vrs/helpers/JobQueue.h
index 0aefca1..0c8c3b3 100644
--- a/vrs/helpers/JobQueue.h
+++ b/vrs/helpers/JobQueue.h
@@ -141,7 +141,9 @@ class JobQueue {
       std::function<bool(const T&)> selector,
       std::function<void(const T&)> cleanup = nullptr) {
     std::unique_lock<std::mutex> locker(mutex_);
-    auto iter = std::remove_if(queue_.begin(), queue_.end(), selector);
+    // std::remove_if() would leave moved-from jobs past the new end, rather than the cancelled jobs
+    auto iter = std::stable_partition(
+        queue_.begin(), queue_.end(), [&selector](const T& job) { return !selector(job); });
     if (cleanup) {
       for (auto subIter = iter; subIter != queue_.end(); ++subIter) {
         cleanup(*subIter);
-- 
2.43.0


From aae3084d1fc25eeb6dab3f1dadc3e6bcaab5e778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:30 +0000
Subject: [PATCH 02/74] fix: ~EventChannel() releases its lock while it waits
 for the listeners to leave

---
 vrs/os/Event.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/os/Event.cpp b/vrs/os/Event.cpp
index 771d5e8..5dab39b 100644
--- a/vrs/os/Event.cpp
+++ b/vrs/os/Event.cpp
@@ -52,7 +52,10 @@ EventChannel::~EventChannel() {
     // pending waitForEvent-s it is better to wake them up than to crash.
     wakeupCondition_.notify_all();
     enterCondition_.notify_all();
+    // the threads we wake up need the lock to leave
+    lock.unlock();
     this_thread::sleep_for(chrono::milliseconds(1));
+    lock.lock();
   }
 }
 
-- 
2.43.0


From 1d775e16eb1586368ff8c4aa6c6a1a59be8b9bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 03/74] fix: records with the maximum timestamp are collected
 when a file is written in one call or closed

---
 vrs/RecordFileWriter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index ae18dbd..7576e49 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -47,6 +47,9 @@ namespace vrs {
 static double kMaxAutoCollectDelay = 10;
 static double kDefaultAutoCollectDelay = 1;
 
+// Limit to collect every record: only records strictly older than a limit are collected.
+static const double kAllRecords = numeric_limits<double>::infinity();
+
 namespace RecordFileWriter_ {
 
 namespace {
@@ -363,7 +366,7 @@ int RecordFileWriter::writeToFile(const string& filePath) {
   // collect all the records
   RecordBatches recordBatches;
   recordBatches.emplace_back(new RecordBatch());
-  collectOldRecords(*recordBatches.back(), Record::kMaxTimestamp);
+  collectOldRecords(*recordBatches.back(), kAllRecords);
   // assemble all the records in one multimap sorted by timestamp
   SortedRecords allRecords;
   addRecordBatchesToSortedRecords(recordBatches, allRecords);
@@ -636,7 +639,7 @@ int RecordFileWriter::closeFileAsync() {
     for (auto* recordable : getRecordables()) {
       recordable->getRecordManager().purgeCache();
     }
-    writeRecordsAsync(Record::kMaxTimestamp);
+    writeRecordsAsync(kAllRecords);
     writerThreadData_->shouldEndThread = true;
     writerThreadData_->writeEventChannel.dispatchEvent();
   }
-- 
2.43.0


From 7470bb11abaef097e538345c20dfa1e14bcf93f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:57 +0000
Subject: [PATCH 04/74] fix: writeToFile() with compression threads does not
 use the absent writer thread's data

---
 vrs/RecordFileWriter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 7576e49..c7bbe59 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -1162,10 +1162,12 @@ int RecordFileWriter::writeRecordsMultiThread(
       }
     }
     // Grab any new record ready to write, to feed our background threads ASAP
-    autoCollectRecords(true);
-    size_t previousSize = recordsToCompress.size();
-    if (addRecordsReadyToWrite(recordsToCompress)) {
-      recordsToWriteCount += recordsToCompress.size() - previousSize;
+    if (writerThreadData_ != nullptr) {
+      autoCollectRecords(true);
+      size_t previousSize = recordsToCompress.size();
+      if (addRecordsReadyToWrite(recordsToCompress)) {
+        recordsToWriteCount += recordsToCompress.size() - previousSize;
+      }
     }
   }
 
-- 
2.43.0


From b5040a028a69a8b22095dd4fd539449be472fc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 05/74] fix: a new file does not inherit the offsets of the
 previous file of the same writer

---
 vrs/RecordFileWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index c7bbe59..7dae995 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -891,6 +891,7 @@ int RecordFileWriter::createFile(const string& filePath, bool splitHead) {
     }
     return error;
   }
+  fileHeader_ = {}; // drop the offsets of a previous file
   fileHeader_.init();
   fileHeader_.descriptionRecordOffset = sizeof(fileHeader_);
   IF_ERROR_LOG_CLOSE_AND_RETURN(head.write(fileHeader_))
-- 
2.43.0


From c1dd1e51e70dedf953c9fb06d6d416fcca9b5dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:45 +0000
Subject: [PATCH 06/74] fix: an index too large for its preallocated space
 never overwrites the records after it

---
 vrs/IndexRecord.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 7d39b43..148f86f 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -251,7 +251,8 @@ int writeClassicIndexRecord(
   FileFormat::RecordHeader indexRecordHeader;
   uint32_t preludeSize = static_cast<uint32_t>(
       sizeof(uint32_t) + streamIds.size() * sizeof(DiskStreamId) + sizeof(uint32_t));
-  if (preallocatedByteSize > 0 && preallocatedByteSize < preludeSize) {
+  if (preallocatedByteSize > 0 &&
+      preallocatedByteSize <= sizeof(indexRecordHeader) + preludeSize) {
     return TOO_MUCH_DATA;
   }
   uint32_t uncompressedSize =
-- 
2.43.0


From 7afc587ccdb4e38ad897aceae48ad4429e93f0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:56 +0000
Subject: [PATCH 07/74] fix: opening a disk file without any chunk is an error,
 not a crash

---
 vrs/DiskFile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 9cbc192..97475f5 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -96,6 +96,10 @@ int DiskFileT<FileChunk>::openSpec(const FileSpec& fileSpec) {
   if (!fileSpec.fileHandlerName.empty() && !fileSpec.isDiskFile()) {
     return FILE_HANDLER_MISMATCH;
   }
+  if (fileSpec.chunks.empty()) {
+    lastError_ = INVALID_FILE_SPEC;
+    return lastError_;
+  }
   options_ = fileSpec.extras;
   if (checkChunks(fileSpec.chunks) != 0 || openChunk(chunks_->data()) != 0) {
     chunks_->clear();
-- 
2.43.0


From c0c8cdcd54b68bcc1a04f1c84bb1aa7e1b19007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:24 +0000
Subject: [PATCH 08/74] fix: getRecordStreamIndex(nullptr) returns the record
 count, as documented, rather than crash

---
 vrs/RecordFileReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 7bfa0dc..94fc711 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -855,6 +855,9 @@ uint32_t RecordFileReader::getRecordIndex(const IndexRecord::RecordInfo* record)
 }
 
 uint32_t RecordFileReader::getRecordStreamIndex(const IndexRecord::RecordInfo* record) const {
+  if (record == nullptr) {
+    return static_cast<uint32_t>(recordIndex_.size());
+  }
   const vector<const IndexRecord::RecordInfo*>& index = getIndex(record->streamId);
   if (!index.empty() && record >= index.front() && record <= index.back()) {
     // Records are sorted in the global index, and a stream's index is a subset of the global index,
-- 
2.43.0


From bdf88f75fb48772ec73a0330af26efe5ed1c56fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 09/74] fix: asking for a stream's index before a file is open
 no longer leaves all the stream indexes empty after

---
 vrs/RecordFileReader.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 94fc711..ec8a7d0 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -885,7 +885,13 @@ const vector<const IndexRecord::RecordInfo*>& RecordFileReader::getIndex(StreamI
       streamIndex_[recordIndex.streamId].emplace_back(&recordIndex);
     }
   }
-  return streamIndex_[streamId];
+  // Don't create an entry for unknown streams: it would pass for an initialized streamIndex_ later.
+  auto iter = streamIndex_.find(streamId);
+  if (iter != streamIndex_.end()) {
+    return iter->second;
+  }
+  static const vector<const IndexRecord::RecordInfo*> sEmptyIndex;
+  return sEmptyIndex;
 }
 
 uint32_t RecordFileReader::getRecordCount(StreamId streamId) const {
-- 
2.43.0


From 92fd6335ea7e6783c72bd95901eab72ce84a9441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 10/74] fix: MultiRecordFileReader::open() leaves no file open
 when it fails

---
 vrs/MultiRecordFileReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/MultiRecordFileReader.cpp b/vrs/MultiRecordFileReader.cpp
index 5a18e67..673447a 100644
--- a/vrs/MultiRecordFileReader.cpp
+++ b/vrs/MultiRecordFileReader.cpp
@@ -100,7 +100,7 @@ void MultiRecordFileReader::setRelatedFileTags(std::vector<std::string>&& tags)
 }
 
 int MultiRecordFileReader::close() {
-  if (!isOpened_) {
+  if (!isOpened_ && readers_.empty()) {
     return NO_FILE_OPEN;
   }
   int resultFinal = SUCCESS;
-- 
2.43.0


From 8c5d90193a62be66151302f3f5c8eeef63b79653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:11 +0000
Subject: [PATCH 11/74] fix: MultiRecordFileReader::getStreamForName() counts
 the streams for relative names, as documented

---
 vrs/MultiRecordFileReader.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/vrs/MultiRecordFileReader.cpp b/vrs/MultiRecordFileReader.cpp
index 673447a..45a54ac 100644
--- a/vrs/MultiRecordFileReader.cpp
+++ b/vrs/MultiRecordFileReader.cpp
@@ -244,8 +244,17 @@ MultiRecordFileReader::UniqueStreamId MultiRecordFileReader::getStreamForName(
   }
   StreamId id = StreamId::fromNumericName(name);
   if (!id.isValid()) {
-    // relative IDs match unique stream IDs directly
-    id = StreamId::fromNumericNamePlus(name);
+    // relative names designate the nth stream of a type, starting at 1
+    const StreamId relativeId = StreamId::fromNumericNamePlus(name);
+    if (relativeId.isValid()) {
+      uint32_t rank = 0;
+      for (const auto& streamId : uniqueStreamIds_) {
+        if (streamId.getTypeId() == relativeId.getTypeId() &&
+            ++rank == relativeId.getInstanceId()) {
+          return streamId;
+        }
+      }
+    }
   }
   return id.isValid() && uniqueStreamIds_.find(id) != uniqueStreamIds_.end()
       ? id
-- 
2.43.0


From 5bb86d807990ec8b26b1a5efbf49575709e74677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 12/74] RecordFileWriter: with VRS_VERIFICATION_CHUNK_UNIT
 defined, chunk sizes are multiples of it

---
 vrs/RecordFileWriter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 7dae995..60e61fb 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -545,7 +545,11 @@ int RecordFileWriter::createChunkedFile(
 }
 
 void RecordFileWriter::setMaxChunkSizeMB(size_t maxChunkSizeMB) {
+#ifdef VRS_VERIFICATION_CHUNK_UNIT // to make small chunks when verifying how chunks are written
+  const size_t kMB = VRS_VERIFICATION_CHUNK_UNIT;
+#else
   const size_t kMB = 1024 * 1024;
+#endif
   const uint64_t kMaxFileSize = static_cast<uint64_t>(numeric_limits<int64_t>::max());
   if (maxChunkSizeMB == 0 || static_cast<uint64_t>(maxChunkSizeMB) >= kMaxFileSize / kMB) {
     maxChunkSize_ = kMaxFileSize; // 0 means max chunk size
-- 
2.43.0


From 7efc24f8f0c3a113a2ddb187634e79a55669009b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 13/74] fix: a header update cut short doesn't hide a split
 file's records

---
 vrs/IndexRecord.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 148f86f..5836173 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -484,8 +484,13 @@ bool IndexRecord::Reader::determineSplitIndexLayout(
   // The index record's size is only updated after the index body is fully written,
   // because we will add to the index while the file is written
   int64_t firstUserRecordOffset = fileHeader_.firstUserRecordOffset;
-  outNoRecords = (firstUserRecordOffset == totalFileSize_);
   int64_t currentPos = file_.getPos();
+  if (firstUserRecordOffset > 0 &&
+      firstUserRecordOffset < currentPos + static_cast<int64_t>(inOutIndexByteSize)) {
+    XR_LOGW("The file header was only partially updated. Ignoring its first user record offset.");
+    firstUserRecordOffset = 0;
+  }
+  outNoRecords = (firstUserRecordOffset == totalFileSize_);
   int64_t chunkStart{}, chunkSize{};
   if (!XR_VERIFY(file_.getChunkRange(chunkStart, chunkSize) == 0) || !XR_VERIFY(chunkSize > 0) ||
       !XR_VERIFY(
-- 
2.43.0


From 899b3a64707503640e7885e8048496744ba68192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 14/74] fix: repairing an index cuts off the partial record
 before writing over it

---
 vrs/IndexRecord.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 5836173..b3b26c8 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -1000,6 +1000,9 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
       // At this point, "absolutePosition" is the first byte after the last complete record.
       // Write the index record at that location, and ignore everything past that.
       BREAK_ON_ERROR(writeFile->setPos(absolutePosition));
+      // Cut off a possible partial record first: if we were interrupted while overwriting it, a mix
+      // of both records could look like a valid record.
+      BREAK_ON_ERROR(writeFile->truncate());
       uint32_t indexSize = previousRecordSize;
       BREAK_ON_ERROR(writeClassicIndexRecord(
           *writeFile, streamIds_, *diskIndex_, indexSize, compressor, kDefaultCompression));
-- 
2.43.0


From ef7bb7b70b585fda50059ba4bd97f74f2deb93d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 15/74] fix: rebuilding an index reports read errors, rather
 than cut the file there

---
 vrs/IndexRecord.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index b3b26c8..82b21d7 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -817,6 +817,13 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
   int error = 0;
   do {
     if (file_.read(recordHeader, recordHeaderSize) != 0) {
+      if (absolutePosition + static_cast<int64_t>(recordHeaderSize) <= totalFileSize_) {
+        // The header is there, but it can't be read: this is not a truncated file. Don't pretend that
+        // the rest of the file is missing, and don't ever modify the file on that basis.
+        error = file_.getLastError() != 0 ? file_.getLastError() : READ_ERROR;
+        XR_LOGE("Reindexing: record #{}. Read failed: {}", index_.size(), errorCodeToMessage(error));
+        return error;
+      }
       if (file_.getLastRWSize() == 0 && file_.isEof()) {
         XR_LOGI("Reindexing: record #{} End of file.", index_.size());
         break;
@@ -895,7 +902,7 @@ int IndexRecord::Reader::rebuildIndex(bool writeFixedIndex) {
             index_.size(),
             dataSize,
             errorCodeToMessage(error));
-        break;
+        return error; // the data is there: this is not a truncated file
       }
     }
     if (recordableTypeId != RecordableTypeId::VRSIndex &&
-- 
2.43.0


From 56a156f17d9dd118564fc1ef181cb68ee3e52476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 16/74] fix: failing to write a preallocated index, or the data
 before it, is an error

---
 vrs/IndexRecord.cpp | 51 ++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 82b21d7..ef83b19 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -1072,30 +1072,33 @@ int IndexRecord::Writer::finalizeClassicIndexRecord(
     // It's OK to possibly iterate, because copies are not real-time/capture operations.
     size_t retryIndex = firstCompressionPresetIndex(writtenRecords_.size());
     do {
-      if (file.setPos(fileHeader_.indexRecordOffset) == 0) {
-        uint32_t lastRecordSize = static_cast<uint32_t>(descriptionRecordToIndexRecord);
-        if (writeClassicIndexRecord(
-                file,
-                streamIds_,
-                writtenRecords_,
-                lastRecordSize,
-                compressor_,
-                kCompressionLevels[retryIndex],
-                preallocatedIndexRecordSize_) == 0) {
-          indexRecordWritten = true;
-          outLastRecordSize = lastRecordSize;
-        } else {
-          if (kLogStats) {
-            MAYBE_UNUSED size_t totalSize = sizeof(uint32_t) +
-                streamIds_.size() * sizeof(DiskStreamId) + sizeof(uint32_t) +
-                writtenRecords_.size() * sizeof(DiskRecordInfo);
-            XR_LOGW(
-                "Failed to use preallocated index. Wasted {} bytes reserved to compress {} bytes, "
-                "{:.2f}% estimated.",
-                preallocatedIndexRecordSize_,
-                totalSize,
-                preallocatedIndexRecordSize_ * 100.f / totalSize);
-          }
+      // If this fails, records might not have been written: the file can't be valid.
+      IF_ERROR_LOG_AND_RETURN(file.setPos(fileHeader_.indexRecordOffset));
+      uint32_t lastRecordSize = static_cast<uint32_t>(descriptionRecordToIndexRecord);
+      int status = writeClassicIndexRecord(
+          file,
+          streamIds_,
+          writtenRecords_,
+          lastRecordSize,
+          compressor_,
+          kCompressionLevels[retryIndex],
+          preallocatedIndexRecordSize_);
+      if (status == 0) {
+        indexRecordWritten = true;
+        outLastRecordSize = lastRecordSize;
+      } else if (status != TOO_MUCH_DATA) {
+        return status;
+      } else {
+        if (kLogStats) {
+          MAYBE_UNUSED size_t totalSize = sizeof(uint32_t) +
+              streamIds_.size() * sizeof(DiskStreamId) + sizeof(uint32_t) +
+              writtenRecords_.size() * sizeof(DiskRecordInfo);
+          XR_LOGW(
+              "Failed to use preallocated index. Wasted {} bytes reserved to compress {} bytes, "
+              "{:.2f}% estimated.",
+              preallocatedIndexRecordSize_,
+              totalSize,
+              preallocatedIndexRecordSize_ * 100.f / totalSize);
         }
       }
     } while (!indexRecordWritten && ++retryIndex < kCompressionLevels.size());
-- 
2.43.0


From 213bce7c140949b83a3aced1697fe3cf55e5b03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 17/74] fix: opening a file fails when its details can't be
 read

---
 vrs/RecordFileReader.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index ec8a7d0..ab5acf8 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -298,6 +298,10 @@ int RecordFileReader::doOpenFile(
           recordIndex_,
           fileHasAnIndex_) != 0) {
     error = readFileDetails(fileSpec, autoWriteFixedIndex, fileHeader);
+    if (error != 0) {
+      closeFile();
+      return error;
+    }
     // Maybe write the file's details to disk
     if (tryToUseCache && !detailsCacheFilePath.empty()) {
       detailsSaveThread_ = make_unique<thread>([detailsCacheFilePath, this]() {
@@ -331,6 +335,7 @@ int RecordFileReader::doOpenFile(
     for (const auto& record : recordIndex_) {
       if (streamRecordCounts_.size() > 5000) {
         XR_LOGE("Too many different stream IDs found in this file. Let's stop the carnage.");
+        closeFile();
         return INDEX_RECORD_ERROR;
       }
       streamRecordCounts_[record.streamId][record.recordType]++;
@@ -394,6 +399,12 @@ int RecordFileReader::readFileDetails(
           []() { return "Read description record"; });
       if (error != 0) {
         XR_LOGW("Error reading the file description record: {}", errorCodeToMessageWithCode(error));
+        // The file may be truncated or damaged, but if the data is there & can't be read, give up.
+        if (file_->getLastError() != 0 &&
+            descriptionRecordOffset + max(descriptionSize, fileHeader.recordHeaderSize) <=
+                file_->getTotalSize()) {
+          return error;
+        }
       }
       // In early files, the first user record comes after the description record, if any.
       if (descriptionRecordOffset == firstUserRecordOffset) {
@@ -401,6 +412,9 @@ int RecordFileReader::readFileDetails(
       }
     } else {
       XR_LOGW("Error accessing the file description record.");
+      if (descriptionRecordOffset < file_->getTotalSize()) {
+        return file_->getLastError();
+      }
     }
   } else {
     XR_LOGW("No description record.");
@@ -433,11 +447,16 @@ int RecordFileReader::readFileDetails(
       return INDEX_RECORD_ERROR;
     }
     XR_LOGW("Index incomplete. Rebuilding index of '{}'...", fileSpec.getEasyPath());
-    indexReader.rebuildIndex(autoWriteFixedIndex);
+    error = indexReader.rebuildIndex(autoWriteFixedIndex);
     if (!file_->isReadOnly()) {
       XR_LOGI("Re-opening file in read-only mode.");
       return doOpenFile(fileSpec, /* autoWriteFixedIndex */ false, /* checkSignatureOnly */ false);
     }
+    // REINDEXING_ERROR only means that the end of the file can't be used
+    if (error != 0 && error != REINDEXING_ERROR) {
+      XR_LOGE("Could not rebuild index: {}", errorCodeToMessageWithCode(error));
+      return error;
+    }
   }
   // Read all the tag records immediately
   unique_ptr<TagsRecordPlayer> tagsPlayer;
@@ -450,7 +469,10 @@ int RecordFileReader::readFileDetails(
       }
       XR_LOGD("Reading TagsRecord for {}", iter->streamId.getName());
       tagsPlayer->prepareToReadTagsFor(iter->streamId);
-      readRecord(*iter, tagsPlayer.get());
+      int status = readRecord(*iter, tagsPlayer.get());
+      if (status != 0 && file_->getLastError() != 0) {
+        return status; // the record may be damaged, but if it can't be read, give up
+      }
     }
   }
   // If there was any, remove all the TagsRecords from the index.
@@ -1124,7 +1146,7 @@ bool RecordFileReader::isRecordAvailableOrPrefetch(const IndexRecord::RecordInfo
   if (streamPlayer == nullptr) {
     return false;
   }
-  IF_ERROR_LOG_AND_RETURN(file_->setPos(recordInfo.fileOffset));
+  IF_ERROR_LOG_AND_RETURN_FALSE(file_->setPos(recordInfo.fileOffset));
   FileFormat::RecordHeader recordHeader;
   if (!file_->isAvailableOrPrefetch(sizeof(recordHeader))) {
     return false;
-- 
2.43.0


From 43babf95f2bd31945f20366f9a307524e8db407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 18/74] fix: reading a missing record is an error

---
 vrs/RecordFileReader.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index ab5acf8..31f0709 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -1205,9 +1205,6 @@ int RecordFileReader::readRecord(
   FileFormat::RecordHeader recordHeader;
   int error = file_->read(recordHeader);
   if (error != 0) {
-    if (file_->getLastRWSize() == 0 && file_->isEof()) {
-      return 0; // nothing read & end of file: we're good!
-    }
     XR_LOGE(
         "Record #{} Could not read record header: {}",
         static_cast<int>(&recordInfo - &getIndex()[0]),
-- 
2.43.0


From e590c7b676217c64226879582e2aeacefefef15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 19/74] fix: readRecord() reports the read errors that stream
 players can't

---
 vrs/RecordFileReader.cpp |  5 ++++-
 vrs/RecordReaders.cpp    | 16 ++++++++++++++++
 vrs/RecordReaders.h      |  9 +++++++++
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 31f0709..526ae3c 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -1310,8 +1310,11 @@ int RecordFileReader::readRecord(
       }
     }
     streamPlayer->processRecord(header, readSize);
+    // the stream player may have read more data, and had no way to report an error
+    error = reader->getReadError();
     reader->finish();
-    return streamPlayer->recordReadComplete(*this, recordInfo);
+    int status = streamPlayer->recordReadComplete(*this, recordInfo);
+    return status != 0 ? status : error;
   }
   return 0;
 }
diff --git a/vrs/RecordReaders.cpp b/vrs/RecordReaders.cpp
index d3155ef..3c1eeaf 100644
--- a/vrs/RecordReaders.cpp
+++ b/vrs/RecordReaders.cpp
@@ -43,6 +43,7 @@ RecordReader* RecordReader::init(FileHandler& file, uint32_t diskSize, uint32_t
   file_ = &file;
   remainingDiskBytes_ = diskSize;
   remainingUncompressedSize_ = expandedSize;
+  readError_ = 0;
   return this;
 }
 
@@ -63,6 +64,9 @@ int UncompressedRecordReader::read(DataReference& destination, uint32_t& outRead
   int error = destination.readFrom(*file_, outReadSize);
   remainingDiskBytes_ -= outReadSize;
   remainingUncompressedSize_ -= outReadSize;
+  if (readError_ == 0) {
+    readError_ = error;
+  }
   return error;
 }
 
@@ -102,6 +106,18 @@ int CompressedRecordReader::read(
     uint32_t destSize,
     uint32_t knownNeedSize,
     uint32_t& outReadSize) {
+  int error = readCompressed(dest, destSize, knownNeedSize, outReadSize);
+  if (readError_ == 0) {
+    readError_ = error;
+  }
+  return error;
+}
+
+int CompressedRecordReader::readCompressed(
+    void* dest,
+    uint32_t destSize,
+    uint32_t knownNeedSize,
+    uint32_t& outReadSize) {
   outReadSize = 0;
   do {
     bool readData = false;
diff --git a/vrs/RecordReaders.h b/vrs/RecordReaders.h
index 24d19d4..6c4d63b 100644
--- a/vrs/RecordReaders.h
+++ b/vrs/RecordReaders.h
@@ -86,6 +86,13 @@ class VRS_API RecordReader {
     return remainingUncompressedSize_;
   }
 
+  /// Tell if reading data for this record failed, because the file couldn't be read, or because the
+  /// data couldn't be decompressed. Useful when the code reading the data can't report that error.
+  /// @return 0 if no read operation failed, or the first error code.
+  int getReadError() const {
+    return readError_;
+  }
+
   int64_t getFileOffset() const;
 
   /// Tell if/how the record was compressed.
@@ -101,6 +108,7 @@ class VRS_API RecordReader {
   FileHandler* file_;
   uint32_t remainingDiskBytes_;
   uint32_t remainingUncompressedSize_;
+  int readError_{};
 };
 
 /// \brief RecordReader specialized to read uncompressed records. For VRS internal usage only.
@@ -122,6 +130,7 @@ class VRS_API CompressedRecordReader : public RecordReader {
 
  private:
   int read(void* dest, uint32_t destSize, uint32_t overallSize, uint32_t& outReadSize);
+  int readCompressed(void* dest, uint32_t destSize, uint32_t knownNeedSize, uint32_t& outReadSize);
 
   Decompressor decompressor_;
 };
-- 
2.43.0


From f85c2bb8890855d1969d92babd13369a42ce7d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 20/74] fix: a shortened chunk's missing data isn't read from
 the next chunk

---
 vrs/DiskFile.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 97475f5..36dacac 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -223,6 +223,12 @@ int DiskFileT<FileChunk>::read(void* buffer, size_t length) {
       return lastError_;
     }
     // we reached the end of a chunk, but we have more to read in the next one
+    int64_t chunkPos{};
+    if (readOnly_ && currentChunk_->tell(chunkPos) == 0 && chunkPos < currentChunk_->getSize()) {
+      // the chunk is now shorter than it should: what follows isn't in the next chunk
+      lastError_ = DISKFILE_NOT_ENOUGH_DATA;
+      return lastError_;
+    }
     if (openChunk(currentChunk_ + 1) != 0) {
       return lastError_; // we can't open the next chunk
     }
-- 
2.43.0


From 5ae86163bd2819e6a75aef4d96e70e56c9d40159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 21/74] fix: DiskFile::close() reports that completing an
 earlier chunk failed

---
 vrs/DiskFile.cpp | 16 +++++++++++-----
 vrs/DiskFile.h   |  1 +
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 36dacac..40fd78a 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -68,7 +68,8 @@ const string& DiskFileT<FileChunk>::getFileHandlerName() const {
 
 template <class FileChunk>
 int DiskFileT<FileChunk>::close() {
-  lastError_ = 0;
+  lastError_ = chunkError_;
+  chunkError_ = 0;
   for (auto& chunk : *chunks_) {
     if (chunk.isOpened()) {
       int error = chunk.close();
@@ -405,6 +406,9 @@ int DiskFileT<FileChunk>::closeChunk(FileChunk* chunk) {
   if (chunk->isOpened()) {
     error = chunk->close();
     filesOpenCount_--;
+    if (error != 0 && !readOnly_) {
+      chunkError_ = error;
+    }
   }
   return error;
 }
@@ -423,13 +427,15 @@ int DiskFileT<FileChunk>::addChunk(const string& chunkFilePath) {
   int64_t chunkOffset = 0;
   if (currentChunk_ != nullptr && currentChunk_->isOpened()) {
     int64_t pos{};
-    if ((lastError_ = currentChunk_->tell(pos)) != 0) {
-      return lastError_;
+    if ((lastError_ = currentChunk_->tell(pos)) == 0) {
+      currentChunk_->setSize(pos);
+      lastError_ = currentChunk_->flush();
     }
-    currentChunk_->setSize(pos);
-    if ((lastError_ = currentChunk_->flush()) != 0) {
+    if (lastError_ != 0) {
       // We're s***d: the last chunk is messed up, no point in trying to use the new one
+      chunkError_ = lastError_;
       newChunk.close();
+      filesOpenCount_--;
       os::remove(chunkFilePath);
       return lastError_;
     }
diff --git a/vrs/DiskFile.h b/vrs/DiskFile.h
index 79859ac..0e7c458 100644
--- a/vrs/DiskFile.h
+++ b/vrs/DiskFile.h
@@ -172,6 +172,7 @@ class VRS_API DiskFileT : public WriteFileHandler {
 
   size_t lastRWSize_{};
   int lastError_{};
+  int chunkError_{}; // when completing a chunk failed, its data might be lost: reported by close()
   bool readOnly_{true};
 };
 
-- 
2.43.0


From 6c29ae16183de653d9ead323424c7d40ae01248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:29 +0000
Subject: [PATCH 22/74] fix: opening a file fails when a description cut short
 can't be read

---
 vrs/RecordFileReader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 526ae3c..de15d51 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -401,8 +401,9 @@ int RecordFileReader::readFileDetails(
         XR_LOGW("Error reading the file description record: {}", errorCodeToMessageWithCode(error));
         // The file may be truncated or damaged, but if the data is there & can't be read, give up.
         if (file_->getLastError() != 0 &&
-            descriptionRecordOffset + max(descriptionSize, fileHeader.recordHeaderSize) <=
-                file_->getTotalSize()) {
+            (!file_->isEof() ||
+             descriptionRecordOffset + max(descriptionSize, fileHeader.recordHeaderSize) <=
+                 file_->getTotalSize())) {
           return error;
         }
       }
-- 
2.43.0


From b21596da8bd8b1a9ac780b86e632907ad699973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 23/74] fix: the background writer thread writes the records
 sent while it wasn't waiting for an event

---
 vrs/RecordFileWriter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 60e61fb..2bc36c0 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -410,9 +410,9 @@ void RecordFileWriter::backgroundWriterThreadActivity() {
         backgroundWriteCollectedRecord();
       }
     } else if (status == os::EventChannel::Status::TIMEOUT) {
-      if (autoCollectRecords(false)) {
-        backgroundWriteCollectedRecord();
-      }
+      autoCollectRecords(false);
+      // We might have missed the event for records sent while we were not waiting
+      backgroundWriteCollectedRecord();
     } else {
       XR_LOGE("Background thread quit on error");
       return;
-- 
2.43.0


From 84c02008f7069f1114c9f7caea120a8290a72685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 24/74] fix: streams are added to the index by two threads
 under a lock

---
 vrs/IndexRecord.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vrs/IndexRecord.h b/vrs/IndexRecord.h
index ea2fdf9..3384e3e 100644
--- a/vrs/IndexRecord.h
+++ b/vrs/IndexRecord.h
@@ -17,6 +17,7 @@
 #pragma once
 
 #include <deque>
+#include <mutex>
 #include <set>
 
 #include <vrs/Compressor.h>
@@ -159,7 +160,9 @@ class VRS_API Writer {
     return splitHeadFile_;
   }
 
+  /// Streams might be added by the background writer thread and by the writer's owner.
   void addStream(StreamId id) {
+    std::lock_guard<std::mutex> lock{addStreamMutex_};
     streamIds_.insert(id);
   }
 
@@ -190,6 +193,7 @@ class VRS_API Writer {
   FileFormat::RecordHeader splitIndexRecordHeader_;
   uint32_t preallocatedIndexRecordSize_{};
   Compressor compressor_;
+  std::mutex addStreamMutex_;
   set<StreamId> streamIds_;
   deque<IndexRecord::DiskRecordInfo> writtenRecords_;
   size_t writtenBytesCount_{}; // how many bytes have been written in a partial index
-- 
2.43.0


From 562a25823f389429afb91c1274bed3e42807ade8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 25/74] fix: a record with direct write data is complete before
 it can be collected

---
 vrs/RecordManager.cpp | 17 ++++++++++++++---
 vrs/RecordManager.h   |  6 ++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/vrs/RecordManager.cpp b/vrs/RecordManager.cpp
index 9ff891c..a3c02ea 100644
--- a/vrs/RecordManager.cpp
+++ b/vrs/RecordManager.cpp
@@ -57,6 +57,15 @@ Record* RecordManager::createRecord(
     Record::Type recordType,
     uint32_t formatVersion,
     const DataSource& data) {
+  return createRecord(timestamp, recordType, formatVersion, data, nullptr);
+}
+
+Record* RecordManager::createRecord(
+    double timestamp,
+    Record::Type recordType,
+    uint32_t formatVersion,
+    const DataSource& data,
+    std::unique_ptr<DirectWriteRecordData>&& directWriteData) {
   // Step 1: find a record to reuse, if there is any
   Record* record = nullptr;
   unique_lock<mutex> guard{mutex_};
@@ -90,6 +99,10 @@ Record* RecordManager::createRecord(
     record = new Record(*this);
   }
   record->set(timestamp, recordType, formatVersion, data, creationOrder);
+  if (directWriteData != nullptr) {
+    // the record must be complete before it can be collected by another thread
+    record->addDirectWriteRecordData(std::move(directWriteData));
+  }
   if (largeData) {
     guard.lock();
   }
@@ -119,9 +132,7 @@ Record* RecordManager::createUncompressedRecord(
     uint32_t formatVersion,
     const DataSource& data,
     std::unique_ptr<DirectWriteRecordData>&& directWriteData) {
-  Record* record = createRecord(timestamp, type, formatVersion, data);
-  record->addDirectWriteRecordData(std::move(directWriteData));
-  return record;
+  return createRecord(timestamp, type, formatVersion, data, std::move(directWriteData));
 }
 
 uint32_t RecordManager::purgeOldRecords(double oldestTimestamp, bool recycleBuffers) {
diff --git a/vrs/RecordManager.h b/vrs/RecordManager.h
index eb39890..f3b647d 100644
--- a/vrs/RecordManager.h
+++ b/vrs/RecordManager.h
@@ -119,6 +119,12 @@ class VRS_API RecordManager {
   }
 
  private:
+  Record* createRecord(
+      double timestamp,
+      Record::Type type,
+      uint32_t formatVersion,
+      const DataSource& data,
+      std::unique_ptr<DirectWriteRecordData>&& directWriteData);
   static size_t getAcceptableOverCapacity(size_t capacity);
   void recycle(Record* record);
 
-- 
2.43.0


From 28e3b9af901869be22ec1fabd48193fe6cfec7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 26/74] fix: purging records keeps the latest of equal times,
 and the records sorted

---
 vrs/RecordManager.cpp | 51 ++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/vrs/RecordManager.cpp b/vrs/RecordManager.cpp
index a3c02ea..b79dbc3 100644
--- a/vrs/RecordManager.cpp
+++ b/vrs/RecordManager.cpp
@@ -142,41 +142,32 @@ uint32_t RecordManager::purgeOldRecords(double oldestTimestamp, bool recycleBuff
   // and all TagsRecords
   Record* lastState = nullptr;
   Record* lastConfiguration = nullptr;
-  list<Record*> tagsRecords;
+  // activeRecords_ is sorted, so the newest records are the last ones we find
+  for (Record* record : activeRecords_) {
+    if (record->timestamp_ >= oldestTimestamp) {
+      break;
+    }
+    if (record->getRecordType() == Record::Type::STATE) {
+      lastState = record;
+    } else if (record->getRecordType() == Record::Type::CONFIGURATION) {
+      lastConfiguration = record;
+    }
+  }
   auto iter = activeRecords_.begin();
   while (iter != activeRecords_.end() && (*iter)->timestamp_ < oldestTimestamp) {
     Record* record = *iter;
-    activeRecords_.erase(iter);
-    if (record->getRecordType() == Record::Type::STATE &&
-        (lastState == nullptr || lastState->getTimestamp() < record->getTimestamp())) {
-      swap(record, lastState);
-    } else if (
-        record->getRecordType() == Record::Type::CONFIGURATION &&
-        (lastConfiguration == nullptr ||
-         lastConfiguration->getTimestamp() < record->getTimestamp())) {
-      swap(record, lastConfiguration);
-    } else if (record->getRecordType() == Record::Type::TAGS) {
-      tagsRecords.push_back(record);
-      record = nullptr;
+    if (record == lastState || record == lastConfiguration ||
+        record->getRecordType() == Record::Type::TAGS) {
+      ++iter; // keep these records where they are, as activeRecords_ must stay sorted
+      continue;
     }
-    if (record != nullptr) {
-      if (recycleBuffers && cache_.size() < maxCacheSize_) {
-        cache_.emplace_back(record);
-      } else {
-        delete record;
-      }
-      ++count;
+    iter = activeRecords_.erase(iter);
+    if (recycleBuffers && cache_.size() < maxCacheSize_) {
+      cache_.emplace_back(record);
+    } else {
+      delete record;
     }
-    iter = activeRecords_.begin();
-  }
-  if (lastState != nullptr) {
-    activeRecords_.emplace_front(lastState);
-  }
-  if (lastConfiguration != nullptr) {
-    activeRecords_.emplace_front(lastConfiguration);
-  }
-  if (!tagsRecords.empty()) {
-    activeRecords_.insert(activeRecords_.begin(), tagsRecords.begin(), tagsRecords.end());
+    ++count;
   }
   return count;
 }
-- 
2.43.0


From b1cab8a3fc5939a26ccf326c6e9a41fcad5b8912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 27/74] fix: starting a file waits for the purge in progress,
 which might drop records of that file

---
 vrs/RecordFileWriter.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 2bc36c0..b6c489a 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -477,22 +477,21 @@ void RecordFileWriter::backgroundPurgeThreadActivity() {
   while (!purgeThreadData_->shouldEndThread &&
          (status == os::EventChannel::Status::SUCCESS ||
           status == os::EventChannel::Status::TIMEOUT)) {
-    double waitDelay = 0;
-    if (purgeThreadData_->purgingPaused_ || purgeThreadData_->autoPurgeDelay <= 0) {
-      waitDelay = 1;
-    } else {
-      double maxTimestamp = numeric_limits<double>::lowest();
-      { // mutex guard
-        unique_lock<recursive_mutex> guard{purgeThreadData_->mutex};
+    double waitDelay = 1;
+    { // mutex guard
+      // hold the mutex while purging, so that when pausing, no purge is still in progress
+      unique_lock<recursive_mutex> guard{purgeThreadData_->mutex};
+      if (!purgeThreadData_->purgingPaused_ && purgeThreadData_->autoPurgeDelay > 0) {
+        double maxTimestamp = numeric_limits<double>::lowest();
         if (purgeThreadData_->maxTimestampProvider != nullptr) {
           maxTimestamp = purgeThreadData_->maxTimestampProvider();
         }
         waitDelay = purgeThreadData_->autoPurgeDelay;
-      } // mutex guard
-      if (waitDelay > 0 && maxTimestamp > numeric_limits<double>::lowest()) {
-        purgeOldRecords(maxTimestamp);
+        if (maxTimestamp > numeric_limits<double>::lowest()) {
+          purgeOldRecords(maxTimestamp);
+        }
       }
-    }
+    } // mutex guard
     os::EventChannel::Event event{};
     status = purgeThreadData_->purgeEventChannel.waitForEvent(event, waitDelay);
   }
@@ -515,6 +514,7 @@ int RecordFileWriter::createFileAsync(const string& filePath, bool splitHead) {
     XR_LOGD("Created file {}", filePath);
   }
   if (purgeThreadData_ != nullptr) {
+    unique_lock<recursive_mutex> guard{purgeThreadData_->mutex}; // wait for any purge in progress
     purgeThreadData_->purgingPaused_ = true;
   }
   if (queueByteSize_) {
-- 
2.43.0


From ff315d4f8d8fa37450a2502006a777ea9dd65319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:38 +0000
Subject: [PATCH 28/74] fix: a chunk handler isn't kept after its file's
 creation failed, nor replaced while writing

---
 vrs/RecordFileWriter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index b6c489a..be26263 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -539,9 +539,16 @@ int RecordFileWriter::createChunkedFile(
     const string& filePath,
     size_t maxChunkSizeMB,
     unique_ptr<NewChunkHandler>&& chunkHandler) {
+  if (writerThreadData_ != nullptr) {
+    return FILE_ALREADY_OPEN; // don't touch what the background thread is using
+  }
   setMaxChunkSizeMB(maxChunkSizeMB);
   newChunkHandler_ = std::move(chunkHandler);
-  return createFileAsync(filePath, true);
+  int error = createFileAsync(filePath, true);
+  if (error != 0) {
+    newChunkHandler_.reset(); // not for another file
+  }
+  return error;
 }
 
 void RecordFileWriter::setMaxChunkSizeMB(size_t maxChunkSizeMB) {
-- 
2.43.0


From b96cd38724a0d616caa86b51baf74e86b8407ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 29/74] fix: no chunk is announced when adding the next one
 failed

---
 vrs/RecordFileWriter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index be26263..75aa1ca 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -1047,13 +1047,15 @@ void RecordFileWriter::writeOneRecord(
   if (rwd.currentChunkSize > 0 && rwd.currentChunkSize + recordDiskSize >= maxChunkSize_) {
     NewChunkNotifier newChunkNotifier(*file_, newChunkHandler_);
     // AddChunk() preserves the current chunk on error.
-    XR_VERIFY(
+    const bool chunkAdded = XR_VERIFY(
         file_->addChunk() == 0,
         "Add chunk failed: {}, {}",
         file_->getLastError(),
         errorCodeToMessage(file_->getLastError()));
     rwd.currentChunkSize = 0; // reset, even if addChunk() failed to reduce retrying.
-    newChunkNotifier.notify(1); // offset chunk index by 1
+    if (chunkAdded) {
+      newChunkNotifier.notify(1); // offset chunk index by 1
+    }
   }
   if (queueByteSize_) {
     queueByteSize_->fetch_sub(record->getSize(), memory_order_relaxed);
-- 
2.43.0


From aa76555912d8daf472d761340d7261b90dd6a19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:36 +0000
Subject: [PATCH 30/74] fix: discard data read by a player that then refuses
 the record

---
 vrs/RecordFileReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index de15d51..4fa683a 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -1317,6 +1317,8 @@ int RecordFileReader::readRecord(
     int status = streamPlayer->recordReadComplete(*this, recordInfo);
     return status != 0 ? status : error;
   }
+  // the stream player might have read data before refusing the record
+  reader->finish();
   return 0;
 }
 
-- 
2.43.0


From cce240c84713bd845e01336525db4374f1c8a088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 31/74] fix: an atomic file is only renamed when all its data
 was written

---
 vrs/DiskFile.cpp | 38 +++++++++++++++++++++++++++++++++++++-
 vrs/DiskFile.h   | 13 +++++++++++++
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 40fd78a..7f72843 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -649,15 +649,51 @@ AtomicDiskFile::~AtomicDiskFile() {
 
 int AtomicDiskFile::create(const string& newFilePath, const FileSpec::Extras& options) {
   finalName_ = newFilePath;
+  writeError_ = 0;
   return DiskFile::create(os::getUniquePath(finalName_, 10), options);
 }
 
+int AtomicDiskFile::checkWrite(int status) {
+  if (status != 0 && writeError_ == 0) {
+    writeError_ = status;
+  }
+  return status;
+}
+
+int AtomicDiskFile::skipForward(int64_t offset) {
+  return checkWrite(DiskFile::skipForward(offset));
+}
+
+int AtomicDiskFile::setPos(int64_t offset) {
+  return checkWrite(DiskFile::setPos(offset));
+}
+
+int AtomicDiskFile::write(const void* buffer, size_t length) {
+  return checkWrite(DiskFile::write(buffer, length));
+}
+
+int AtomicDiskFile::overwrite(const void* buffer, size_t length) {
+  return checkWrite(DiskFile::overwrite(buffer, length));
+}
+
+int AtomicDiskFile::truncate() {
+  return checkWrite(DiskFile::truncate());
+}
+
 int AtomicDiskFile::close() {
   if (chunks_->empty() || finalName_.empty() || finalName_ == chunks_->front().getPath()) {
     return DiskFile::close();
   }
+  if (writeError_ != 0) {
+    abort();
+    return writeError_;
+  }
   string currentName = chunks_->front().getPath();
-  IF_ERROR_RETURN(DiskFile::close());
+  int closeStatus = DiskFile::close();
+  if (closeStatus != 0) {
+    os::remove(currentName); // the data might be incomplete
+    return closeStatus;
+  }
   int retry = 3;
   int status = 0;
   while ((status = os::rename(currentName, finalName_)) != 0 && os::isFile(currentName) &&
diff --git a/vrs/DiskFile.h b/vrs/DiskFile.h
index 0e7c458..b383492 100644
--- a/vrs/DiskFile.h
+++ b/vrs/DiskFile.h
@@ -210,12 +210,25 @@ class VRS_API AtomicDiskFile : public DiskFile {
   ~AtomicDiskFile() override;
 
   int create(const string& newFilePath, const FileSpec::Extras& options = {}) override;
+  /// Complete the file & give it its final name, unless writing its data failed, in which case the
+  /// incomplete data is deleted, and the error is returned.
   int close() override;
 
+  // Moving the position might require writing buffered data
+  int skipForward(int64_t offset) override;
+  int setPos(int64_t offset) override;
+
+  int write(const void* buffer, size_t length) override;
+  int overwrite(const void* buffer, size_t length) override;
+  int truncate() override;
+
   void abort();
 
  private:
+  int checkWrite(int status);
+
   string finalName_;
+  int writeError_{}; // first error while writing the file's data
 };
 
 } // namespace vrs
-- 
2.43.0


From ab8b4024b9e9cf615c8493db2b4a5fc794c64fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 32/74] fix: an incomplete details cache or compressed file
 doesn't replace the previous one

---
 vrs/DiskFile.cpp         | 17 ++++++++++++-----
 vrs/FileDetailsCache.cpp | 28 ++++++++++++++++++++++------
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 7f72843..56c6caf 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -514,12 +514,19 @@ int DiskFileT<FileChunk>::writeZstdFile(const string& path, const void* data, si
   if (dataSize > 0) {
     Compressor compressor;
     uint32_t frameSize = 0;
-    IF_ERROR_LOG_AND_RETURN(
-        compressor.startFrame(dataSize, CompressionPreset::ZstdMedium, frameSize));
-    IF_ERROR_RETURN(compressor.addFrameData(file, data, dataSize, frameSize));
-    IF_ERROR_RETURN(compressor.endFrame(file, frameSize));
+    int status = compressor.startFrame(dataSize, CompressionPreset::ZstdMedium, frameSize);
+    if (status == 0) {
+      status = compressor.addFrameData(file, data, dataSize, frameSize);
+    }
+    if (status == 0) {
+      status = compressor.endFrame(file, frameSize);
+    }
+    if (status != 0) {
+      file.abort();
+      return status;
+    }
   }
-  return SUCCESS;
+  return file.close();
 }
 
 template <class FileChunk>
diff --git a/vrs/FileDetailsCache.cpp b/vrs/FileDetailsCache.cpp
index a866cd5..aab23cc 100644
--- a/vrs/FileDetailsCache.cpp
+++ b/vrs/FileDetailsCache.cpp
@@ -220,17 +220,13 @@ int readIndexData(
   return 0;
 }
 
-} // namespace
-
-int write(
-    const string& cacheFile,
+int writeDetails(
+    AtomicDiskFile& file,
     const set<StreamId>& streamIds,
     const map<string, string>& fileTags,
     const map<StreamId, StreamTags>& streamTags,
     const vector<IndexRecord::RecordInfo>& recordIndex,
     bool fileHasIndex) {
-  AtomicDiskFile file;
-  IF_ERROR_LOG_AND_RETURN(file.create(cacheFile));
   FileFormat::FileHeader fileHeader;
   fileHeader.init(kMagicHeader1, kMagicHeader2, kMagicHeader3, kOriginalFileFormatVersion);
   if (!fileHasIndex) {
@@ -263,6 +259,26 @@ int write(
   return 0;
 }
 
+} // namespace
+
+int write(
+    const string& cacheFile,
+    const set<StreamId>& streamIds,
+    const map<string, string>& fileTags,
+    const map<StreamId, StreamTags>& streamTags,
+    const vector<IndexRecord::RecordInfo>& recordIndex,
+    bool fileHasIndex) {
+  AtomicDiskFile file;
+  IF_ERROR_LOG_AND_RETURN(file.create(cacheFile));
+  int status =
+      writeDetails(file, streamIds, fileTags, streamTags, recordIndex, fileHasIndex);
+  if (status != 0) {
+    file.abort(); // don't replace an existing file with an incomplete one
+    return status;
+  }
+  return file.close();
+}
+
 int read(
     const string& cacheFile,
     set<StreamId>& outStreamIds,
-- 
2.43.0


From 12eb156eefbe9300f18df23c79082d1f81d3faaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 33/74] fix: the file's index isn't sorted while it's saved in
 the details cache

---
 vrs/RecordFileReader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 4fa683a..be0d8fe 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -342,6 +342,11 @@ int RecordFileReader::doOpenFile(
     }
   }
   if (error == 0 && fileSpec.getExtraAsBool("sort_records", false)) {
+    if (detailsSaveThread_) {
+      // recordIndex_ can't be modified while it's being saved
+      detailsSaveThread_->join();
+      detailsSaveThread_.reset();
+    }
     sort(recordIndex_.begin(), recordIndex_.end(), fullRecordCompare);
   }
   return error;
-- 
2.43.0


From 01b7852bb696cea933c6e48cb0b254ce65a5cb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 34/74] fix: a video frame that could not be decoded isn't the
 basis of the next one

---
 vrs/utils/VideoFrameHandler.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/vrs/utils/VideoFrameHandler.cpp b/vrs/utils/VideoFrameHandler.cpp
index 826472d..2016d2b 100644
--- a/vrs/utils/VideoFrameHandler.cpp
+++ b/vrs/utils/VideoFrameHandler.cpp
@@ -40,6 +40,8 @@ int VideoFrameHandler::tryToDecodeFrame(
       (requestedKeyFrameTimestamp_ == decodedKeyFrameTimestamp_ &&
        requestedKeyFrameIndex_ == decodedKeyFrameIndex_ + 1);
   if (videoGoodState_) {
+    encodedFrame_.resize(contentBlock.getBlockSize());
+    IF_ERROR_LOG_AND_RETURN(reader->read(encodedFrame_));
     // Flush decoder when seeking backward to a keyframe within the same group.
     // This clears the DPB to avoid duplicate POC errors when re-decoding frames
     // we've already seen. Only flush for backward seeks, not forward reading.
@@ -52,14 +54,22 @@ int VideoFrameHandler::tryToDecodeFrame(
     decodedKeyFrameTimestamp_ = requestedKeyFrameTimestamp_;
     decodedKeyFrameIndex_ = requestedKeyFrameIndex_;
     // XR_LOGI("Reading frame {}/{}", requestedKeyFrameTimestamp_, requestedKeyFrameIndex_);
-    encodedFrame_.resize(contentBlock.getBlockSize());
-    IF_ERROR_LOG_AND_RETURN(reader->read(encodedFrame_));
+    int status = SUCCESS;
     if (decoder_) {
-      return decoder_->decode(encodedFrame_, outDecodedFrame, contentBlock.image());
+      status = decoder_->decode(encodedFrame_, outDecodedFrame, contentBlock.image());
+      if (status != SUCCESS) {
+        decoder_->flush();
+      }
+    } else {
+      decoder_ = DecoderFactory::get().makeDecoder(
+          encodedFrame_, outDecodedFrame, contentBlock.image(), decoderOptions_);
+      status = decoder_ ? SUCCESS : domainError(DecodeStatus::CodecNotFound);
+    }
+    if (status != SUCCESS) {
+      // The frame wasn't decoded, so the next frame can't be decoded either, unless it's a key frame
+      decodedKeyFrameIndex_ = kInvalidFrameIndex;
     }
-    decoder_ = DecoderFactory::get().makeDecoder(
-        encodedFrame_, outDecodedFrame, contentBlock.image(), decoderOptions_);
-    return decoder_ ? SUCCESS : domainError(DecodeStatus::CodecNotFound);
+    return status;
   }
   if (requestedKeyFrameTimestamp_ == decodedKeyFrameTimestamp_) {
     XR_LOGW(
-- 
2.43.0


From 6fd3d8219d3307e17fbcfa4076d1dcec517dd250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:33 +0000
Subject: [PATCH 35/74] fix: records between the frames of a video don't
 prevent from reading missing frames

---
 vrs/utils/VideoFrameHandler.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vrs/utils/VideoFrameHandler.cpp b/vrs/utils/VideoFrameHandler.cpp
index 2016d2b..540a44a 100644
--- a/vrs/utils/VideoFrameHandler.cpp
+++ b/vrs/utils/VideoFrameHandler.cpp
@@ -110,12 +110,15 @@ int VideoFrameHandler::readMissingFrames(
     uint32_t keyFrameIndex = getRequestedKeyFrameIndex();
     uint32_t frameIndex = 0;
     uint32_t framesToSkip = getFramesToSkip();
-    while (recordIndex < streamIndex.size() && frameIndex++ <= keyFrameIndex &&
-           streamIndex[recordIndex]->recordType == Record::Type::DATA) {
+    for (; recordIndex < streamIndex.size() && frameIndex <= keyFrameIndex; recordIndex++) {
+      if (streamIndex[recordIndex]->recordType != Record::Type::DATA) {
+        continue; // there may be state or configuration records between two frames
+      }
+      frameIndex++;
       if (framesToSkip > 0) {
-        framesToSkip--, recordIndex++;
+        framesToSkip--;
       } else {
-        int error = fileReader.readRecord(*streamIndex[recordIndex++]);
+        int error = fileReader.readRecord(*streamIndex[recordIndex]);
         if (error != 0) {
           return error;
         }
-- 
2.43.0


From 67951c7530d05ba34e08bebbb74a6ff45777c7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 36/74] fix: the last pixels of GREY10PACKED lines are scaled
 to 16 bits as the others

---
 vrs/utils/converters/Grey10PackedConverters.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vrs/utils/converters/Grey10PackedConverters.cpp b/vrs/utils/converters/Grey10PackedConverters.cpp
index b8514ce..8d9733c 100644
--- a/vrs/utils/converters/Grey10PackedConverters.cpp
+++ b/vrs/utils/converters/Grey10PackedConverters.cpp
@@ -174,11 +174,11 @@ bool convertGrey10PackedToGrey16(
     // copy leftover pixels, if any
     uint32_t w = total_quadruplets_in_row * 4;
     if (w < width) {
-      grey10[0] = grey10packed->p1();
+      grey10[0] = grey10packed->p1() << 6;
       if (++w < width) {
-        grey10[1] = grey10packed->p2();
+        grey10[1] = grey10packed->p2() << 6;
         if (++w < width) {
-          grey10[2] = grey10packed->p3();
+          grey10[2] = grey10packed->p3() << 6;
         }
       }
     }
-- 
2.43.0


From 56328817759f1b744881dc2994eb28bd28a3b09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 37/74] fix: GREY10PACKED conversions refuse buffers and lines
 too small for their pixels

---
 .../converters/Grey10PackedConverters.cpp     | 61 +++++++++++++------
 1 file changed, 41 insertions(+), 20 deletions(-)

diff --git a/vrs/utils/converters/Grey10PackedConverters.cpp b/vrs/utils/converters/Grey10PackedConverters.cpp
index 8d9733c..89e3f94 100644
--- a/vrs/utils/converters/Grey10PackedConverters.cpp
+++ b/vrs/utils/converters/Grey10PackedConverters.cpp
@@ -113,6 +113,11 @@ struct PixelGrey10Packed {
 };
 #pragma pack(pop)
 
+// How many bytes are needed for a line of 10 bit pixels packed in groups of 4 pixels
+uint64_t packedStride(uint32_t width) {
+  return (static_cast<uint64_t>(width) + 3) / 4 * sizeof(PixelGrey10Packed);
+}
+
 } // namespace
 
 namespace vrs::utils {
@@ -131,26 +136,34 @@ bool convertGrey10PackedToGrey16(
   }
 
   if (!XR_VERIFY(
-          srcSize >= srcStride * height,
+          srcSize >= static_cast<uint64_t>(srcStride) * height,
           "Source buffer too small. Got size {} but need {}",
           srcSize,
-          srcStride * height)) {
+          static_cast<uint64_t>(srcStride) * height)) {
     return false;
   }
 
   if (!XR_VERIFY(
-          srcStride >= (width + 3) / 4 * 5,
+          srcStride >= packedStride(width),
           "Source stride too small. Got {} but need {}",
           srcStride,
-          width * 10 / 8)) {
+          packedStride(width))) {
     return false;
   }
 
   if (!XR_VERIFY(
-          dstSize >= dstStride * height,
+          dstSize >= static_cast<uint64_t>(dstStride) * height,
           "Destination buffer too small. Got size {} but need {}",
           dstSize,
-          dstStride * height)) {
+          static_cast<uint64_t>(dstStride) * height)) {
+    return false;
+  }
+
+  if (!XR_VERIFY(
+          dstStride >= width * sizeof(uint16_t),
+          "Destination stride too small. Got {} but need {}",
+          dstStride,
+          width * sizeof(uint16_t))) {
     return false;
   }
 
@@ -201,26 +214,34 @@ bool convertGrey10PackedToGrey8(
   }
 
   if (!XR_VERIFY(
-          srcSize >= srcStride * height,
+          srcSize >= static_cast<uint64_t>(srcStride) * height,
           "Source buffer too small. Got size {} but need {}",
           srcSize,
-          srcStride * height)) {
+          static_cast<uint64_t>(srcStride) * height)) {
     return false;
   }
 
   if (!XR_VERIFY(
-          srcStride >= (width + 3) / 4 * 5,
+          srcStride >= packedStride(width),
           "Source stride too small. Got {} but need {}",
           srcStride,
-          width * 10 / 8)) {
+          packedStride(width))) {
     return false;
   }
 
   if (!XR_VERIFY(
-          dstSize >= dstStride * height,
+          dstSize >= static_cast<uint64_t>(dstStride) * height,
           "Destination buffer too small. Got size {} but need {}",
           dstSize,
-          dstStride * height)) {
+          static_cast<uint64_t>(dstStride) * height)) {
+    return false;
+  }
+
+  if (!XR_VERIFY(
+          dstStride >= width,
+          "Destination stride too small. Got {} but need {}",
+          dstStride,
+          width)) {
     return false;
   }
 
@@ -271,34 +292,34 @@ bool convertGrey10ToGrey10Packed(
   }
 
   if (!XR_VERIFY(
-          srcSize >= srcStride * height,
+          srcSize >= static_cast<uint64_t>(srcStride) * height,
           "Source buffer too small. Got size {} but need {}",
           srcSize,
-          srcStride * height)) {
+          static_cast<uint64_t>(srcStride) * height)) {
     return false;
   }
 
   if (!XR_VERIFY(
-          srcStride >= width * 2,
+          srcStride >= width * sizeof(uint16_t),
           "Source stride too small. Got {} but need {}",
           srcStride,
-          width * 2)) {
+          width * sizeof(uint16_t))) {
     return false;
   }
 
   if (!XR_VERIFY(
-          dstSize >= dstStride * height,
+          dstSize >= static_cast<uint64_t>(dstStride) * height,
           "Destination buffer too small. Got size {} but need {}",
           dstSize,
-          dstStride * height)) {
+          static_cast<uint64_t>(dstStride) * height)) {
     return false;
   }
 
   if (!XR_VERIFY(
-          dstStride >= (width + 3) / 4 * 5,
+          dstStride >= packedStride(width),
           "Destination stride too small. Got {} but need {}",
           dstStride,
-          (width + 3) / 4 * 5)) {
+          packedStride(width))) {
     return false;
   }
 
-- 
2.43.0


From 0058c2fcd219c46fa8c72611eaf0f0baddc273ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:07 +0000
Subject: [PATCH 38/74] fix: vectorized RAW10 conversion doesn't require an
 aligned output buffer

---
 vrs/utils/converters/Raw10ToGrey10Converter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/converters/Raw10ToGrey10Converter.cpp b/vrs/utils/converters/Raw10ToGrey10Converter.cpp
index b359c66..de360a9 100644
--- a/vrs/utils/converters/Raw10ToGrey10Converter.cpp
+++ b/vrs/utils/converters/Raw10ToGrey10Converter.cpp
@@ -139,7 +139,7 @@ void convertVectorized(
       fracts = _mm_mullo_epi16(mult, fracts);
       fracts = _mm_shuffle_epi8(fracts, fshuf);
       __m128i idx = _mm_or_si128(pixels, fracts);
-      _mm_stream_si128((__m128i*)dst, idx);
+      _mm_storeu_si128((__m128i*)dst, idx);
 
       src += kSrcIncrement;
       dst += kDstIncrement;
@@ -162,7 +162,7 @@ void convertVectorized(
         fracts = _mm_mullo_epi16(mult, fracts);
         fracts = _mm_shuffle_epi8(fracts, fshuf);
         __m128i idx = _mm_or_si128(pixels, fracts);
-        _mm_stream_si128((__m128i*)dst, idx);
+        _mm_storeu_si128((__m128i*)dst, idx);
 
         srcPtr += kSrcIncrement;
         dst += kDstIncrement;
-- 
2.43.0


From 9eca6d540aed41397df559a22bb92731e0801e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 39/74] fix: vectorized RAW10 conversion doesn't read past the
 end of its input buffer

---
 .../converters/Raw10ToGrey10Converter.cpp     | 53 ++++++++++++-------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/vrs/utils/converters/Raw10ToGrey10Converter.cpp b/vrs/utils/converters/Raw10ToGrey10Converter.cpp
index de360a9..4c75bc4 100644
--- a/vrs/utils/converters/Raw10ToGrey10Converter.cpp
+++ b/vrs/utils/converters/Raw10ToGrey10Converter.cpp
@@ -48,6 +48,20 @@ void convertPixelGroup(const uint8_t* RESTRICT src, uint16_t* RESTRICT dst) {
   dst[3] = uint16_t(src[3]) << 2 | ((r & 0xc0) >> 6);
 }
 
+// Convert a few groups of 4 pixels
+MAYBE_UNUSED void
+convertPixelGroups(const uint8_t* RESTRICT src, uint16_t* RESTRICT dst, size_t groupCount) {
+  for (size_t group = 0; group < groupCount; ++group, src += 5, dst += 4) {
+    convertPixelGroup(src, dst);
+  }
+}
+
+// Vectorized operations convert two groups of 4 pixels, so 10 bytes, but they read 16 bytes:
+// they can't be used for the last groups, to never read past the end of the source buffer.
+MAYBE_UNUSED size_t countVectorizedOperations(size_t groupCount) {
+  return groupCount * 5 >= 16 ? (groupCount * 5 - 6) / 10 : 0;
+}
+
 void convertVectorized(
     uint16_t* RESTRICT dst,
     const uint8_t* RESTRICT src,
@@ -68,10 +82,9 @@ void convertVectorized(
   constexpr int kDstIncrement = 8;
 
   if (contiguous) {
-    const int numFullOperations = (heightInPixels * widthInPixels) / 8;
-    // The width must be a multiple of 4, so there is at most one leftover pixel group.
-    bool hasLeftover = (heightInPixels * widthInPixels) % 8;
-    for (int op = 0; op < numFullOperations; ++op) {
+    const size_t numGroups = (heightInPixels * widthInPixels) / 4;
+    const size_t numFullOperations = countVectorizedOperations(numGroups);
+    for (size_t op = 0; op < numFullOperations; ++op) {
       const uint8x16_t encoded = vld1q_u8(src);
       const uint8x16_t r = vqtbl1q_u8(encoded, rshuf);
       const uint8x16_t mIn = vqtbl1q_u8(encoded, pshuf);
@@ -82,14 +95,13 @@ void convertVectorized(
       src += kSrcIncrement;
       dst += kDstIncrement;
     }
-    if (hasLeftover) {
-      convertPixelGroup(src, dst);
-    }
+    convertPixelGroups(src, dst, numGroups - 2 * numFullOperations);
   } else {
-    const int numOperationsPerRow = widthInPixels / 8;
+    const size_t numGroupsPerRow = widthInPixels / 4;
+    const size_t numOperationsPerRow = countVectorizedOperations(numGroupsPerRow);
     for (int row = 0; row < heightInPixels; ++row) {
       const uint8_t* RESTRICT srcPtr = src;
-      for (int op = 0; op < numOperationsPerRow; ++op) {
+      for (size_t op = 0; op < numOperationsPerRow; ++op) {
         const uint8x16_t encoded = vld1q_u8(srcPtr);
         const uint8x16_t r = vqtbl1q_u8(encoded, rshuf);
         const uint8x16_t mIn = vqtbl1q_u8(encoded, pshuf);
@@ -100,6 +112,9 @@ void convertVectorized(
         srcPtr += kSrcIncrement;
         dst += kDstIncrement;
       } // col loop
+      const size_t numGroupsLeft = numGroupsPerRow - 2 * numOperationsPerRow;
+      convertPixelGroups(srcPtr, dst, numGroupsLeft);
+      dst += 4 * numGroupsLeft;
       src += strideInBytes;
     } // row loop
   } // !contiguous
@@ -125,11 +140,9 @@ void convertVectorized(
   constexpr int kDstIncrement = 8;
 
   if (contiguous) {
-    const int numFullOperations = (heightInPixels * widthInPixels) / 8;
-    // The width must be a multiple of 4, so there is at most one leftover pixel group.
-    bool hasLeftover = (heightInPixels * widthInPixels) % 8 ? true : false;
-
-    for (int op = 0; op < numFullOperations; ++op) {
+    const size_t numGroups = (heightInPixels * widthInPixels) / 4;
+    const size_t numFullOperations = countVectorizedOperations(numGroups);
+    for (size_t op = 0; op < numFullOperations; ++op) {
       // load 8 pixels plus two fractional
       const __m128i encoded = _mm_lddqu_si128((__m128i*)(src));
       const __m128i r = _mm_shuffle_epi8(encoded, rshuf);
@@ -144,15 +157,14 @@ void convertVectorized(
       src += kSrcIncrement;
       dst += kDstIncrement;
     }
-    if (hasLeftover) {
-      convertPixelGroup(src, dst);
-    }
+    convertPixelGroups(src, dst, numGroups - 2 * numFullOperations);
   } else {
-    const int numOperationsPerRow = widthInPixels / 8;
+    const size_t numGroupsPerRow = widthInPixels / 4;
+    const size_t numOperationsPerRow = countVectorizedOperations(numGroupsPerRow);
     for (int row = 0; row < heightInPixels; ++row) {
       const uint8_t* RESTRICT srcPtr = src;
 
-      for (int op = 0; op < numOperationsPerRow; ++op) {
+      for (size_t op = 0; op < numOperationsPerRow; ++op) {
         // load 8 pixels plus two fractional
         const __m128i encoded = _mm_lddqu_si128((__m128i*)(srcPtr));
         const __m128i r = _mm_shuffle_epi8(encoded, rshuf);
@@ -167,6 +179,9 @@ void convertVectorized(
         srcPtr += kSrcIncrement;
         dst += kDstIncrement;
       } // col loop
+      const size_t numGroupsLeft = numGroupsPerRow - 2 * numOperationsPerRow;
+      convertPixelGroups(srcPtr, dst, numGroupsLeft);
+      dst += 4 * numGroupsLeft;
       src += strideInBytes;
     } // row loop
   } // !contiguous
-- 
2.43.0


From 3956d37ff1fb1f8fb709138cc1c28409bc1a350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 40/74] fix: reading a data layout doesn't allocate memory for
 more data than its record has

---
 vrs/ContentBlockReader.cpp       | 7 +++++--
 vrs/RecordFormatStreamPlayer.cpp | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index f54268d..39d1a02 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -444,7 +444,8 @@ bool DataLayoutBlockReader::readBlock(
   DataLayout& layout = *blockLayout_;
   vector<int8_t>& fixedData = layout.getFixedData();
   size_t fixedDataSize = layout.getFixedDataSizeNeeded();
-  if (!XR_VERIFY(fixedDataSize <= kMaxFixedDataSize)) {
+  if (!XR_VERIFY(fixedDataSize <= kMaxFixedDataSize) ||
+      !XR_VERIFY(fixedDataSize <= record.reader->getUnreadBytes())) {
     return false;
   }
   fixedData.resize(fixedDataSize);
@@ -452,7 +453,9 @@ bool DataLayoutBlockReader::readBlock(
   int readBlockStatus = record.reader->read(fixedData);
   if (readBlockStatus == 0) {
     size_t varDataSize = layout.getVarDataSizeFromIndex();
-    if (!XR_VERIFY(fixedDataSize + varDataSize <= kMaxRecordSize)) {
+    // never allocate memory for more data than the record has left
+    if (!XR_VERIFY(fixedDataSize + varDataSize <= kMaxRecordSize) ||
+        !XR_VERIFY(varDataSize <= record.reader->getUnreadBytes())) {
       return false;
     }
     varData.resize(varDataSize);
diff --git a/vrs/RecordFormatStreamPlayer.cpp b/vrs/RecordFormatStreamPlayer.cpp
index 0d1140f..da3b0eb 100644
--- a/vrs/RecordFormatStreamPlayer.cpp
+++ b/vrs/RecordFormatStreamPlayer.cpp
@@ -31,7 +31,7 @@ bool RecordFormatStreamPlayer::onUnsupportedBlock(
     const ContentBlock& contentBlock) {
   // read past the block, if we know its size
   size_t blockSize = contentBlock.getBlockSize();
-  if (blockSize != ContentBlock::kSizeUnknown) {
+  if (blockSize != ContentBlock::kSizeUnknown && blockSize <= record.reader->getUnreadBytes()) {
     vector<uint8_t> data(blockSize);
     record.reader->read(data);
     return true;
-- 
2.43.0


From 8f7db5c889406b65126f236b5c1b29e506b059f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 41/74] fix: reading a description doesn't allocate memory for
 more data than the file has

---
 vrs/DescriptionRecord.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/vrs/DescriptionRecord.cpp b/vrs/DescriptionRecord.cpp
index 5424af1..5b38f89 100644
--- a/vrs/DescriptionRecord.cpp
+++ b/vrs/DescriptionRecord.cpp
@@ -175,7 +175,8 @@ int writeString(WriteFileHandler& file, const string& str) {
 int readString(FileHandler& file, string& outString, uint32_t& dataSizeLeft) {
   uint32_t charCount = 0;
   IF_ERROR_LOG_AND_RETURN(readSize(file, charCount, dataSizeLeft));
-  if (dataSizeLeft < charCount) {
+  // never allocate memory for more data than the record or the file may have
+  if (dataSizeLeft < charCount || charCount > file.getTotalSize() - file.getPos()) {
     return NOT_ENOUGH_DATA;
   }
   dataSizeLeft -= charCount;
@@ -223,6 +224,9 @@ int readMap(FileHandler& file, map<StreamId, string>& outMap, uint32_t& sizeLeft
   IF_ERROR_LOG_AND_RETURN(readSize(file, count, sizeLeft));
   while (count-- > 0) {
     IndexRecord::DiskStreamId id;
+    if (sizeLeft < sizeof(id)) {
+      return NOT_ENOUGH_DATA;
+    }
     if (file.read(id) != 0) {
       return file.getLastError();
     }
@@ -257,6 +261,9 @@ int readMap(FileHandler& file, map<StreamId, StreamTags>& outMap, uint32_t& size
   IF_ERROR_LOG_AND_RETURN(readSize(file, count, sizeLeft));
   while (count-- > 0) {
     IndexRecord::DiskStreamId id;
+    if (sizeLeft < sizeof(id)) {
+      return NOT_ENOUGH_DATA;
+    }
     if (file.read(id) != 0) {
       return file.getLastError();
     }
-- 
2.43.0


From 38f2b064eab5f7b58dda6b6b94feb848e8790c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 42/74] fix: moving an asynchronous file chunk waits for its
 pending writes, which refer to it

---
 vrs/AsyncDiskFileChunk.cpp | 19 ++++++++++++-------
 vrs/AsyncDiskFileChunk.h   |  1 +
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/vrs/AsyncDiskFileChunk.cpp b/vrs/AsyncDiskFileChunk.cpp
index 4618cba..8827835 100644
--- a/vrs/AsyncDiskFileChunk.cpp
+++ b/vrs/AsyncDiskFileChunk.cpp
@@ -544,6 +544,9 @@ void AsyncBuffer::SigEvNotifyFunction(union sigval val) {
 #endif // IS_WINDOWS_PLATFORM / POSIX_AIO_SUPPORTED
 
 AsyncDiskFileChunk::AsyncDiskFileChunk(AsyncDiskFileChunk&& other) noexcept {
+  // Writes in progress refer to the object they were started from
+  other.waitForPendingWrites();
+
   file_ = std::move(other.file_);
   path_ = std::move(other.path_);
   offset_ = other.offset_;
@@ -853,17 +856,19 @@ int64_t AsyncDiskFileChunk::getOffset() const {
   return offset_;
 }
 
+void AsyncDiskFileChunk::waitForPendingWrites() {
+  std::unique_lock lock{buffers_mutex_};
+  size_t expected_free = buffers_.size() - (current_buffer_ ? 1 : 0);
+  // N.B. as buffers are freed they pump the queue to completion.
+  buffer_freed_cv_.wait(
+      lock, [this, expected_free] { return buffers_free_.size() == expected_free; });
+}
+
 int AsyncDiskFileChunk::flushWriteBuffer() {
   // Allow any other aio writes to complete. Note that `buffers_` may be empty because of
   // default construction and swapping.
   if (!buffers_.empty()) {
-    std::unique_lock lock{buffers_mutex_};
-    size_t expected_free = buffers_.size() - (current_buffer_ ? 1 : 0);
-    while (buffers_free_.size() != expected_free) {
-      // N.B. as buffers are freed they pump the queue to completion.
-      buffer_freed_cv_.wait(
-          lock, [this, expected_free] { return buffers_free_.size() == expected_free; });
-    }
+    waitForPendingWrites();
 
     int async_error = async_error_.exchange(0);
     if (async_error != 0) {
diff --git a/vrs/AsyncDiskFileChunk.h b/vrs/AsyncDiskFileChunk.h
index 87964e6..6682fef 100644
--- a/vrs/AsyncDiskFileChunk.h
+++ b/vrs/AsyncDiskFileChunk.h
@@ -245,6 +245,7 @@ class VRS_API AsyncDiskFileChunk {
         : buffer_(buffer), file_(file), offset_(offset), callback_(std::move(callback)) {}
   };
 
+  void waitForPendingWrites();
   int flushWriteBuffer();
   int ensureOpenNonDirect();
   int ensureOpenDirect();
-- 
2.43.0


From 32e34a9be125d941c94ea4a2b680fddbd9b5a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 43/74] fix: truncating a disk file drops the data buffered
 beyond its new size

---
 vrs/DiskFileChunk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vrs/DiskFileChunk.hpp b/vrs/DiskFileChunk.hpp
index 1c79b3e..916d67d 100644
--- a/vrs/DiskFileChunk.hpp
+++ b/vrs/DiskFileChunk.hpp
@@ -104,7 +104,8 @@ class DiskFileChunk {
                                       : DISKFILE_PARTIAL_WRITE_ERROR;
   }
   int truncate(int64_t newSize) {
-    if (os::fileSetSize(file_, newSize) == 0) {
+    // buffered data must not survive: neither data to write, nor data already read
+    if (::fflush(file_) == 0 && os::fileSetSize(file_, newSize) == 0) {
       size_ = newSize;
       return SUCCESS;
     }
-- 
2.43.0


From 1d9ba1139b220584947722add2b18a903e15cd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:49 +0000
Subject: [PATCH 44/74] fix: an asynchronous write that can't be submitted
 fails, rather than hang

---
 vrs/AsyncDiskFileChunk.cpp | 34 ++++++++++++++++++----------------
 vrs/AsyncDiskFileChunk.h   |  3 ++-
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/vrs/AsyncDiskFileChunk.cpp b/vrs/AsyncDiskFileChunk.cpp
index 8827835..d5d84df 100644
--- a/vrs/AsyncDiskFileChunk.cpp
+++ b/vrs/AsyncDiskFileChunk.cpp
@@ -457,7 +457,7 @@ int AsyncBuffer::start_write(
       io_errno = -1;
     }
   }
-  // The submission failed, call the cleanup function.
+  // If the submission failed, the completion callback won't be called.
   // Note that the return value of aio_write is a subset of the aio_return (which is what a normal
   // completion calls). `aio_write` will either return -1 and set perror (same as aio_return), or
   // will return 0
@@ -478,11 +478,7 @@ int AsyncBuffer::start_write(
 #endif
 
 #if POSIX_AIO_SUPPORTED() || IS_WINDOWS_PLATFORM()
-  if (io_return != 0) {
-    // If aio_write failed call the completion callback immediately to free the buffer
-    on_complete_(io_return, io_errno);
-  }
-  return static_cast<int>(io_return);
+  return io_return != 0 ? io_errno : SUCCESS;
 #endif
 }
 
@@ -754,7 +750,7 @@ int AsyncDiskFileChunk::write(const void* buffer, size_t count, size_t& outWritt
               });
           current_buffer_ = nullptr;
           file_position_ += towrite;
-          pump_buffers_locked();
+          pump_buffers_locked(lock);
 
           if (count != 0) {
             current_buffer_ = get_free_buffer_locked(lock);
@@ -973,17 +969,20 @@ void AsyncDiskFileChunk::complete_write(AsyncBuffer* buffer, ssize_t io_return,
   }
 
   if (io_errno != SUCCESS) {
-    int current_error = async_error_.load();
-    while (current_error == SUCCESS &&
-           !async_error_.compare_exchange_weak(current_error, io_errno)) {
-    }
+    set_async_error(io_errno);
   }
 
   {
     std::unique_lock lock{buffers_mutex_};
     free_buffer_locked(lock, buffer);
     buffers_writing_ -= 1;
-    pump_buffers_locked();
+    pump_buffers_locked(lock);
+  }
+}
+
+void AsyncDiskFileChunk::set_async_error(int error) {
+  int current_error = async_error_.load();
+  while (current_error == SUCCESS && !async_error_.compare_exchange_weak(current_error, error)) {
   }
 }
 
@@ -1020,15 +1019,16 @@ void AsyncDiskFileChunk::free_buffer_locked(
 
 void AsyncDiskFileChunk::pump_buffers() {
   std::unique_lock lock{buffers_mutex_};
-  pump_buffers_locked();
+  pump_buffers_locked(lock);
 }
 
-void AsyncDiskFileChunk::pump_buffers_locked() {
+void AsyncDiskFileChunk::pump_buffers_locked(std::unique_lock<std::mutex>& lock) {
   // You must own a lock on buffers_mutex_ to call this
 
   // Move as many queued buffers as we can to the writing state
   while (buffers_writing_ < iodepth_ && !buffers_queued_.empty()) {
     int result = SUCCESS;
+    AsyncBuffer* buffer = buffers_queued_.front().buffer_;
     {
       // N.B. item's storage in in buffers_queued_, don't `pop_front()` until we're done using
       // it
@@ -1036,10 +1036,12 @@ void AsyncDiskFileChunk::pump_buffers_locked() {
       result = item.buffer_->start_write(item.file_, item.offset_, std::move(item.callback_));
     }
     buffers_queued_.pop_front();
-    // Note that `async_error_` is set by the completion routine on a start_write failure, no need
-    // to modify it here
     if (result == SUCCESS) {
       buffers_writing_ += 1;
+    } else {
+      // N.B. we hold the lock: the completion routine, which needs it, can't be called from here
+      set_async_error(result);
+      free_buffer_locked(lock, buffer);
     }
   }
 }
diff --git a/vrs/AsyncDiskFileChunk.h b/vrs/AsyncDiskFileChunk.h
index 6682fef..dcf830a 100644
--- a/vrs/AsyncDiskFileChunk.h
+++ b/vrs/AsyncDiskFileChunk.h
@@ -251,12 +251,13 @@ class VRS_API AsyncDiskFileChunk {
   int ensureOpenDirect();
   int ensureOpen_(int requested_flags);
   void complete_write(AsyncBuffer* buffer, ssize_t io_return, int io_errno);
+  void set_async_error(int error);
   AsyncBuffer* get_free_buffer_locked(std::unique_lock<std::mutex>& lock);
   AsyncBuffer* get_free_buffer();
   void free_buffer(AsyncBuffer*& buffer);
   void free_buffer_locked(std::unique_lock<std::mutex>& lock, AsyncBuffer*& buffer);
   void pump_buffers();
-  void pump_buffers_locked();
+  void pump_buffers_locked(std::unique_lock<std::mutex>& lock);
   int alloc_write_buffers();
   int free_write_buffers();
   int init_parameters(const FileSpec::Extras& options);
-- 
2.43.0


From 5258e3c9d9135595666b1c251974f91374449286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 45/74] fix: a failure to write buffered data when returning to
 a chunk is reported

---
 vrs/DiskFile.cpp      | 3 +--
 vrs/DiskFileChunk.hpp | 6 ++++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 56c6caf..38b049a 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -370,8 +370,7 @@ template <class FileChunk>
 int DiskFileT<FileChunk>::openChunk(FileChunk* chunk) {
   if (chunk->isOpened()) {
     currentChunk_ = chunk;
-    chunk->rewind();
-    lastError_ = 0;
+    lastError_ = chunk->rewind(); // might need to write buffered data
   } else {
     lastError_ = chunk->open(readOnly_, options_);
     if (lastError_ == 0) {
diff --git a/vrs/DiskFileChunk.hpp b/vrs/DiskFileChunk.hpp
index 916d67d..7d319d1 100644
--- a/vrs/DiskFileChunk.hpp
+++ b/vrs/DiskFileChunk.hpp
@@ -80,8 +80,10 @@ class DiskFileChunk {
   bool isOpened() const {
     return file_ != nullptr;
   }
-  void rewind() const {
-    ::rewind(file_);
+  int rewind() {
+    int error = seek(0, SEEK_SET);
+    ::clearerr(file_);
+    return error;
   }
   int flush() {
     return ::fflush(file_) != 0 ? errno : SUCCESS;
-- 
2.43.0


From ee144be39207fd3dff771118428f47fb61744ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 46/74] fix: comparing payloads of different records doesn't
 read past their end

---
 vrs/utils/Validation.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/vrs/utils/Validation.cpp b/vrs/utils/Validation.cpp
index 7501f8c..cda7d0e 100644
--- a/vrs/utils/Validation.cpp
+++ b/vrs/utils/Validation.cpp
@@ -556,9 +556,8 @@ buildIdMap(FilteredFileReader& first, FilteredFileReader& second, map<StreamId,
 
 static bool
 isSameLine(const vector<char>& first, const vector<char>& second, size_t offset, size_t lineSize) {
-  if (offset + lineSize < first.size()) {
-    size_t endOffset = offset + lineSize;
-    for (size_t idx = offset; idx < endOffset; idx++) {
+  if (offset + lineSize > first.size()) {
+    for (size_t idx = offset; idx < first.size(); idx++) {
       if (first[idx] != second[idx]) {
         return false;
       }
-- 
2.43.0


From d560d43cb27507b98748c6d2adebb6a75f75e9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 47/74] fix: comparing files compares the format versions of
 records

---
 vrs/utils/Validation.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/vrs/utils/Validation.cpp b/vrs/utils/Validation.cpp
index cda7d0e..8e4b1fd 100644
--- a/vrs/utils/Validation.cpp
+++ b/vrs/utils/Validation.cpp
@@ -657,18 +657,23 @@ class RecordHolder : public StreamPlayer {
     outDataReference.useVector(buffer_);
     return true;
   }
-  void processRecord(const CurrentRecord& /*record*/, uint32_t /*readSize*/) override {
+  void processRecord(const CurrentRecord& record, uint32_t /*readSize*/) override {
     readCounter_++;
+    formatVersion_ = record.formatVersion;
   }
   const vector<char>& getBuffer() const {
     return buffer_;
   }
+  uint32_t getFormatVersion() const {
+    return formatVersion_;
+  }
   size_t getReadCounter() const {
     return readCounter_;
   }
 
  private:
   size_t readCounter_ = 0;
+  uint32_t formatVersion_ = 0;
   vector<char> buffer_;
 };
 
@@ -718,6 +723,11 @@ class RecordMaster : public StreamPlayer {
         if (holder_->getReadCounter() != readCounter_) {
           cerr << "Record counter is different.\n";
           diffCounter_++;
+        } else if (holder_->getFormatVersion() != record.formatVersion) {
+          cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed
+               << setprecision(3) << record.timestamp << " " << toString(record.recordType)
+               << " format version mismatch.\n";
+          diffCounter_++;
         } else if (holder_->getBuffer() != buffer_) {
           diffCounter_++;
           cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed
-- 
2.43.0


From 1aea95fdab92f4bb9d16996181ad64eaa6b3d418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 48/74] fix: copied copy options keep their compression, index
 and other parameters

---
 vrs/utils/FilterCopyHelpers.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vrs/utils/FilterCopyHelpers.cpp b/vrs/utils/FilterCopyHelpers.cpp
index 0d138cb..371969f 100644
--- a/vrs/utils/FilterCopyHelpers.cpp
+++ b/vrs/utils/FilterCopyHelpers.cpp
@@ -68,7 +68,11 @@ CopyOptions::CopyOptions(const CopyOptions& rhs)
       graceWindow{rhs.graceWindow},
       jsonOutput{rhs.jsonOutput},
       maxChunkSizeMB{rhs.maxChunkSizeMB},
-      mergeStreams{rhs.mergeStreams} {
+      mergeStreams{rhs.mergeStreams},
+      preallocateIndex{rhs.preallocateIndex},
+      miscParams{rhs.miscParams},
+      userCompressionPreset{rhs.userCompressionPreset},
+      defaultCompressionPreset{rhs.defaultCompressionPreset} {
   if (rhs.tagOverrider) {
     TagOverrider& thisTagOverrider = getTagOverrider();
     thisTagOverrider.fileTags = rhs.tagOverrider->fileTags;
@@ -84,6 +88,10 @@ CopyOptions& CopyOptions::operator=(const CopyOptions& rhs) {
     jsonOutput = rhs.jsonOutput;
     maxChunkSizeMB = rhs.maxChunkSizeMB;
     mergeStreams = rhs.mergeStreams;
+    preallocateIndex = rhs.preallocateIndex;
+    miscParams = rhs.miscParams;
+    userCompressionPreset = rhs.userCompressionPreset;
+    defaultCompressionPreset = rhs.defaultCompressionPreset;
     tagOverrider.reset();
     if (rhs.tagOverrider) {
       TagOverrider& thisTagOverrider = getTagOverrider();
-- 
2.43.0


From 59d7089b96053c9e47846a55ca9cf0a864a8e6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 49/74] fix: comparing files finds records that only one of
 them has

---
 vrs/utils/Validation.cpp | 68 +++++++++++++++++++++++++++-------------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/vrs/utils/Validation.cpp b/vrs/utils/Validation.cpp
index 8e4b1fd..bf1f90a 100644
--- a/vrs/utils/Validation.cpp
+++ b/vrs/utils/Validation.cpp
@@ -16,8 +16,10 @@
 
 #include <vrs/utils/Validation.h>
 
+#include <deque>
 #include <iomanip>
 #include <iostream>
+#include <map>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -689,8 +691,19 @@ class RecordMaster : public StreamPlayer {
         noError_{noError},
         id_{matchingId},
         reader_{matchingReader},
-        holder_{holder},
-        index_{reader_.getIndex(id_)} {}
+        holder_{holder} {}
+  /// Add a record to compare with: those of the stream that the filters select, in order.
+  void addMatchingRecord(const IndexRecord::RecordInfo& record) {
+    index_[record.recordType].push_back(&record);
+  }
+  /// Count the records to compare with for which no record was found.
+  size_t getUnmatchedCount() const {
+    size_t count = 0;
+    for (const auto& records : index_) {
+      count += records.second.size();
+    }
+    return count;
+  }
   bool processRecordHeader(const CurrentRecord& record, DataReference& outDataReference) override {
     buffer_.resize(record.recordSize);
     outDataReference.useVector(buffer_);
@@ -698,23 +711,15 @@ class RecordMaster : public StreamPlayer {
   }
   void processRecord(const CurrentRecord& record, uint32_t /*readSize*/) override {
     readCounter_++;
-    while (lastRecord_ < index_.size() && index_[lastRecord_]->timestamp < record.timestamp) {
-      lastRecord_++;
-    }
-    if (lastRecord_ >= index_.size() || index_[lastRecord_]->timestamp > record.timestamp) {
+    // records of the same type must be in the same order, with the same timestamps
+    deque<const IndexRecord::RecordInfo*>& records = index_[record.recordType];
+    if (records.empty() || records.front()->timestamp != record.timestamp) {
       diffCounter_++;
-      return;
-    }
-    // we have the first record with the same timestamp, but is the type the right one?
-    size_t typeIndex = lastRecord_;
-    while (typeIndex < index_.size() && index_[typeIndex]->timestamp <= record.timestamp &&
-           index_[typeIndex]->recordType != record.recordType) {
-      typeIndex++;
-    }
-    if (typeIndex < index_.size() && index_[typeIndex]->timestamp <= record.timestamp &&
-        index_[typeIndex]->recordType == record.recordType) {
+    } else {
       // found a match, read that record & compare the buffers
-      if (reader_.readRecord(*index_[typeIndex]) != 0) {
+      const IndexRecord::RecordInfo& matchingRecord = *records.front();
+      records.pop_front();
+      if (reader_.readRecord(matchingRecord) != 0) {
         noError_ = false;
         cerr << "Record " << record.streamId.getNumericName() << " t: " << fixed << setprecision(3)
              << record.timestamp << " " << toString(record.recordType)
@@ -753,8 +758,7 @@ class RecordMaster : public StreamPlayer {
   StreamId id_;
   RecordFileReader& reader_;
   RecordHolder* holder_;
-  const vector<const IndexRecord::RecordInfo*>& index_;
-  size_t lastRecord_{};
+  map<Record::Type, deque<const IndexRecord::RecordInfo*>> index_;
   size_t readCounter_{};
   vector<char> buffer_;
 };
@@ -767,7 +771,6 @@ bool compareVRSfiles(
     const CopyOptions& copyOptions) {
   double startTimestamp{}, endTimestamp{};
   first.getConstrainedTimeRange(startTimestamp, endTimestamp);
-  first.preRollConfigAndState(); // make sure to copy most recent config & state records
 
   ThrottledWriter throttledWriter(copyOptions);
   throttledWriter.initTimeRange(startTimestamp, endTimestamp, &first.reader);
@@ -805,6 +808,7 @@ bool compareVRSfiles(
   bool noError = true;
   vector<unique_ptr<RecordHolder>> holders;
   vector<unique_ptr<RecordMaster>> checkers;
+  map<StreamId, RecordMaster*> checkersMap;
   for (const auto& iter : idMap) {
     holders.emplace_back(make_unique<RecordHolder>());
     second.reader.setStreamPlayer(iter.second, holders.back().get());
@@ -812,17 +816,39 @@ bool compareVRSfiles(
         make_unique<RecordMaster>(
             diffCounter, noError, iter.second, second.reader, holders.back().get()));
     first.reader.setStreamPlayer(iter.first, checkers.back().get());
-  }
+    checkersMap[iter.second] = checkers.back().get();
+  }
+  // each of the records selected in the second file must have its equivalent in the first file
+  double secondStartTimestamp{}, secondEndTimestamp{};
+  second.getConstrainedTimeRange(secondStartTimestamp, secondEndTimestamp);
+  const RecordReaderFunc addMatchingRecord =
+      [&checkersMap](RecordFileReader&, const IndexRecord::RecordInfo& record) {
+        checkersMap[record.streamId]->addMatchingRecord(record);
+        return true;
+      };
+  second.preRollConfigAndState(addMatchingRecord);
+  second.iterateAdvanced(addMatchingRecord);
+  // make sure to compare the most recent config & state records
+  first.preRollConfigAndState(
+      [&noError](RecordFileReader& recordFileReader, const IndexRecord::RecordInfo& record) {
+        noError &= (recordFileReader.readRecord(record) == 0);
+        return noError;
+      });
+  const bool preRollNoError = noError;
   size_t decodedCount = 0;
   double timeSpent = 0;
   double cpuTime = 0;
   if (!iterateChecker(first, decodedCount, noError, &throttledWriter, timeSpent, cpuTime)) {
     return false;
   }
+  noError &= preRollNoError;
   if (!noError) {
     cerr << "Errors happened while reading the files\n";
   }
   throttledWriter.closeFile();
+  for (const auto& checker : checkers) {
+    diffCounter += static_cast<int>(checker->getUnmatchedCount());
+  }
   return noError && diffCounter == 0;
 }
 
-- 
2.43.0


From 9410a74607dc6d2fc35ee175ebae5da02a58c34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 50/74] fix: bucket decimation moves on to the bucket of each
 record past the current one

---
 vrs/utils/cli/DefaultDecimator.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/cli/DefaultDecimator.cpp b/vrs/utils/cli/DefaultDecimator.cpp
index ecaed27..fcb3b98 100644
--- a/vrs/utils/cli/DefaultDecimator.cpp
+++ b/vrs/utils/cli/DefaultDecimator.cpp
@@ -155,10 +155,13 @@ bool DefaultDecimator::decimate(
     if (record.timestamp - bucketCurrentTimestamp_ > bucketMaxTimestampDelta_) {
       // no chance of finding better candidates, we need to "submit" this bucket
       inOutKeepGoing = submitBucket(recordReaderFunc, throttledWriter);
-      bucketCurrentTimestamp_ += bucketInterval_;
+      // move on to the first bucket that this record isn't past the limit of
+      bucketCurrentTimestamp_ += bucketInterval_ *
+          ceil((record.timestamp - bucketCurrentTimestamp_ - bucketMaxTimestampDelta_) /
+               bucketInterval_);
     }
     // does this frame qualify for the bucket?
-    else if (fabs(record.timestamp - bucketCurrentTimestamp_) <= bucketMaxTimestampDelta_) {
+    if (fabs(record.timestamp - bucketCurrentTimestamp_) <= bucketMaxTimestampDelta_) {
       // can we find a closer candidate for the bucket for this stream id?
       const auto it = bucketCandidates_.find(record.streamId);
       if (it == bucketCandidates_.end() ||
-- 
2.43.0


From 8d23f1415144a69b9e80432e2c7ee8f583f08402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 51/74] fix: bucket decimation keeps the record nearest to the
 time of its bucket

---
 vrs/utils/cli/DefaultDecimator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/utils/cli/DefaultDecimator.cpp b/vrs/utils/cli/DefaultDecimator.cpp
index fcb3b98..acfdfd8 100644
--- a/vrs/utils/cli/DefaultDecimator.cpp
+++ b/vrs/utils/cli/DefaultDecimator.cpp
@@ -165,7 +165,7 @@ bool DefaultDecimator::decimate(
       // can we find a closer candidate for the bucket for this stream id?
       const auto it = bucketCandidates_.find(record.streamId);
       if (it == bucketCandidates_.end() ||
-          fabs(it->second->timestamp - bucketCurrentTimestamp_) <
+          fabs(it->second->timestamp - bucketCurrentTimestamp_) >
               fabs(record.timestamp - bucketCurrentTimestamp_)) {
         bucketCandidates_[record.streamId] = &record;
       }
-- 
2.43.0


From 0632b5820c09c2704b85cd5492715b438d9e0df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 52/74] fix: parsing a stream's numeric name stays within the
 text and its numbers within 16 bits

---
 vrs/StreamId.cpp | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/vrs/StreamId.cpp b/vrs/StreamId.cpp
index 2332535..907a690 100644
--- a/vrs/StreamId.cpp
+++ b/vrs/StreamId.cpp
@@ -16,6 +16,7 @@
 
 #include <vrs/StreamId.h>
 
+#include <charconv>
 #include <string>
 #include <unordered_map>
 
@@ -182,29 +183,21 @@ const unordered_map<RecordableTypeId, const char*>& getRecordableTypeIdRegistry(
 }
 
 StreamId fromNumericNameWithSeparator(string_view numericName, uint8_t separator) {
-  // Quick parsing of "NNN-DDD", two uint numbers separated by a separator.
-  const auto* s = reinterpret_cast<const uint8_t*>(numericName.data());
-  const auto* end = s + numericName.size();
-  if (*s < '0' || *s > '9') {
-    return {}; // must start with a digit
+  // Quick parsing of "NNN-DDD", two uint16_t numbers separated by a separator.
+  const char* s = numericName.data();
+  const char* end = s + numericName.size();
+  uint16_t recordableTypeId = 0;
+  auto result = from_chars(s, end, recordableTypeId);
+  if (result.ec != errc{} || result.ptr == end || *result.ptr != static_cast<char>(separator)) {
+    return {}; // must start with a number, followed by the separator
   }
-  int recordableTypeId = 0;
-  for (; *s >= '0' && *s <= '9'; ++s) {
-    recordableTypeId = 10 * recordableTypeId + (*s - '0');
+  s = result.ptr + 1;
+  uint16_t index = 0;
+  result = from_chars(s, end, index);
+  if (result.ec != errc{} || result.ptr != end) {
+    return {}; // must end with the instance id
   }
-  if (*s++ == separator) {
-    if (s >= end || *s < '0' || *s > '9') {
-      return {}; // instance id must start with a digit
-    }
-    uint16_t index = 0;
-    while (s < end && *s >= '0' && *s <= '9') {
-      index = 10 * index + (*s++ - '0');
-    }
-    if (s == end) {
-      return {static_cast<RecordableTypeId>(recordableTypeId), index};
-    }
-  }
-  return {};
+  return {static_cast<RecordableTypeId>(recordableTypeId), index};
 }
 
 } // namespace
-- 
2.43.0


From 48be5b068e8311593d1ba8fa208efb2e1979b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 53/74] fix: telling a path from a uri doesn't read past the
 end of the text

---
 vrs/FileSpec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index e800228..fa4af42 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -183,6 +183,7 @@ int FileSpec::fromPathJsonUri(string_view pathJsonUri, string_view defaultFileHa
     // Check if there might be URI parameter in the path, and try to parse it that way.
     auto uriParams = pathJsonUri.find('?');
     bool hasParams = uriParams != string_view::npos && uriParams > 1 &&
+        uriParams + 1 < pathJsonUri.size() &&
         isalpha(static_cast<unsigned char>(pathJsonUri[uriParams + 1])) &&
         pathJsonUri.find('=', uriParams + 2) != string_view::npos;
     fileHandlerName =
-- 
2.43.0


From 09ce19ca912e3ec58590872ae1f49bd18fb9c570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 54/74] fix: the path form of a file spec is only a plain path
 if it's read back as that path

---
 vrs/FileSpec.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index fa4af42..a1de361 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -209,7 +209,12 @@ int FileSpec::fromPathJsonUri(string_view pathJsonUri, string_view defaultFileHa
 string FileSpec::toPathJsonUri() const {
   if (isDiskFile()) {
     if (chunks.size() == 1 && extras.empty()) {
-      return chunks.front();
+      // Only use a plain path if it won't be interpreted as something else.
+      FileSpec spec;
+      if (spec.fromPathJsonUri(chunks.front()) == SUCCESS && spec.isDiskFile() &&
+          spec.chunks == chunks && spec.extras.empty()) {
+        return chunks.front();
+      }
     }
     return empty() ? "" : toJson();
   }
-- 
2.43.0


From 4c1835bab34d2176fdd173680e1fa9be5e5a25a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 55/74] fix: uris may contain non-ascii characters

---
 vrs/FileSpec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index a1de361..8748341 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -513,7 +513,7 @@ int FileSpec::urldecode(string_view in, string& out) {
       c = (xdigitToChar(in[p + 1]) << 4) | xdigitToChar(in[p + 2]);
       p += 2;
     }
-    if (c < 0x20) {
+    if (static_cast<unsigned char>(c) < 0x20) {
       XR_LOGW("Invalid character while decoding input: {} in {}", c, in);
       return INVALID_URI_VALUE;
     }
-- 
2.43.0


From 3e031262e4b4a0f78f36c371e849a075a2d7a005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:55 +0000
Subject: [PATCH 56/74] fix: strings with null characters are read back whole
 from json

---
 vrs/FileSpec.cpp          | 4 +++-
 vrs/helpers/Rapidjson.hpp | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index 8748341..2d4f81a 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -238,7 +238,9 @@ bool FileSpec::fromJson(string_view jsonStr) {
       if (iter->value.IsString() && strcmp(key, kChunkField) != 0 &&
           strcmp(key, kFileHandlerField) != 0 && strcmp(key, kFileNameField) != 0 &&
           strcmp(key, kUriField) != 0) {
-        extras.emplace(key, iter->value.GetString());
+        extras.emplace(
+            string(key, iter->name.GetStringLength()),
+            string(iter->value.GetString(), iter->value.GetStringLength()));
       }
     }
     getJVector(chunks, document, kChunkField);
diff --git a/vrs/helpers/Rapidjson.hpp b/vrs/helpers/Rapidjson.hpp
index e3e7898..e6b0cf7 100644
--- a/vrs/helpers/Rapidjson.hpp
+++ b/vrs/helpers/Rapidjson.hpp
@@ -225,7 +225,7 @@ inline bool getFromJValue(const JValue& value, T& outValue) {
 template <>
 inline bool getFromJValue(const JValue& value, string& outValue) {
   if (value.IsString()) {
-    outValue = value.GetString();
+    outValue.assign(value.GetString(), value.GetStringLength());
     return true;
   }
   return false;
@@ -270,7 +270,7 @@ inline bool getJMap(map<string, T>& outMap, const JValue& piece, string_view nam
          ++itr) {
       T value;
       if (getFromJValue(itr->value, value)) {
-        outMap[itr->name.GetString()] = value;
+        outMap[string(itr->name.GetString(), itr->name.GetStringLength())] = value;
       }
     }
     return true;
@@ -299,7 +299,7 @@ inline bool getJVector(vector<T>& outVector, const JValue& piece, string_view na
 inline bool getJString(string& outString, const JValue& piece, string_view name) {
   const JValue::ConstMemberIterator member = piece.FindMember(jStringRef(name));
   if (member != piece.MemberEnd() && member->value.IsString()) {
-    outString = member->value.GetString();
+    outString.assign(member->value.GetString(), member->value.GetStringLength());
     return true;
   }
   outString.clear();
-- 
2.43.0


From 300265adafc414502de48b6070f586c2486aa581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 57/74] fix: custom content blocks of different formats are
 different

---
 vrs/RecordFormat.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index 6c29897..2d6ef93 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -1107,6 +1107,8 @@ bool ContentBlock::operator==(const ContentBlock& rhs) const {
       return imageSpec_ == rhs.imageSpec_;
     case ContentType::AUDIO:
       return audioSpec_ == rhs.audioSpec_;
+    case ContentType::CUSTOM:
+      return customContentBlockFormat_ == rhs.customContentBlockFormat_;
     default:
       // non-specific content type
       return true;
-- 
2.43.0


From 5bbca8cb24c5aad50dac4ea4a6b6be77fad56d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 58/74] fix: long codec names are read back from record formats

---
 vrs/RecordFormat.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index 2d6ef93..fcdbae5 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -203,6 +203,7 @@ string sanitizeCustomContentBlockFormatName(const string& name) {
 }
 
 constexpr string_view kCustomContentBlockFormat = "format=";
+constexpr string_view kCodecName = "codec=";
 constexpr string_view kRecordFormatTagPrefix = "RF:";
 constexpr string_view kDataLayoutTagPrefix = "DL:";
 constexpr char kFieldSeparator = ':';
@@ -412,9 +413,9 @@ void ImageContentBlockSpec::set(ContentParser& parser) {
       } else if (firstChar == 's' && stride2_ == 0 && sscanf(cstr, "stride_2=%u", &stride) == 1) {
         stride2_ = stride;
       } else if (
-          firstChar == 'c' && codecName_.empty() && parser.str.size() < text.size() &&
-          sscanf(cstr, "codec=%s", text.data()) == 1) {
-        codecName_ = unescapeString(text.data(), text.size());
+          firstChar == 'c' && codecName_.empty() && helpers::startsWith(parser.str, kCodecName)) {
+        codecName_ =
+            unescapeString(cstr + kCodecName.size(), parser.str.size() - kCodecName.size());
       } else if (firstChar == 'c' && sscanf(cstr, "codec_quality=%u", &quality) == 1) {
         uint8_t q = static_cast<uint8_t>(quality);
         codecQuality_ = isQualityValid(q) ? q : kQualityUndefined;
-- 
2.43.0


From c65754781c38a2f11647b82ed6ee2dd54032c143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 59/74] fix: the sizes of large raw images don't overflow

---
 vrs/RecordFormat.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index fcdbae5..d001f7a 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -600,7 +600,7 @@ uint32_t ImageContentBlockSpec::getDefaultStride2() const {
   switch (pixelFormat_) {
     case PixelFormat::YUV_I420_SPLIT:
       // second and third planes use one byte per 2-2 squares: half the width, half the height
-      return (getWidth() + 1) / 2;
+      return getWidth() / 2 + getWidth() % 2;
     case PixelFormat::YUV_420_NV21:
     case PixelFormat::YUV_420_NV12:
       // one pair U+V for each 2x2 block of pixels
@@ -620,10 +620,10 @@ uint32_t ImageContentBlockSpec::getPlaneHeight(uint32_t planeIndex) const {
   switch (pixelFormat_) {
     case PixelFormat::YUV_I420_SPLIT:
       // second and third planes use one byte per 2-2 squares: half the width, half the height
-      return (getHeight() + 1) / 2;
+      return getHeight() / 2 + getHeight() % 2;
     case PixelFormat::YUV_420_NV21:
     case PixelFormat::YUV_420_NV12:
-      return (getHeight() + 1) / 2;
+      return getHeight() / 2 + getHeight() % 2;
     default:
       return 0;
   }
@@ -638,11 +638,13 @@ size_t ImageContentBlockSpec::getRawImageSize() const {
     size_t size = 0;
     const uint32_t planeCount = getPlaneCount();
     for (uint32_t plane = 0; plane < planeCount; ++plane) {
-      size += getPlaneStride(plane) * getPlaneHeight(plane);
-    }
-    if (size > 0) {
-      return size;
+      const size_t stride = getPlaneStride(plane);
+      if (stride == 0) {
+        return ContentBlock::kSizeUnknown; // unknown, or too large to be represented
+      }
+      size += stride * getPlaneHeight(plane);
     }
+    return size;
   }
   return ContentBlock::kSizeUnknown;
 }
@@ -660,11 +662,16 @@ uint32_t ImageContentBlockSpec::getStride() const {
   return stride_ > 0 ? stride_ : getDefaultStride();
 }
 
+// strides that can't be represented are treated as unknown
+static uint32_t toStride(size_t stride) {
+  return stride <= numeric_limits<uint32_t>::max() ? static_cast<uint32_t>(stride) : 0;
+}
+
 uint32_t ImageContentBlockSpec::getDefaultStride() const {
   // Try to compute the stride using the bytes per pixel.
   size_t bytesPerPixel = getBytesPerPixel();
   if (bytesPerPixel != ContentBlock::kSizeUnknown) {
-    return getWidth() * static_cast<uint32_t>(bytesPerPixel);
+    return toStride(getWidth() * bytesPerPixel);
   }
   switch (pixelFormat_) {
     case PixelFormat::YUV_I420_SPLIT:
@@ -676,13 +683,13 @@ uint32_t ImageContentBlockSpec::getDefaultStride() const {
     case PixelFormat::RAW10_BAYER_BGGR:
     case PixelFormat::GREY10PACKED: {
       // groups of 4 pixels use 5 bytes, sharing the 5th for their last two bits
-      uint32_t fourPixelsGroupCount = (getWidth() + 3) / 4;
-      return fourPixelsGroupCount * 5;
+      size_t fourPixelsGroupCount = (static_cast<size_t>(getWidth()) + 3) / 4;
+      return toStride(fourPixelsGroupCount * 5);
     }
     case PixelFormat::YUY2: {
       // groups of 2 pixels store their data in 4 bytes
-      uint32_t twoPixelsGroupCount = (getWidth() + 1) / 2;
-      return twoPixelsGroupCount * 4;
+      size_t twoPixelsGroupCount = (static_cast<size_t>(getWidth()) + 1) / 2;
+      return toStride(twoPixelsGroupCount * 4);
     }
     case PixelFormat::UNDEFINED: {
       return 0;
-- 
2.43.0


From 7f7db28c44b97c1514a64651e0999f8e18ef6e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 60/74] fix: audio sample frames may use more than 255 bytes

---
 tools/vrsplayer/AudioPlayer.cpp   | 2 +-
 vrs/ContentBlockReader.cpp        | 2 +-
 vrs/RecordFormat.cpp              | 6 +++---
 vrs/RecordFormat.h                | 2 +-
 vrs/utils/AudioBlock.h            | 2 +-
 vrs/utils/AudioTrackExtractor.cpp | 8 ++------
 6 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/tools/vrsplayer/AudioPlayer.cpp b/tools/vrsplayer/AudioPlayer.cpp
index a042730..c0332a7 100644
--- a/tools/vrsplayer/AudioPlayer.cpp
+++ b/tools/vrsplayer/AudioPlayer.cpp
@@ -197,7 +197,7 @@ void AudioPlayer::playbackThread() {
       continue;
     }
     uint32_t frameCount = block.getSampleCount();
-    uint8_t frameStride = block.getSpec().getSampleFrameStride();
+    uint32_t frameStride = block.getSpec().getSampleFrameStride();
     uint8_t bytesPerSample = block.getSpec().getBytesPerSample();
     uint8_t paFrameStride = paChannelCount_ * bytesPerSample;
 
diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index 39d1a02..5b74c6c 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -169,7 +169,7 @@ bool AudioBlockReader::readAudioContentBlock(
     // PCM audio without a sample count
     if (contentBlockSize != ContentBlock::kSizeUnknown) {
       // The sample count is undefined, maybe we can to do the math using the block size
-      uint8_t sampleFrameStride = spec.getSampleFrameStride();
+      uint32_t sampleFrameStride = spec.getSampleFrameStride();
       if (sampleFrameStride > 0 && (contentBlockSize % sampleFrameStride) == 0) {
         // update contentBlock with the actual sample count
         return player.onAudioRead(
diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index d001f7a..5346301 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -822,7 +822,7 @@ size_t AudioContentBlockSpec::getBlockSize() const {
 }
 
 size_t AudioContentBlockSpec::getPcmBlockSize() const {
-  uint8_t stride = getSampleFrameStride();
+  uint32_t stride = getSampleFrameStride();
   if (stride > 0 && sampleFrameCount_ > 0) {
     return static_cast<size_t>(stride) * static_cast<size_t>(sampleFrameCount_);
   }
@@ -939,11 +939,11 @@ uint8_t AudioContentBlockSpec::getBytesPerSample(AudioSampleFormat sampleFormat)
   return (getBitsPerSample(sampleFormat) + 7) >> 3;
 }
 
-uint8_t AudioContentBlockSpec::getSampleFrameStride() const {
+uint32_t AudioContentBlockSpec::getSampleFrameStride() const {
   if (sampleFrameStride_ != 0) {
     return sampleFrameStride_;
   }
-  return getBytesPerSample() * channelCount_;
+  return static_cast<uint32_t>(getBytesPerSample()) * channelCount_;
 }
 
 ContentBlock::ContentBlock(ImageFormat imageFormat, uint32_t width, uint32_t height)
diff --git a/vrs/RecordFormat.h b/vrs/RecordFormat.h
index 6b1955b..9201803 100644
--- a/vrs/RecordFormat.h
+++ b/vrs/RecordFormat.h
@@ -458,7 +458,7 @@ class VRS_API AudioContentBlockSpec {
     return (getBitsPerSample(sampleFormat_) + 7) / 8; // round up
   }
   /// Number of bytes used by a group of synchronous audio samples, including padding
-  uint8_t getSampleFrameStride() const;
+  uint32_t getSampleFrameStride() const;
   /// Get the number of audio channels in each sample frame (not in the content block).
   uint8_t getChannelCount() const {
     return channelCount_;
diff --git a/vrs/utils/AudioBlock.h b/vrs/utils/AudioBlock.h
index c48a014..2619dc6 100644
--- a/vrs/utils/AudioBlock.h
+++ b/vrs/utils/AudioBlock.h
@@ -117,7 +117,7 @@ class AudioBlock {
     return audioSpec_.getStereoPairCount();
   }
 
-  uint8_t getSampleFrameStride() const {
+  uint32_t getSampleFrameStride() const {
     return audioSpec_.getSampleFrameStride();
   }
   uint32_t getSampleCount() const {
diff --git a/vrs/utils/AudioTrackExtractor.cpp b/vrs/utils/AudioTrackExtractor.cpp
index 65b475d..af41a58 100644
--- a/vrs/utils/AudioTrackExtractor.cpp
+++ b/vrs/utils/AudioTrackExtractor.cpp
@@ -72,12 +72,8 @@ bool AudioTrackExtractor::onAudioRead(
   }
 
   if (!wavFile_.isOpened() || !fileAudioSpec_.isCompatibleWith(audioBlockSpec)) {
-    AudioContentBlockSpec rawSpec(
-        audioBlockSpec.getAudioFormat(),
-        audioBlockSpec.getSampleFormat(),
-        audioBlockSpec.getChannelCount(),
-        audioBlockSpec.getSampleFrameStride(),
-        audioBlockSpec.getSampleRate());
+    AudioContentBlockSpec rawSpec(audioBlockSpec);
+    rawSpec.setSampleCount(0);
     if (wavFile_.isOpened()) {
       return stop(
           fmt::format(
-- 
2.43.0


From ab813f85d7d9e9862bf3bed2a542b575afc8a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 61/74] fix: pcm audio blocks without sample count keep their
 stereo pairs, and their size when empty

---
 vrs/ContentBlockReader.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index 5b74c6c..c306d50 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -172,16 +172,9 @@ bool AudioBlockReader::readAudioContentBlock(
       uint32_t sampleFrameStride = spec.getSampleFrameStride();
       if (sampleFrameStride > 0 && (contentBlockSize % sampleFrameStride) == 0) {
         // update contentBlock with the actual sample count
-        return player.onAudioRead(
-            record,
-            blockIndex_,
-            ContentBlock(
-                AudioFormat::PCM,
-                spec.getSampleFormat(),
-                spec.getChannelCount(),
-                spec.getSampleFrameStride(),
-                spec.getSampleRate(),
-                static_cast<uint32_t>(contentBlockSize / sampleFrameStride)));
+        AudioContentBlockSpec actualSpec(spec);
+        actualSpec.setSampleCount(static_cast<uint32_t>(contentBlockSize / sampleFrameStride));
+        return player.onAudioRead(record, blockIndex_, ContentBlock(actualSpec, contentBlockSize));
       }
     }
   } else {
-- 
2.43.0


From 17812fae3bd9ce5adddbef21cf73c19af01f57c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 62/74] fix: looking for a layout in a configuration record
 which wasn't read completely doesn't crash

---
 vrs/ContentBlockReader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index c306d50..bbb7f6f 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -76,6 +76,9 @@ bool mayUsePastConfigurationReader(
 /// @param desiredLayout: Layout to map to the record's layout.
 /// @return True there was a record layout to map to, False otherwise.
 bool mapToBlockLayout(RecordFormatReader* reader, size_t blockIndex, DataLayout& desiredLayout) {
+  if (blockIndex >= reader->contentReaders.size()) {
+    return false; // reading that record stopped before that block
+  }
   DataLayoutBlockReader* layoutReader =
       dynamic_cast<DataLayoutBlockReader*>(reader->contentReaders[blockIndex].get());
   return layoutReader != nullptr && layoutReader->mapToBlockLayout(desiredLayout);
-- 
2.43.0


From 941b17469aef0b40afc45b8c3b8838db0549cefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:38 +0000
Subject: [PATCH 63/74] fix: an audio spec is found in any layout of the
 configuration record

---
 vrs/ContentBlockReader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index bbb7f6f..06bf696 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -238,8 +238,9 @@ bool AudioBlockReader::findAudioSpec(
   size_t index = indexUpperLimit;
   while (index-- > lastIndexToCheck) {
     if (reader->recordFormat.getContentBlock(index).getContentType() == ContentType::DATA_LAYOUT) {
-      if (mapToBlockLayout(reader, index, audioSpec_)) {
-        return tryCurrentAudioSpec(record, player, readNextBlock);
+      if (mapToBlockLayout(reader, index, audioSpec_) &&
+          tryCurrentAudioSpec(record, player, readNextBlock)) {
+        return true;
       }
     }
   }
-- 
2.43.0


From 718d4d95cf9755809b31b5c48263f05dc1cd1d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 64/74] fix: image and audio blocks use the last configuration
 record, whichever its format version

---
 vrs/ContentBlockReader.cpp | 81 ++++++++++++++++++++++----------------
 vrs/ContentBlockReader.h   | 25 ++++++++++--
 2 files changed, 69 insertions(+), 37 deletions(-)

diff --git a/vrs/ContentBlockReader.cpp b/vrs/ContentBlockReader.cpp
index 06bf696..936895c 100644
--- a/vrs/ContentBlockReader.cpp
+++ b/vrs/ContentBlockReader.cpp
@@ -84,6 +84,19 @@ bool mapToBlockLayout(RecordFormatReader* reader, size_t blockIndex, DataLayout&
   return layoutReader != nullptr && layoutReader->mapToBlockLayout(desiredLayout);
 }
 
+/// Same, but don't map the layout again when it's already mapped to that block's layout.
+template <class Spec>
+bool mapToBlockLayout(RecordFormatReader* reader, size_t blockIndex, MappedSpec<Spec>& mapped) {
+  if (mapped.reader != reader || mapped.blockIndex != blockIndex) {
+    mapped.reader = nullptr;
+    if (mapToBlockLayout(reader, blockIndex, mapped.spec)) {
+      mapped.reader = reader;
+      mapped.blockIndex = blockIndex;
+    }
+  }
+  return mapped.reader != nullptr;
+}
+
 } // namespace
 
 unique_ptr<ContentBlockReader> ContentBlockReader::build(
@@ -204,22 +217,26 @@ bool AudioBlockReader::readBlock(const CurrentRecord& record, RecordFormatStream
   }
   // if that is not the case, find definition from config or data record's DataLayout
   bool readNextBlock = true;
-  // have we already successfully mapped our audio spec DataLayout? If so, use what we found.
-  if (tryCurrentAudioSpec(record, player, readNextBlock)) {
-    return readNextBlock;
-  }
   // check if there is a valid definition in a datalayout just before this audio content block
   RecordFormatReader* reader = player.getCurrentRecordFormatReader();
   if (blockIndex_ > 0 &&
-      findAudioSpec(record, player, reader, blockIndex_, blockIndex_ - 1, readNextBlock)) {
+      findAudioSpec(
+          record, player, reader, audioSpec_, blockIndex_, blockIndex_ - 1, readNextBlock)) {
     return readNextBlock;
   }
   // find a dalayout defintion in the last configuration record read before this record
   if (record.recordType != Record::Type::CONFIGURATION) {
     reader = player.getLastRecordFormatReader(record.streamId, Record::Type::CONFIGURATION);
-    if (mayUsePastConfigurationReader(record, reader, contentBlock.getContentType()) &&
+    if (((reader != nullptr && reader == configAudioSpec_.reader) ||
+         mayUsePastConfigurationReader(record, reader, contentBlock.getContentType())) &&
         findAudioSpec(
-            record, player, reader, reader->recordFormat.getUsedBlocksCount(), 0, readNextBlock)) {
+            record,
+            player,
+            reader,
+            configAudioSpec_,
+            reader->recordFormat.getUsedBlocksCount(),
+            0,
+            readNextBlock)) {
       return readNextBlock;
     }
   }
@@ -231,6 +248,7 @@ bool AudioBlockReader::findAudioSpec(
     const CurrentRecord& record,
     RecordFormatStreamPlayer& player,
     RecordFormatReader* reader,
+    MappedSpec<datalayout_conventions::AudioSpec>& audioSpec,
     size_t indexUpperLimit,
     size_t lastIndexToCheck,
     bool& readNextBlock) {
@@ -238,8 +256,8 @@ bool AudioBlockReader::findAudioSpec(
   size_t index = indexUpperLimit;
   while (index-- > lastIndexToCheck) {
     if (reader->recordFormat.getContentBlock(index).getContentType() == ContentType::DATA_LAYOUT) {
-      if (mapToBlockLayout(reader, index, audioSpec_) &&
-          tryCurrentAudioSpec(record, player, readNextBlock)) {
+      if (mapToBlockLayout(reader, index, audioSpec) &&
+          tryAudioSpec(record, player, audioSpec.spec, readNextBlock)) {
         return true;
       }
     }
@@ -250,38 +268,39 @@ bool AudioBlockReader::findAudioSpec(
 bool AudioBlockReader::audioContentFromAudioSpec(
     const CurrentRecord& record,
     RecordFormatStreamPlayer& player,
+    datalayout_conventions::AudioSpec& audioSpec,
     ContentBlock& outAudioContentBlock) {
   AudioFormat audioFormat = AudioFormat::UNDEFINED;
   AudioSampleFormat sampleFormat = AudioSampleFormat::UNDEFINED;
   uint8_t numChannels = 0;
   uint32_t sampleRate = 0;
   // if audioFormat is missing, assume it's AudioFormat::PCM (legacy behavior)
-  if (!audioSpec_.audioFormat.get(audioFormat)) {
+  if (!audioSpec.audioFormat.get(audioFormat)) {
     audioFormat = AudioFormat::PCM;
   }
   // check minimal set of required fields
   if (enumIsValid(audioFormat) &&
-      (audioSpec_.sampleType.get(sampleFormat) && enumIsValid(sampleFormat)) &&
-      (audioSpec_.channelCount.get(numChannels) && numChannels > 0) &&
-      (audioSpec_.sampleRate.get(sampleRate) && sampleRate > 0)) {
+      (audioSpec.sampleType.get(sampleFormat) && enumIsValid(sampleFormat)) &&
+      (audioSpec.channelCount.get(numChannels) && numChannels > 0) &&
+      (audioSpec.sampleRate.get(sampleRate) && sampleRate > 0)) {
     // everything looks fine, check optional fields
     uint8_t sampleFrameStride = 0;
     uint32_t minFrameSize = AudioContentBlockSpec::getBytesPerSample(sampleFormat) * numChannels;
     // If sampleStride field is set, perform a sanity check based on the format. Assume that any
     // meaningful alignment of a sample won't be longer than additional 3 bytes per channel e.g. if
     // uint8_t samples is stored in uint32_t for some reason
-    if (audioSpec_.sampleStride.get(sampleFrameStride) && sampleFrameStride > 0 &&
+    if (audioSpec.sampleStride.get(sampleFrameStride) && sampleFrameStride > 0 &&
         (sampleFrameStride < minFrameSize || sampleFrameStride > minFrameSize + numChannels * 3)) {
       // has invalid block align
       return false;
     }
     uint32_t sampleCount = 0;
-    if (!audioSpec_.sampleCount.get(sampleCount) || sampleCount == 0) {
+    if (!audioSpec.sampleCount.get(sampleCount) || sampleCount == 0) {
       sampleCount = findAudioSampleCount(record, player);
     }
 
     uint8_t stereoPairCount = 0;
-    audioSpec_.stereoPairCount.get(stereoPairCount);
+    audioSpec.stereoPairCount.get(stereoPairCount);
 
     outAudioContentBlock = ContentBlock(
         audioFormat,
@@ -296,16 +315,16 @@ bool AudioBlockReader::audioContentFromAudioSpec(
   return false;
 }
 
-// Try to use the current audioSpec_ to fill in details about the audio content block
+// Try to use audioSpec to fill in details about the audio content block
 // Returns false when the spec are incomplete
 // Returns true if the spec are complete & the audio callback was called setting readNextBlock.
-bool AudioBlockReader::tryCurrentAudioSpec(
+bool AudioBlockReader::tryAudioSpec(
     const CurrentRecord& record,
     RecordFormatStreamPlayer& player,
+    datalayout_conventions::AudioSpec& audioSpec,
     bool& readNextBlock) {
-  // try to use current audioSpec
   ContentBlock contentBlock;
-  if (audioContentFromAudioSpec(record, player, contentBlock)) {
+  if (audioContentFromAudioSpec(record, player, audioSpec, contentBlock)) {
     // try to interpret the rest of the record with the updated content block
     readNextBlock = readAudioContentBlock(record, player, contentBlock);
     return true;
@@ -322,32 +341,25 @@ bool ImageBlockReader::readBlock(const CurrentRecord& record, RecordFormatStream
       contentBlock.getBlockSize() != ContentBlock::kSizeUnknown) {
     return onImageFound(record, player, contentBlock);
   }
-  // Have we already successfully mapped our imageSpec_ DataLayout? If so, use it.
   // Find content-block's size for except for image/raw, for which it isn't needed
   size_t contentBlockSize = (imageFormat != ImageFormat::RAW) ? findContentBlockSize(record, player)
                                                               : ContentBlock::kSizeUnknown;
-  if (imageSpec_.isMapped()) {
-    ContentBlock imageContentBlock =
-        imageSpec_.getImageContentBlock(contentBlock.image(), contentBlockSize);
-    if (imageContentBlock.getContentType() == ContentType::IMAGE) {
-      return onImageFound(record, player, imageContentBlock);
-    }
-  }
   // Search for a DataLayout that has enough data to interpret the image data
   if (imageFormat == ImageFormat::RAW || imageFormat == ImageFormat::CUSTOM_CODEC ||
       imageFormat == ImageFormat::VIDEO) {
     RecordFormatReader* reader = player.getCurrentRecordFormatReader();
     bool readNextBlock = true;
     // Use a lambda to repeat the search using many local variables and few differences...
-    auto findImageSpec = [&](size_t countOfBlocksToSearch) {
+    auto findImageSpec = [&](MappedSpec<datalayout_conventions::ImageSpec>& imageSpec,
+                             size_t countOfBlocksToSearch) {
       // look for last datalayout before this block
       size_t index = countOfBlocksToSearch;
       while (index-- > 0) {
         if (reader->recordFormat.getContentBlock(index).getContentType() ==
             ContentType::DATA_LAYOUT) {
-          if (mapToBlockLayout(reader, index, imageSpec_)) {
+          if (mapToBlockLayout(reader, index, imageSpec)) {
             ContentBlock imageContentBlock =
-                imageSpec_.getImageContentBlock(contentBlock.image(), contentBlockSize);
+                imageSpec.spec.getImageContentBlock(contentBlock.image(), contentBlockSize);
             if (imageContentBlock.getContentType() == ContentType::IMAGE) {
               readNextBlock = onImageFound(record, player, imageContentBlock);
               return true;
@@ -357,13 +369,14 @@ bool ImageBlockReader::readBlock(const CurrentRecord& record, RecordFormatStream
       }
       return false;
     };
-    if (blockIndex_ > 0 && findImageSpec(blockIndex_)) {
+    if (blockIndex_ > 0 && findImageSpec(imageSpec_, blockIndex_)) {
       return readNextBlock;
     }
     if (record.recordType != Record::Type::CONFIGURATION) {
       reader = player.getLastRecordFormatReader(record.streamId, Record::Type::CONFIGURATION);
-      if (mayUsePastConfigurationReader(record, reader, contentBlock.getContentType()) &&
-          findImageSpec(reader->recordFormat.getUsedBlocksCount())) {
+      if (((reader != nullptr && reader == configImageSpec_.reader) ||
+           mayUsePastConfigurationReader(record, reader, contentBlock.getContentType())) &&
+          findImageSpec(configImageSpec_, reader->recordFormat.getUsedBlocksCount())) {
         return readNextBlock;
       }
     }
diff --git a/vrs/ContentBlockReader.h b/vrs/ContentBlockReader.h
index 5d738c7..57fa96a 100644
--- a/vrs/ContentBlockReader.h
+++ b/vrs/ContentBlockReader.h
@@ -68,6 +68,15 @@ class VRS_API ContentBlockReader {
   unique_ptr<datalayout_conventions::NextContentBlockSpec> contentBlockSpec_;
 };
 
+/// \brief Specs layout, which remembers which block layout it was last mapped to.
+/// @internal
+template <class Spec>
+struct MappedSpec {
+  Spec spec;
+  const RecordFormatReader* reader{nullptr};
+  size_t blockIndex{0};
+};
+
 /// \brief Specialized version of ContentBlockReader to handle content blocks containing an image.
 /// @internal
 class VRS_API ImageBlockReader : public ContentBlockReader {
@@ -81,7 +90,9 @@ class VRS_API ImageBlockReader : public ContentBlockReader {
   bool
   onImageFound(const CurrentRecord& rec, RecordFormatStreamPlayer& player, const ContentBlock& cb);
 
-  datalayout_conventions::ImageSpec imageSpec_;
+  // Specs found in a previous block of the same record, or in a configuration record
+  MappedSpec<datalayout_conventions::ImageSpec> imageSpec_;
+  MappedSpec<datalayout_conventions::ImageSpec> configImageSpec_;
   unique_ptr<datalayout_conventions::VideoFrameSpec> videoFrameSpec_;
 };
 
@@ -100,16 +111,24 @@ class VRS_API AudioBlockReader : public ContentBlockReader {
       const CurrentRecord&,
       RecordFormatStreamPlayer&,
       RecordFormatReader*,
+      MappedSpec<datalayout_conventions::AudioSpec>& audioSpec,
       size_t indexUpperLimit,
       size_t lastIndexToCheck,
       bool& readNextBlock);
   bool audioContentFromAudioSpec(
       const CurrentRecord&,
       RecordFormatStreamPlayer&,
+      datalayout_conventions::AudioSpec& audioSpec,
       ContentBlock& outAudioContentBlock);
-  bool tryCurrentAudioSpec(const CurrentRecord&, RecordFormatStreamPlayer&, bool& readNextBlock);
+  bool tryAudioSpec(
+      const CurrentRecord&,
+      RecordFormatStreamPlayer&,
+      datalayout_conventions::AudioSpec& audioSpec,
+      bool& readNextBlock);
 
-  datalayout_conventions::AudioSpec audioSpec_;
+  // Specs found in a previous block of the same record, or in a configuration record
+  MappedSpec<datalayout_conventions::AudioSpec> audioSpec_;
+  MappedSpec<datalayout_conventions::AudioSpec> configAudioSpec_;
 };
 
 /// \brief Specialized version of ContentBlockReader to handle a content block containing custom
-- 
2.43.0


From b31a7ed745eeb71e07edccc343303250eba78003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 65/74] fix: values are only copied from mapped layouts to
 unmapped ones

---
 vrs/DataLayout.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 4d8f4bd..ff010f2 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -176,7 +176,7 @@ void DataLayout::initDataPiecesToDefaultValue() {
 
 size_t DataLayout::copyDataPieceValuesFromMappedLayout(const DataLayout& mappedLayout) {
   // This layout may not be mapped, while mappedLayout must be mapped.
-  if (!XR_VERIFY(!isMapped()) && !XR_VERIFY(mappedLayout.isMapped())) {
+  if (!XR_VERIFY(!isMapped()) || !XR_VERIFY(mappedLayout.isMapped())) {
     return 0;
   }
   // This object and the mappedLayout must have the exact same layout!
-- 
2.43.0


From ca19b6bad48e3cf465a951c1bba6662f878e1199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 66/74] fix: copying values to a layout's clone works when it
 has more fixed size fields, or a mapped original

---
 vrs/DataLayout.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index ff010f2..4b30986 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -335,16 +335,16 @@ bool DataLayout::copyClonedDataPieceValues(const DataLayout& originalLayout) {
           fixedDataSizeNeeded_ >= originalLayout.fixedDataSizeNeeded_)) {
     return false;
   }
-  const vector<int8_t>& originalFixedData = originalLayout.mappedDataLayout_ != nullptr
-      ? originalLayout.mappedDataLayout_->fixedData_
-      : originalLayout.fixedData_;
-  if (!XR_VERIFY(fixedData_.size() >= originalFixedData.size())) {
-    return false;
-  }
-  // If the layout was cloned from clonedLayout, then the first fixed size pieces are the same,
-  // in the same order, and we can use a raw memory copy to copy all these values at once.
-  if (!originalFixedData.empty()) {
-    memcpy(fixedData_.data(), originalFixedData.data(), originalFixedData.size());
+  // If the layout was cloned from clonedLayout, then the first pieces are the same, in the same
+  // order. Copy values one by one: the original might be mapped on a layout that's different, and
+  // its fixed size data ends with its index, where this layout may have more fixed size pieces.
+  for (size_t k = 0; k < originalLayout.fixedSizePieces_.size(); k++) {
+    DataPiece* original = originalLayout.fixedSizePieces_[k];
+    DataPiece* copy = fixedSizePieces_[k];
+    if (!XR_VERIFY(copy->isMatch(*original))) {
+      return false;
+    }
+    copy->copyFrom(original);
   }
   for (size_t k = 0; k < originalLayout.varSizePieces_.size(); k++) {
     DataPiece* original = originalLayout.varSizePieces_[k];
-- 
2.43.0


From d0c7685ab150e7b93932dad0b430b65fa9a2d759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 67/74] fix: printing layouts doesn't read outside of strings
 too short to be truncated

---
 vrs/DataLayout.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 4b30986..497f013 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -821,10 +821,8 @@ string truncatedString(const string& str) {
 string printable(const char* str, size_t size, bool front) {
   string result(str, size);
   result = helpers::make_printable(result);
-  if (front) {
-    result.resize(size);
-  } else if (result.size() > size) {
-    result = result.substr(result.size() - size);
+  if (result.size() > size) {
+    result = front ? result.substr(0, size) : result.substr(result.size() - size);
   }
   return result;
 }
@@ -857,6 +855,9 @@ void printStringFitted(
     frontSize = rest / 4 * 3;
     tailSize = rest - frontSize;
   }
+  // the string might be too short for that, if its prefix is long, or if it's not printable as is
+  frontSize = min<size_t>(frontSize, str.size());
+  tailSize = min<size_t>(tailSize, str.size() - frontSize);
   string front = printable(str.c_str(), frontSize, true);
   string tail = printable(str.c_str() + str.size() - tailSize, tailSize, false);
   os << prefix << '"' << front << kTruncated << tail << '"' << suffix << '\n';
@@ -884,6 +885,9 @@ void printTextFitted(
     frontSize = rest / 4 * 3;
     tailSize = rest - frontSize;
   }
+  // the text might be too short for that, if its prefix is long
+  frontSize = min<size_t>(frontSize, text.size());
+  tailSize = min<size_t>(tailSize, text.size() - frontSize);
   string front(text.c_str(), frontSize);
   string tail(text.c_str() + text.size() - tailSize, tailSize);
   os << prefix << front << kTruncated << tail << suffix << '\n';
-- 
2.43.0


From d63d22341fc4eb764c2164505947a8f6104acfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 68/74] fix: the size of vectors of strings doesn't overflow
 when it's checked

---
 vrs/DataLayout.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 497f013..d299bb0 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -1445,7 +1445,7 @@ bool DataPieceVector<string>::get(vector<string>& outValues) const {
   uint32_t vectorSize = 0;
   size_t readSize = 0;
   if (loadElement<uint32_t>(vectorSize, source, readSize, byteCount)) {
-    if ((vectorSize + 1) * sizeof(uint32_t) <= byteCount) {
+    if ((static_cast<size_t>(vectorSize) + 1) * sizeof(uint32_t) <= byteCount) {
       outValues.resize(vectorSize);
       for (string& str : outValues) {
         if (!loadElement<string>(str, source, readSize, byteCount)) {
@@ -1460,7 +1460,7 @@ bool DataPieceVector<string>::get(vector<string>& outValues) const {
         "which requires {} bytes at least, but we have only {} bytes...",
         getLabel(),
         vectorSize,
-        (vectorSize + 1) * sizeof(uint32_t),
+        (static_cast<size_t>(vectorSize) + 1) * sizeof(uint32_t),
         byteCount);
   }
   outValues = defaultValues_;
-- 
2.43.0


From 8fe2c81649898c56b21af6891d4e0286932f6fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 69/74] fix: empty values of variable size are available when
 they're present

---
 vrs/DataLayout.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrs/DataLayout.h b/vrs/DataLayout.h
index 5dfa871..a91af74 100644
--- a/vrs/DataLayout.h
+++ b/vrs/DataLayout.h
@@ -513,7 +513,9 @@ class VRS_API DataLayout {
       const IndexEntry& indexEntry = getVarSizeIndex()[varPieceIndex];
       if (indexEntry.getOffset() + indexEntry.getLength() <= varData_.size()) {
         outCount = indexEntry.getLength() / sizeof(T);
-        return reinterpret_cast<T*>(varData_.data() + indexEntry.getOffset());
+        // don't return nullptr when all the values present are empty
+        int8_t* data = varData_.empty() ? fixedData_.data() : varData_.data();
+        return reinterpret_cast<T*>(data + indexEntry.getOffset());
       }
     }
     outCount = 0;
-- 
2.43.0


From 55cfda957a059f9f23aa215945b7b62b1ac57c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 70/74] fix: an array field's maximum is not its minimum

---
 vrs/DataPieceArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/DataPieceArray.h b/vrs/DataPieceArray.h
index ed11759..5a98543 100644
--- a/vrs/DataPieceArray.h
+++ b/vrs/DataPieceArray.h
@@ -292,7 +292,7 @@ class DataPieceArray : public DataPiece {
   /// @param outMax: Reference to set to the maximum valid value.
   /// @return True if there is maximum value & outMax was set.
   bool getMax(T& outMax) const {
-    return getProperty(kMinValue, outMax);
+    return getProperty(kMaxValue, outMax);
   }
 
   /// Patch values in the mapped DataLayout.
-- 
2.43.0


From a5ec5f647c9d7e83009b058379619ecbf6ab3a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 71/74] fix: numbers in layout descriptions are read back
 exactly, finite or not

---
 vrs/helpers/Rapidjson.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vrs/helpers/Rapidjson.hpp b/vrs/helpers/Rapidjson.hpp
index e6b0cf7..1413fc2 100644
--- a/vrs/helpers/Rapidjson.hpp
+++ b/vrs/helpers/Rapidjson.hpp
@@ -55,7 +55,9 @@ inline JValue jStringCopy(string_view str, JDocument::AllocatorType& allocator)
   return JValue(str.data(), str.size(), allocator);
 }
 inline void jParse(JDocument& document, string_view str) {
-  document.Parse(str.data(), str.size());
+  using namespace vrs_rapidjson;
+  // read back everything that we write, including numbers that are not finite
+  document.Parse<kParseFullPrecisionFlag | kParseNanAndInfFlag>(str.data(), str.size());
 }
 
 /// Helper class to generate json messages using RapidJson.
@@ -238,9 +240,8 @@ inline bool getFromJValue(const JValue& value, PointND<T, N>& outPoint) {
     return false;
   }
   for (size_t n = 0; n < N; ++n) {
-    if (!getJValueAs<float, T>(value[static_cast<SizeType>(n)], outPoint.dim[n]) &&
-        !getJValueAs<double, T>(value[static_cast<SizeType>(n)], outPoint.dim[n]) &&
-        !getJValueAs<int32_t, T>(value[static_cast<SizeType>(n)], outPoint.dim[n])) {
+    if (!getFromJValue<T>(value[static_cast<SizeType>(n)], outPoint.dim[n]) &&
+        !getJValueAs<double, T>(value[static_cast<SizeType>(n)], outPoint.dim[n])) {
       return false;
     }
   }
-- 
2.43.0


From 6f4638396aa719386fd24057ff5dd5b51508d8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 72/74] fix: matrices are not read from json that is not one

---
 vrs/helpers/Rapidjson.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/vrs/helpers/Rapidjson.hpp b/vrs/helpers/Rapidjson.hpp
index 1413fc2..5fa4638 100644
--- a/vrs/helpers/Rapidjson.hpp
+++ b/vrs/helpers/Rapidjson.hpp
@@ -251,11 +251,12 @@ inline bool getFromJValue(const JValue& value, PointND<T, N>& outPoint) {
 template <typename T, size_t N>
 inline bool getFromJValue(const JValue& value, MatrixND<T, N>& outMatrix) {
   using vrs_rapidjson::SizeType;
-  if (value.IsArray() && value.Size() == N) {
-    for (size_t n = 0; n < N; ++n) {
-      if (!getFromJValue<T, N>(value[static_cast<SizeType>(n)], outMatrix.points[n])) {
-        return false;
-      }
+  if (!value.IsArray() || value.Size() != N) {
+    return false;
+  }
+  for (size_t n = 0; n < N; ++n) {
+    if (!getFromJValue<T, N>(value[static_cast<SizeType>(n)], outMatrix.points[n])) {
+      return false;
     }
   }
   return true;
-- 
2.43.0


From 0a565a974ee63de5bf954cee93fd59c63e5b87ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 73/74] fix: names, defaults and tags with null characters are
 read whole from layout descriptions

---
 vrs/DataLayout.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index d299bb0..839b490 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -1169,9 +1169,9 @@ const string DataPiece::kMinIncrement = "min_increment";
 const string DataPiece::kMaxIncrement = "max_increment";
 
 struct DataPiece::MakerBundle {
-  MakerBundle(const char* l, const JValue& p) : label(l), piece(p) {}
+  MakerBundle(string l, const JValue& p) : label(std::move(l)), piece(p) {}
 
-  const char* label;
+  string label;
   const JValue& piece;
   size_t arraySize{}; // for DataPieceArray only
 };
@@ -1760,7 +1760,7 @@ DataPieceString::DataPieceString(const DataPiece::MakerBundle& bundle)
   using namespace vrs_rapidjson;
   JValue::ConstMemberIterator defaultString = bundle.piece.FindMember("default");
   if (defaultString != bundle.piece.MemberEnd() && defaultString->value.IsString()) {
-    defaultString_ = defaultString->value.GetString();
+    getFromJValue(defaultString->value, defaultString_);
   }
 }
 
@@ -1883,7 +1883,8 @@ ManualDataLayout::ManualDataLayout(const string& json) : ManualDataLayout() {
         JValue::ConstMemberIterator type = piece.FindMember("type");
         if (XR_VERIFY(name != piece.MemberEnd() && name->value.IsString(), "name missing") &&
             XR_VERIFY(type != piece.MemberEnd() && type->value.IsString(), "type missing")) {
-          DataPiece::MakerBundle bundle(name->value.GetString(), piece);
+          DataPiece::MakerBundle bundle(
+              string(name->value.GetString(), name->value.GetStringLength()), piece);
           JValue::ConstMemberIterator count = piece.FindMember("size");
           if (count != piece.MemberEnd() && count->value.IsUint()) {
             bundle.arraySize = count->value.GetUint();
@@ -1899,7 +1900,9 @@ ManualDataLayout::ManualDataLayout(const string& json) : ManualDataLayout() {
                    itr != tags->value.MemberEnd();
                    ++itr) {
                 if (itr->name.IsString() && itr->value.IsString()) {
-                  pc->setTag(itr->name.GetString(), itr->value.GetString());
+                  pc->setTag(
+                      string(itr->name.GetString(), itr->name.GetStringLength()),
+                      string(itr->value.GetString(), itr->value.GetStringLength()));
                 }
               }
             }
-- 
2.43.0


From a8aec7d9b8320783511de70c17080031e72839d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 74/74] fix: a layout description's fields that aren't objects
 are skipped

---
 vrs/DataLayout.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 839b490..6ea21d6 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -1879,6 +1879,9 @@ ManualDataLayout::ManualDataLayout(const string& json) : ManualDataLayout() {
     if (XR_VERIFY(
             node != document.MemberEnd() && node->value.IsArray(), "Missing data_layout object")) {
       for (const JValue& piece : node->value.GetArray()) {
+        if (!XR_VERIFY(piece.IsObject(), "Not a valid datalayout field")) {
+          continue;
+        }
         JValue::ConstMemberIterator name = piece.FindMember("name");
         JValue::ConstMemberIterator type = piece.FindMember("type");
         if (XR_VERIFY(name != piece.MemberEnd() && name->value.IsString(), "name missing") &&
-- 
2.43.0

