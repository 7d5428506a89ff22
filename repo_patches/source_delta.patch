From da761de9a0c17013b877e4002a09d2a1e2380b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 01/40] fix: isRecordAvailableOrPrefetch() reports a failed
 seek as not available

---
 vrs/RecordFileReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index 7bfa0dc..f8ac9d3 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -1115,7 +1115,7 @@ bool RecordFileReader::isRecordAvailableOrPrefetch(const IndexRecord::RecordInfo
   if (streamPlayer == nullptr) {
     return false;
   }
-  IF_ERROR_LOG_AND_RETURN(file_->setPos(recordInfo.fileOffset));
+  IF_ERROR_LOG_AND_RETURN_FALSE(file_->setPos(recordInfo.fileOffset));
   FileFormat::RecordHeader recordHeader;
   if (!file_->isAvailableOrPrefetch(sizeof(recordHeader))) {
     return false;
-- 
2.43.0


From 25657c65191cfbc518ad0f280b4403268a294b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 02/40] fix: report failures to write the index while writing
 records

---
 vrs/RecordFileWriter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index ae18dbd..6a97e9f 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -1049,8 +1049,12 @@ void RecordFileWriter::writeOneRecord(
     rwd.error = error;
   } else {
     if (!skipFinalizeIndexRecords_) {
-      indexRecordWriter_.addRecord(
+      error = indexRecordWriter_.addRecord(
           record->getTimestamp(), lastRecordSize_, streamId, record->getRecordType());
+      if (error != 0) {
+        XR_LOGE("Index write failed: {}, {}", error, errorCodeToMessage(error));
+        rwd.error = error;
+      }
     }
     rwd.writtenRecords++;
     rwd.currentChunkSize += lastRecordSize_;
-- 
2.43.0


From 49db52b2f41c1bfaaffb20e1ed7d4abed25fdb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:27 +0000
Subject: [PATCH 03/40] fix: don't announce a chunk as complete when adding the
 next chunk failed

---
 vrs/RecordFileWriter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 6a97e9f..81f5b95 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -1032,13 +1032,15 @@ void RecordFileWriter::writeOneRecord(
   if (rwd.currentChunkSize > 0 && rwd.currentChunkSize + recordDiskSize >= maxChunkSize_) {
     NewChunkNotifier newChunkNotifier(*file_, newChunkHandler_);
     // AddChunk() preserves the current chunk on error.
-    XR_VERIFY(
+    bool chunkAdded = XR_VERIFY(
         file_->addChunk() == 0,
         "Add chunk failed: {}, {}",
         file_->getLastError(),
         errorCodeToMessage(file_->getLastError()));
     rwd.currentChunkSize = 0; // reset, even if addChunk() failed to reduce retrying.
-    newChunkNotifier.notify(1); // offset chunk index by 1
+    if (chunkAdded) {
+      newChunkNotifier.notify(1); // offset chunk index by 1
+    }
   }
   if (queueByteSize_) {
     queueByteSize_->fetch_sub(record->getSize(), memory_order_relaxed);
-- 
2.43.0


From 1a4d3e3d7146e652fe1de21b60af1760b69a20c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 04/40] fix: never expose a partially written file, and report
 failures to finalize it

---
 vrs/DiskFile.cpp         | 19 +++++++++++++++----
 vrs/FileDetailsCache.cpp | 27 +++++++++++++++++++++------
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 9cbc192..f4c94ea 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -491,10 +491,8 @@ bool DiskFileT<FileChunk>::isRemoteFileSystem() const {
   return false;
 }
 
-template <class FileChunk>
-int DiskFileT<FileChunk>::writeZstdFile(const string& path, const void* data, size_t dataSize) {
-  AtomicDiskFile file;
-  IF_ERROR_LOG_AND_RETURN(file.create(path));
+namespace {
+int writeZstdData(WriteFileHandler& file, const void* data, size_t dataSize) {
   if (dataSize > 0) {
     Compressor compressor;
     uint32_t frameSize = 0;
@@ -505,6 +503,19 @@ int DiskFileT<FileChunk>::writeZstdFile(const string& path, const void* data, si
   }
   return SUCCESS;
 }
+} // namespace
+
+template <class FileChunk>
+int DiskFileT<FileChunk>::writeZstdFile(const string& path, const void* data, size_t dataSize) {
+  AtomicDiskFile file;
+  IF_ERROR_LOG_AND_RETURN(file.create(path));
+  int status = writeZstdData(file, data, dataSize);
+  if (status != SUCCESS) {
+    file.abort(); // never expose a partially written file
+    return status;
+  }
+  return file.close();
+}
 
 template <class FileChunk>
 int DiskFileT<FileChunk>::writeZstdFile(const string& path, const string& string) {
diff --git a/vrs/FileDetailsCache.cpp b/vrs/FileDetailsCache.cpp
index a866cd5..a8f250c 100644
--- a/vrs/FileDetailsCache.cpp
+++ b/vrs/FileDetailsCache.cpp
@@ -220,17 +220,13 @@ int readIndexData(
   return 0;
 }
 
-} // namespace
-
-int write(
-    const string& cacheFile,
+int writeDetails(
+    DiskFile& file,
     const set<StreamId>& streamIds,
     const map<string, string>& fileTags,
     const map<StreamId, StreamTags>& streamTags,
     const vector<IndexRecord::RecordInfo>& recordIndex,
     bool fileHasIndex) {
-  AtomicDiskFile file;
-  IF_ERROR_LOG_AND_RETURN(file.create(cacheFile));
   FileFormat::FileHeader fileHeader;
   fileHeader.init(kMagicHeader1, kMagicHeader2, kMagicHeader3, kOriginalFileFormatVersion);
   if (!fileHasIndex) {
@@ -263,6 +259,25 @@ int write(
   return 0;
 }
 
+} // namespace
+
+int write(
+    const string& cacheFile,
+    const set<StreamId>& streamIds,
+    const map<string, string>& fileTags,
+    const map<StreamId, StreamTags>& streamTags,
+    const vector<IndexRecord::RecordInfo>& recordIndex,
+    bool fileHasIndex) {
+  AtomicDiskFile file;
+  IF_ERROR_LOG_AND_RETURN(file.create(cacheFile));
+  int status = writeDetails(file, streamIds, fileTags, streamTags, recordIndex, fileHasIndex);
+  if (status != 0) {
+    file.abort(); // never expose a partially written file
+    return status;
+  }
+  return file.close();
+}
+
 int read(
     const string& cacheFile,
     set<StreamId>& outStreamIds,
-- 
2.43.0


From 9bb55b4170aaba052d2280e64fdf77ed6dd2d6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:51 +0000
Subject: [PATCH 05/40] fix: async disk file no longer deadlocks when an
 asynchronous write can't be submitted

---
 vrs/AsyncDiskFileChunk.cpp | 40 +++++++++++++++++++++-----------------
 vrs/AsyncDiskFileChunk.h   |  3 ++-
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/vrs/AsyncDiskFileChunk.cpp b/vrs/AsyncDiskFileChunk.cpp
index 4618cba..b249799 100644
--- a/vrs/AsyncDiskFileChunk.cpp
+++ b/vrs/AsyncDiskFileChunk.cpp
@@ -457,7 +457,6 @@ int AsyncBuffer::start_write(
       io_errno = -1;
     }
   }
-  // The submission failed, call the cleanup function.
   // Note that the return value of aio_write is a subset of the aio_return (which is what a normal
   // completion calls). `aio_write` will either return -1 and set perror (same as aio_return), or
   // will return 0
@@ -478,11 +477,9 @@ int AsyncBuffer::start_write(
 #endif
 
 #if POSIX_AIO_SUPPORTED() || IS_WINDOWS_PLATFORM()
-  if (io_return != 0) {
-    // If aio_write failed call the completion callback immediately to free the buffer
-    on_complete_(io_return, io_errno);
-  }
-  return static_cast<int>(io_return);
+  // If the submission failed, there will be no completion: it's up to the caller, which holds the
+  // lock the completion would need, to report the error and to free the buffer.
+  return io_return != 0 ? io_errno : SUCCESS;
 #endif
 }
 
@@ -751,7 +748,7 @@ int AsyncDiskFileChunk::write(const void* buffer, size_t count, size_t& outWritt
               });
           current_buffer_ = nullptr;
           file_position_ += towrite;
-          pump_buffers_locked();
+          pump_buffers_locked(lock);
 
           if (count != 0) {
             current_buffer_ = get_free_buffer_locked(lock);
@@ -967,18 +964,21 @@ void AsyncDiskFileChunk::complete_write(AsyncBuffer* buffer, ssize_t io_return,
     }
   }
 
-  if (io_errno != SUCCESS) {
-    int current_error = async_error_.load();
-    while (current_error == SUCCESS &&
-           !async_error_.compare_exchange_weak(current_error, io_errno)) {
-    }
-  }
+  set_async_error(io_errno);
 
   {
     std::unique_lock lock{buffers_mutex_};
     free_buffer_locked(lock, buffer);
     buffers_writing_ -= 1;
-    pump_buffers_locked();
+    pump_buffers_locked(lock);
+  }
+}
+
+void AsyncDiskFileChunk::set_async_error(int error) {
+  if (error != SUCCESS) {
+    int current_error = async_error_.load();
+    while (current_error == SUCCESS && !async_error_.compare_exchange_weak(current_error, error)) {
+    }
   }
 }
 
@@ -1015,26 +1015,30 @@ void AsyncDiskFileChunk::free_buffer_locked(
 
 void AsyncDiskFileChunk::pump_buffers() {
   std::unique_lock lock{buffers_mutex_};
-  pump_buffers_locked();
+  pump_buffers_locked(lock);
 }
 
-void AsyncDiskFileChunk::pump_buffers_locked() {
+void AsyncDiskFileChunk::pump_buffers_locked(std::unique_lock<std::mutex>& lock) {
   // You must own a lock on buffers_mutex_ to call this
 
   // Move as many queued buffers as we can to the writing state
   while (buffers_writing_ < iodepth_ && !buffers_queued_.empty()) {
     int result = SUCCESS;
+    AsyncBuffer* buffer = nullptr;
     {
       // N.B. item's storage in in buffers_queued_, don't `pop_front()` until we're done using
       // it
       auto& item = buffers_queued_.front();
+      buffer = item.buffer_;
       result = item.buffer_->start_write(item.file_, item.offset_, std::move(item.callback_));
     }
     buffers_queued_.pop_front();
-    // Note that `async_error_` is set by the completion routine on a start_write failure, no need
-    // to modify it here
     if (result == SUCCESS) {
       buffers_writing_ += 1;
+    } else {
+      // the write was never started: there won't be any completion for that buffer
+      set_async_error(result);
+      free_buffer_locked(lock, buffer);
     }
   }
 }
diff --git a/vrs/AsyncDiskFileChunk.h b/vrs/AsyncDiskFileChunk.h
index 87964e6..f3f74bb 100644
--- a/vrs/AsyncDiskFileChunk.h
+++ b/vrs/AsyncDiskFileChunk.h
@@ -250,12 +250,13 @@ class VRS_API AsyncDiskFileChunk {
   int ensureOpenDirect();
   int ensureOpen_(int requested_flags);
   void complete_write(AsyncBuffer* buffer, ssize_t io_return, int io_errno);
+  void set_async_error(int error);
   AsyncBuffer* get_free_buffer_locked(std::unique_lock<std::mutex>& lock);
   AsyncBuffer* get_free_buffer();
   void free_buffer(AsyncBuffer*& buffer);
   void free_buffer_locked(std::unique_lock<std::mutex>& lock, AsyncBuffer*& buffer);
   void pump_buffers();
-  void pump_buffers_locked();
+  void pump_buffers_locked(std::unique_lock<std::mutex>& lock);
   int alloc_write_buffers();
   int free_write_buffers();
   int init_parameters(const FileSpec::Extras& options);
-- 
2.43.0


From 431cb1c929c16948b2346f744f490dc92b3c357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 06/40] fix: report chunk close and rewind failures

---
 vrs/AsyncDiskFileChunk.cpp |  2 +-
 vrs/DiskFile.cpp           | 13 +++++++++----
 vrs/DiskFileChunk.hpp      |  3 ++-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/vrs/AsyncDiskFileChunk.cpp b/vrs/AsyncDiskFileChunk.cpp
index b249799..8d52789 100644
--- a/vrs/AsyncDiskFileChunk.cpp
+++ b/vrs/AsyncDiskFileChunk.cpp
@@ -909,7 +909,7 @@ int AsyncDiskFileChunk::ensureOpen_(int requested_flags) {
       return SUCCESS;
     }
     no_truncate = true;
-    file_.close();
+    IF_ERROR_RETURN(file_.close());
   }
 
   const char* mode = file_mode_;
diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index f4c94ea..ab16d12 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -243,8 +243,14 @@ int DiskFileT<FileChunk>::reopenForUpdates() {
     return DISKFILE_NOT_OPEN;
   }
   // close all possibly opened chunks, as they are not opened with the right mode.
+  int closeError = 0;
   for (auto& chunk : *chunks_) {
-    closeChunk(&chunk);
+    int error = closeChunk(&chunk);
+    closeError = (closeError != 0) ? closeError : error;
+  }
+  if (closeError != 0) {
+    lastError_ = closeError;
+    return lastError_;
   }
   readOnly_ = false;
   if (openChunk(currentChunk_) != 0) {
@@ -359,13 +365,12 @@ template <class FileChunk>
 int DiskFileT<FileChunk>::openChunk(FileChunk* chunk) {
   if (chunk->isOpened()) {
     currentChunk_ = chunk;
-    chunk->rewind();
-    lastError_ = 0;
+    lastError_ = chunk->rewind();
   } else {
     lastError_ = chunk->open(readOnly_, options_);
     if (lastError_ == 0) {
       if (filesOpenCount_++ > kMaxFilesOpenCount && currentChunk_ != nullptr) {
-        closeChunk(currentChunk_);
+        lastError_ = closeChunk(currentChunk_);
       }
       currentChunk_ = chunk;
     }
diff --git a/vrs/DiskFileChunk.hpp b/vrs/DiskFileChunk.hpp
index 1c79b3e..767620a 100644
--- a/vrs/DiskFileChunk.hpp
+++ b/vrs/DiskFileChunk.hpp
@@ -80,8 +80,9 @@ class DiskFileChunk {
   bool isOpened() const {
     return file_ != nullptr;
   }
-  void rewind() const {
+  int rewind() {
     ::rewind(file_);
+    return SUCCESS;
   }
   int flush() {
     return ::fflush(file_) != 0 ? errno : SUCCESS;
-- 
2.43.0


From b0821141ef97475e6fa2a3c6e9616cd91842d02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:22 +0000
Subject: [PATCH 07/40] fix: loadImage() reports a failed seek instead of
 reading from the wrong offset

---
 vrs/utils/ImageLoader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vrs/utils/ImageLoader.cpp b/vrs/utils/ImageLoader.cpp
index f2b084f..e8424ba 100644
--- a/vrs/utils/ImageLoader.cpp
+++ b/vrs/utils/ImageLoader.cpp
@@ -67,7 +67,10 @@ bool loadImage(
     }
   }
 
-  file.setPos(imageRef.dataOffset);
+  if (file.setPos(imageRef.dataOffset) != 0) {
+    XR_LOGE("Can't seek to image data at offset {}", imageRef.dataOffset);
+    return false;
+  }
   uint32_t uncompressedDataSize = 0;
   RecordReader* reader = nullptr;
   UncompressedRecordReader uncompressedRecordReader;
-- 
2.43.0


From abf6e39ec19a36c48c73b70ad82ceac68dcb3427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 08/40] fix: writeAsPng() reports a failure to complete the PNG
 file

---
 vrs/utils/PixelFramePng.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/PixelFramePng.cpp b/vrs/utils/PixelFramePng.cpp
index 24352e7..10ce682 100644
--- a/vrs/utils/PixelFramePng.cpp
+++ b/vrs/utils/PixelFramePng.cpp
@@ -500,8 +500,9 @@ int PixelFrame::writeAsPng(const string& filename, vector<uint8_t>* outBuffer) c
   png_destroy_write_struct(&pngStruct, &pngInfo);
 
   if (outBuffer == nullptr) {
-    if (file != nullptr) {
-      os::fileClose(file);
+    if (file != nullptr && os::fileClose(file) != 0) {
+      XR_LOGE("Failed to complete file '{}'", filename);
+      return FAILURE;
     }
   } else {
     memBuffer.getData(*outBuffer);
-- 
2.43.0


From 592421abaadebe5a71f57f0ad55c5fb847322ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 09/40] fix: the vrs tool's exit status reports failed
 extractions and comparisons that couldn't run

---
 tools/vrs/VrsCommand.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/vrs/VrsCommand.cpp b/tools/vrs/VrsCommand.cpp
index 55bd86a..eefa47c 100644
--- a/tools/vrs/VrsCommand.cpp
+++ b/tools/vrs/VrsCommand.cpp
@@ -472,6 +472,8 @@ int VrsCommand::runCommands() {
         if (openOtherVrsFile(otherFile, cmdSpec.fileDetails)) {
           bool areSame = compareVRSfiles(filteredReader, otherFile, copyOptions);
           cout << (areSame ? "Files are equivalent." : "Files differ.") << "\n";
+        } else {
+          statusCode = EXIT_FAILURE;
         }
       }
       break;
@@ -518,10 +520,10 @@ int VrsCommand::runCommands() {
       extractImages(targetPath.empty() ? "." : targetPath, filteredReader, extractImagesRaw);
       break;
     case Command::ExtractAudio:
-      extractAudio(targetPath.empty() ? "." : targetPath, filteredReader);
+      statusCode = extractAudio(targetPath.empty() ? "." : targetPath, filteredReader);
       break;
     case Command::ExtractAll:
-      extractAll(targetPath.empty() ? "." : targetPath, filteredReader);
+      statusCode = extractAll(targetPath.empty() ? "." : targetPath, filteredReader);
       break;
     case Command::JsonDescription:
       cout << RecordFileInfo::jsonOverview(
-- 
2.43.0


From a4a1cdb5dd19ff673ad2ebf2e2c2dcf212d89ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:13 +0000
Subject: [PATCH 10/40] fix: description record stream ids must fit in the
 record

---
 vrs/DescriptionRecord.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vrs/DescriptionRecord.cpp b/vrs/DescriptionRecord.cpp
index 5424af1..3ad64d6 100644
--- a/vrs/DescriptionRecord.cpp
+++ b/vrs/DescriptionRecord.cpp
@@ -223,10 +223,13 @@ int readMap(FileHandler& file, map<StreamId, string>& outMap, uint32_t& sizeLeft
   IF_ERROR_LOG_AND_RETURN(readSize(file, count, sizeLeft));
   while (count-- > 0) {
     IndexRecord::DiskStreamId id;
+    if (sizeLeft < sizeof(id)) {
+      return NOT_ENOUGH_DATA;
+    }
     if (file.read(id) != 0) {
       return file.getLastError();
     }
-    sizeLeft -= sizeof(IndexRecord::DiskStreamId);
+    sizeLeft -= sizeof(id);
     IF_ERROR_LOG_AND_RETURN(readString(file, outMap[id.getStreamId()], sizeLeft));
   }
   return 0;
@@ -257,10 +260,13 @@ int readMap(FileHandler& file, map<StreamId, StreamTags>& outMap, uint32_t& size
   IF_ERROR_LOG_AND_RETURN(readSize(file, count, sizeLeft));
   while (count-- > 0) {
     IndexRecord::DiskStreamId id;
+    if (sizeLeft < sizeof(id)) {
+      return NOT_ENOUGH_DATA;
+    }
     if (file.read(id) != 0) {
       return file.getLastError();
     }
-    sizeLeft -= sizeof(IndexRecord::DiskStreamId);
+    sizeLeft -= sizeof(id);
     StreamTags& tags = outMap[id.getStreamId()];
     IF_ERROR_LOG_AND_RETURN(readMap(file, tags.user, sizeLeft));
     IF_ERROR_LOG_AND_RETURN(readMap(file, tags.vrs, sizeLeft));
-- 
2.43.0


From d1744896eee8ca32b1d76d427c059f234459f1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:24 +0000
Subject: [PATCH 11/40] fix: FileSpec doesn't read past the end of a path or
 uri

---
 vrs/FileSpec.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/vrs/FileSpec.cpp b/vrs/FileSpec.cpp
index e800228..d5ec4c4 100644
--- a/vrs/FileSpec.cpp
+++ b/vrs/FileSpec.cpp
@@ -183,6 +183,7 @@ int FileSpec::fromPathJsonUri(string_view pathJsonUri, string_view defaultFileHa
     // Check if there might be URI parameter in the path, and try to parse it that way.
     auto uriParams = pathJsonUri.find('?');
     bool hasParams = uriParams != string_view::npos && uriParams > 1 &&
+        uriParams + 1 < pathJsonUri.size() &&
         isalpha(static_cast<unsigned char>(pathJsonUri[uriParams + 1])) &&
         pathJsonUri.find('=', uriParams + 2) != string_view::npos;
     fileHandlerName =
@@ -307,14 +308,20 @@ string FileSpec::getSourceLocation() const {
   if (!uri.empty() && !isDiskFile()) {
     auto colon = uri.find(':');
     if (colon != string::npos) {
-      auto end = colon;
-      unsigned char c = 0;
-      do {
-        c = static_cast<unsigned char>(uri[++end]);
-      } while (c == '/');
-      do {
-        c = static_cast<unsigned char>(uri[++end]);
-      } while (isalnum(c) != 0 || c == '.' || c == '-' || c == '_');
+      auto end = colon + 1;
+      while (end < uri.size() && uri[end] == '/') {
+        ++end;
+      }
+      if (end < uri.size()) {
+        ++end;
+      }
+      while (end < uri.size()) {
+        auto c = static_cast<unsigned char>(uri[end]);
+        if (isalnum(c) == 0 && c != '.' && c != '-' && c != '_') {
+          break;
+        }
+        ++end;
+      }
       return uri.substr(0, end);
     }
     return uri;
-- 
2.43.0


From 3dd0bbad29b530bd1c76b272785ce2a9d4f260d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 12/40] fix: readZstdFile() handles an empty frame

---
 vrs/DiskFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index ab16d12..4eab763 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -543,7 +543,7 @@ int readZstdFileTemplate(const string& path, T& outContent) {
   IF_ERROR_LOG_AND_RETURN(decompressor.initFrame(file, frameSize, maxReadSize));
   outContent.resize(frameSize / sizeof(typename T::value_type));
   IF_ERROR_LOG_AND_RETURN(
-      decompressor.readFrame(file, &outContent.front(), frameSize, maxReadSize));
+      decompressor.readFrame(file, outContent.data(), frameSize, maxReadSize));
   return maxReadSize == 0 ? SUCCESS : FAILURE;
 }
 } // namespace
-- 
2.43.0


From f0cefee1674b3b1ebeb77149ded0a0baf76534b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:00 +0000
Subject: [PATCH 13/40] fix: a corrupt details cache can't request an absurd
 amount of memory

---
 vrs/FileDetailsCache.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/vrs/FileDetailsCache.cpp b/vrs/FileDetailsCache.cpp
index a8f250c..0f754e0 100644
--- a/vrs/FileDetailsCache.cpp
+++ b/vrs/FileDetailsCache.cpp
@@ -112,6 +112,9 @@ namespace {
 const uint32_t kMaxBatchSize = 50000;
 CompressionPreset kCompressionPreset = CompressionPreset::ZstdMedium;
 
+/// Plausible compression ratio bound, so a corrupt file can't request an absurd amount of memory.
+constexpr size_t kMaxCompressionRatio = 100000;
+
 enum FileHeaderFlag : uint64_t { FILE_HAS_NO_INDEX = 1 << 0 };
 
 int writeRecordInfo(
@@ -192,16 +195,23 @@ int readIndexData(
     outStreamIds.insert(id.getStreamId());
   }
   IF_ERROR_LOG_AND_RETURN(file.read(diskIndexSize));
+  size_t indexByteSize = indexSize - sizeof(recordableCount) -
+      sizeof(IndexRecord::DiskStreamId) * recordableCount - sizeof(diskIndexSize);
+  if (!XR_VERIFY(
+          sizeof(DiskRecordInfo) * static_cast<uint64_t>(diskIndexSize) / kMaxCompressionRatio <=
+          indexByteSize)) {
+    return FAILURE;
+  }
   outIndex.resize(0);
   outIndex.reserve(diskIndexSize);
   Decompressor decompressor;
   vector<DiskRecordInfo> diskRecords;
-  size_t indexByteSize = indexSize - sizeof(recordableCount) -
-      sizeof(IndexRecord::DiskStreamId) * recordableCount - sizeof(diskIndexSize);
   while (outIndex.size() < diskIndexSize && indexByteSize > 0) {
     size_t frameSize = 0;
     IF_ERROR_LOG_AND_RETURN(decompressor.initFrame(file, frameSize, indexByteSize));
-    if (!XR_VERIFY(frameSize % sizeof(DiskRecordInfo) == 0)) {
+    if (!XR_VERIFY(
+            frameSize % sizeof(DiskRecordInfo) == 0 &&
+            frameSize / sizeof(DiskRecordInfo) <= diskIndexSize - outIndex.size())) {
       return FAILURE;
     }
     diskRecords.resize(frameSize / sizeof(DiskRecordInfo));
-- 
2.43.0


From 8af74208390ae61ab10697ad93b0f8f18001f2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 14/40] fix: a bogus string vector size can't overflow its
 validation

---
 vrs/DataLayout.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 4d8f4bd..9d71d95 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -1441,7 +1441,8 @@ bool DataPieceVector<string>::get(vector<string>& outValues) const {
   uint32_t vectorSize = 0;
   size_t readSize = 0;
   if (loadElement<uint32_t>(vectorSize, source, readSize, byteCount)) {
-    if ((vectorSize + 1) * sizeof(uint32_t) <= byteCount) {
+    const size_t minByteCount = (static_cast<size_t>(vectorSize) + 1) * sizeof(uint32_t);
+    if (minByteCount <= byteCount) {
       outValues.resize(vectorSize);
       for (string& str : outValues) {
         if (!loadElement<string>(str, source, readSize, byteCount)) {
@@ -1456,7 +1457,7 @@ bool DataPieceVector<string>::get(vector<string>& outValues) const {
         "which requires {} bytes at least, but we have only {} bytes...",
         getLabel(),
         vectorSize,
-        (vectorSize + 1) * sizeof(uint32_t),
+        minByteCount,
         byteCount);
   }
   outValues = defaultValues_;
-- 
2.43.0


From 947cd376d85226601dbb3e9f4090deac33f96264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:55 +0000
Subject: [PATCH 15/40] fix: image sizes of 4 GB and more aren't truncated

---
 vrs/RecordFormat.cpp     |  2 +-
 vrs/utils/PixelFrame.cpp | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index 6c29897..d7a5535 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -637,7 +637,7 @@ size_t ImageContentBlockSpec::getRawImageSize() const {
     size_t size = 0;
     const uint32_t planeCount = getPlaneCount();
     for (uint32_t plane = 0; plane < planeCount; ++plane) {
-      size += getPlaneStride(plane) * getPlaneHeight(plane);
+      size += static_cast<size_t>(getPlaneStride(plane)) * getPlaneHeight(plane);
     }
     if (size > 0) {
       return size;
diff --git a/vrs/utils/PixelFrame.cpp b/vrs/utils/PixelFrame.cpp
index 797518b..488d47c 100644
--- a/vrs/utils/PixelFrame.cpp
+++ b/vrs/utils/PixelFrame.cpp
@@ -411,7 +411,7 @@ bool PixelFrame::inplaceRgbaToRgb() {
   pixel_conversions::convertRgbaToRgb(
       rdata(), getStride(), wdata(), rgbSpec.getStride(), width, height);
   imageSpec_ = rgbSpec;
-  frameBytes_.resize(imageSpec_.getHeight() * imageSpec_.getStride());
+  frameBytes_.resize(static_cast<size_t>(imageSpec_.getHeight()) * imageSpec_.getStride());
   return true;
 }
 
@@ -471,8 +471,8 @@ bool PixelFrame::normalizeFrame(
     if (colors.size() >= (1UL << 16)) {
       unordered_set<uint16_t> usedColors;
       uint16_t lastColor = 0xffff;
-      uint32_t srcStride = getStride();
-      uint32_t dstStride = outNormalizedFrame.getStride();
+      size_t srcStride = getStride();
+      size_t dstStride = outNormalizedFrame.getStride();
       for (uint32_t h = 0; h < getHeight(); ++h) {
         const uint16_t* srcLine = data<uint16_t>(srcStride * h);
         RGBColor* dstLine = outNormalizedFrame.data<RGBColor>(dstStride * h);
@@ -645,7 +645,10 @@ bool PixelFrame::normalizeFrame(
       srcFormat == PixelFormat::BAYER8_RGGB || srcFormat == PixelFormat::BAYER8_BGGR ||
       srcFormat == PixelFormat::BAYER8_GBRG) {
     // display as grey8(copy) for now
-    memcpy(outNormalizedFrame.wdata(), rdata(), getWidth() * getHeight() * componentCount);
+    memcpy(
+        outNormalizedFrame.wdata(),
+        rdata(),
+        static_cast<size_t>(getWidth()) * getHeight() * componentCount);
   } else if (
       srcFormat == PixelFormat::RAW10 || srcFormat == PixelFormat::RAW10_BAYER_RGGB ||
       srcFormat == PixelFormat::RAW10_BAYER_BGGR) {
-- 
2.43.0


From d1e818a58ba74b3fdeca3f7faede35da1d4ea999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:58 +0000
Subject: [PATCH 16/40] fix: a corrupt compressed frame can't request an absurd
 amount of memory

---
 vrs/Decompressor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vrs/Decompressor.cpp b/vrs/Decompressor.cpp
index 12bf1c0..a7c7122 100644
--- a/vrs/Decompressor.cpp
+++ b/vrs/Decompressor.cpp
@@ -49,6 +49,8 @@ namespace vrs {
 
 static size_t kMaxInputBufferSize = 2 * 1024 * 1024; // 2 MB
 static size_t kMinInputBufferSize = 4 * 1024;
+// zstd blocks hold at most 128 KB, and use at least 4 bytes
+constexpr size_t kMaxCompressionRatio = 100000;
 
 /// \brief Decompressor for lz4 data.
 class Decompressor::Lz4Decompressor {
@@ -213,6 +215,9 @@ int Decompressor::initFrame(FileHandler& file, size_t& outFrameSize, size_t& inO
     return DECOMPRESSION_ERROR(lastResult_, "Unknown frame size");
   } else if (sz == ZSTD_CONTENTSIZE_ERROR) {
     return DECOMPRESSION_ERROR(lastResult_, "Bad content size");
+  } else if (sz / kMaxCompressionRatio > getCompressedDataSize() + inOutMaxReadSize) {
+    // more data than the bytes available could possibly produce: don't let callers allocate that
+    return DECOMPRESSION_ERROR(lastResult_, "Unreasonable content size");
   }
   outFrameSize = static_cast<size_t>(sz);
   return 0;
-- 
2.43.0


From f6f5c21dea2d1fc12bf985e05deaabb5beab174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:40 +0000
Subject: [PATCH 17/40] fix: cleared content block specs forget all of their
 fields

---
 vrs/RecordFormat.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index d7a5535..ef39432 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -351,6 +351,8 @@ void ImageContentBlockSpec::clear() {
   stride2_ = 0;
   codecName_.clear();
   codecQuality_ = kQualityUndefined;
+  keyFrameTimestamp_ = kInvalidTimestamp;
+  keyFrameIndex_ = 0;
 }
 
 ImageContentBlockSpec ImageContentBlockSpec::core() const {
@@ -731,6 +733,7 @@ void AudioContentBlockSpec::clear() {
   sampleFrameStride_ = 0;
   sampleFrameRate_ = 0;
   sampleFrameCount_ = 0;
+  stereoPairCount_ = 0;
 }
 
 void AudioContentBlockSpec::set(ContentParser& parser) {
-- 
2.43.0


From 7324148b19cfc7b6fbfcca984c990bb2cc15838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:40 +0000
Subject: [PATCH 18/40] fix: custom content blocks of different formats aren't
 equal

---
 vrs/RecordFormat.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vrs/RecordFormat.cpp b/vrs/RecordFormat.cpp
index ef39432..43426a5 100644
--- a/vrs/RecordFormat.cpp
+++ b/vrs/RecordFormat.cpp
@@ -1110,6 +1110,8 @@ bool ContentBlock::operator==(const ContentBlock& rhs) const {
       return imageSpec_ == rhs.imageSpec_;
     case ContentType::AUDIO:
       return audioSpec_ == rhs.audioSpec_;
+    case ContentType::CUSTOM:
+      return customContentBlockFormat_ == rhs.customContentBlockFormat_;
     default:
       // non-specific content type
       return true;
-- 
2.43.0


From 2b987526e9315be06c150dbe2597ddf1e6be93dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:40 +0000
Subject: [PATCH 19/40] fix: copies of CopyOptions keep all the options

---
 vrs/utils/FilterCopyHelpers.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vrs/utils/FilterCopyHelpers.cpp b/vrs/utils/FilterCopyHelpers.cpp
index 0d138cb..371969f 100644
--- a/vrs/utils/FilterCopyHelpers.cpp
+++ b/vrs/utils/FilterCopyHelpers.cpp
@@ -68,7 +68,11 @@ CopyOptions::CopyOptions(const CopyOptions& rhs)
       graceWindow{rhs.graceWindow},
       jsonOutput{rhs.jsonOutput},
       maxChunkSizeMB{rhs.maxChunkSizeMB},
-      mergeStreams{rhs.mergeStreams} {
+      mergeStreams{rhs.mergeStreams},
+      preallocateIndex{rhs.preallocateIndex},
+      miscParams{rhs.miscParams},
+      userCompressionPreset{rhs.userCompressionPreset},
+      defaultCompressionPreset{rhs.defaultCompressionPreset} {
   if (rhs.tagOverrider) {
     TagOverrider& thisTagOverrider = getTagOverrider();
     thisTagOverrider.fileTags = rhs.tagOverrider->fileTags;
@@ -84,6 +88,10 @@ CopyOptions& CopyOptions::operator=(const CopyOptions& rhs) {
     jsonOutput = rhs.jsonOutput;
     maxChunkSizeMB = rhs.maxChunkSizeMB;
     mergeStreams = rhs.mergeStreams;
+    preallocateIndex = rhs.preallocateIndex;
+    miscParams = rhs.miscParams;
+    userCompressionPreset = rhs.userCompressionPreset;
+    defaultCompressionPreset = rhs.defaultCompressionPreset;
     tagOverrider.reset();
     if (rhs.tagOverrider) {
       TagOverrider& thisTagOverrider = getTagOverrider();
-- 
2.43.0


From cbdea0c5c6d1410806b293c3cf391ecf93d02bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 20/40] fix: report failures to complete extracted image and
 readme files

Small images, and the end of large ones, are only written when the stream is closed: check the
state of the stream once it's closed, or a full device goes unnoticed.
---
 vrs/utils/DataExtractor.cpp  | 9 +++++++++
 vrs/utils/ImageExtractor.cpp | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/vrs/utils/DataExtractor.cpp b/vrs/utils/DataExtractor.cpp
index b93005c..043dfa1 100644
--- a/vrs/utils/DataExtractor.cpp
+++ b/vrs/utils/DataExtractor.cpp
@@ -112,6 +112,10 @@ bool DataExtractor::DataExtractorStreamPlayer::writeImage(
     return false;
   }
   file.close();
+  if (!file) {
+    XR_LOGE("Failed to write file {}", filename);
+    return false;
+  }
   wroteImage(filename);
   return true;
 }
@@ -304,6 +308,11 @@ int DataExtractor::createOutput() {
   readme << kReadMeContent << "\n```\n";
   RecordFileInfo::printOverview(readme, reader_, ids, details);
   readme << "\n```\n";
+  readme.close();
+  if (!readme) {
+    XR_LOGE("Failed to write file {}", readmePath);
+    return FAILURE;
+  }
 
   string path = os::pathJoin(outputFolder_, "metadata.jsons");
   output_.open(path, ofstream::out | ofstream::trunc);
diff --git a/vrs/utils/ImageExtractor.cpp b/vrs/utils/ImageExtractor.cpp
index bdc2477..4d2930a 100644
--- a/vrs/utils/ImageExtractor.cpp
+++ b/vrs/utils/ImageExtractor.cpp
@@ -106,6 +106,10 @@ bool writeRawImage(const string& path, const vector<uint8_t>& imageData) {
     return false;
   }
   file.close();
+  if (!file) {
+    XR_LOGE("Failed to write file {}", path);
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 5b9fb596bd6d6f1dbe196cd1b52e9be4d57cb1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 21/40] fix: guard the index writer's stream ids, which API
 calls and the background writer both add to

---
 vrs/IndexRecord.cpp |  9 +++++----
 vrs/IndexRecord.h   | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/vrs/IndexRecord.cpp b/vrs/IndexRecord.cpp
index 7d39b43..c57ae25 100644
--- a/vrs/IndexRecord.cpp
+++ b/vrs/IndexRecord.cpp
@@ -1024,7 +1024,7 @@ int IndexRecord::Writer::preallocateClassicIndexRecord(
   fileHeader_.enableFrontIndexRecordSupport(); // bump the file format version only if needed
   IF_ERROR_LOG_AND_RETURN(writeClassicIndexRecord(
       file,
-      streamIds_,
+      getStreamIds(),
       preliminaryIndex,
       outLastRecordSize,
       compressor_,
@@ -1045,6 +1045,7 @@ int IndexRecord::Writer::finalizeClassicIndexRecord(
     int64_t endOfRecordsOffset,
     uint32_t& outLastRecordSize) {
   bool indexRecordWritten = false;
+  const set<StreamId> streamIds = getStreamIds();
   int64_t descriptionRecordToIndexRecord =
       fileHeader_.indexRecordOffset - fileHeader_.descriptionRecordOffset;
   // If space for the index record was pre-allocated, let's try to use it!
@@ -1060,7 +1061,7 @@ int IndexRecord::Writer::finalizeClassicIndexRecord(
         uint32_t lastRecordSize = static_cast<uint32_t>(descriptionRecordToIndexRecord);
         if (writeClassicIndexRecord(
                 file,
-                streamIds_,
+                streamIds,
                 writtenRecords_,
                 lastRecordSize,
                 compressor_,
@@ -1071,7 +1072,7 @@ int IndexRecord::Writer::finalizeClassicIndexRecord(
         } else {
           if (kLogStats) {
             MAYBE_UNUSED size_t totalSize = sizeof(uint32_t) +
-                streamIds_.size() * sizeof(DiskStreamId) + sizeof(uint32_t) +
+                streamIds.size() * sizeof(DiskStreamId) + sizeof(uint32_t) +
                 writtenRecords_.size() * sizeof(DiskRecordInfo);
             XR_LOGW(
                 "Failed to use preallocated index. Wasted {} bytes reserved to compress {} bytes, "
@@ -1089,7 +1090,7 @@ int IndexRecord::Writer::finalizeClassicIndexRecord(
   if (!indexRecordWritten && (error = file.setPos(endOfRecordsOffset)) == 0) {
     fileHeader_.indexRecordOffset = endOfRecordsOffset;
     error = writeClassicIndexRecord(
-        file, streamIds_, writtenRecords_, outLastRecordSize, compressor_, kDefaultCompression);
+        file, streamIds, writtenRecords_, outLastRecordSize, compressor_, kDefaultCompression);
   }
   if (error == 0) {
     error = file.setPos(0);
diff --git a/vrs/IndexRecord.h b/vrs/IndexRecord.h
index ea2fdf9..6be81f7 100644
--- a/vrs/IndexRecord.h
+++ b/vrs/IndexRecord.h
@@ -17,6 +17,7 @@
 #pragma once
 
 #include <deque>
+#include <mutex>
 #include <set>
 
 #include <vrs/Compressor.h>
@@ -143,7 +144,10 @@ class VRS_API Writer {
   explicit Writer(FileFormat::FileHeader& fileHeader) : fileHeader_{fileHeader} {}
 
   void reset() {
-    streamIds_.clear();
+    {
+      std::unique_lock<std::mutex> lock(streamIdsMutex_);
+      streamIds_.clear();
+    }
     writtenRecords_.clear();
     writtenBytesCount_ = 0;
     writtenIndexCount_ = 0;
@@ -159,7 +163,9 @@ class VRS_API Writer {
     return splitHeadFile_;
   }
 
+  /// May be called from any thread.
   void addStream(StreamId id) {
+    std::unique_lock<std::mutex> lock(streamIdsMutex_);
     streamIds_.insert(id);
   }
 
@@ -185,11 +191,17 @@ class VRS_API Writer {
   int completeSplitIndexRecord();
 
  private:
+  set<StreamId> getStreamIds() const {
+    std::unique_lock<std::mutex> lock(streamIdsMutex_);
+    return streamIds_;
+  }
+
   std::unique_ptr<DiskFile> splitHeadFile_; // When the file head is split from the user records
   FileFormat::FileHeader& fileHeader_;
   FileFormat::RecordHeader splitIndexRecordHeader_;
   uint32_t preallocatedIndexRecordSize_{};
   Compressor compressor_;
+  mutable std::mutex streamIdsMutex_; // streams are added by API calls & by the background thread
   set<StreamId> streamIds_;
   deque<IndexRecord::DiskRecordInfo> writtenRecords_;
   size_t writtenBytesCount_{}; // how many bytes have been written in a partial index
-- 
2.43.0


From 258c2dc1510c85ee8c628d6637ffc716343f2b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 22/40] fix: the purge thread reads the purge delay under the
 lock that guards it

---
 vrs/RecordFileWriter.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 81f5b95..8c6ca30 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -474,19 +474,19 @@ void RecordFileWriter::backgroundPurgeThreadActivity() {
   while (!purgeThreadData_->shouldEndThread &&
          (status == os::EventChannel::Status::SUCCESS ||
           status == os::EventChannel::Status::TIMEOUT)) {
-    double waitDelay = 0;
-    if (purgeThreadData_->purgingPaused_ || purgeThreadData_->autoPurgeDelay <= 0) {
-      waitDelay = 1;
-    } else {
+    double waitDelay = 1;
+    if (!purgeThreadData_->purgingPaused_) {
       double maxTimestamp = numeric_limits<double>::lowest();
       { // mutex guard
         unique_lock<recursive_mutex> guard{purgeThreadData_->mutex};
-        if (purgeThreadData_->maxTimestampProvider != nullptr) {
-          maxTimestamp = purgeThreadData_->maxTimestampProvider();
+        if (purgeThreadData_->autoPurgeDelay > 0) {
+          waitDelay = purgeThreadData_->autoPurgeDelay;
+          if (purgeThreadData_->maxTimestampProvider != nullptr) {
+            maxTimestamp = purgeThreadData_->maxTimestampProvider();
+          }
         }
-        waitDelay = purgeThreadData_->autoPurgeDelay;
       } // mutex guard
-      if (waitDelay > 0 && maxTimestamp > numeric_limits<double>::lowest()) {
+      if (maxTimestamp > numeric_limits<double>::lowest()) {
         purgeOldRecords(maxTimestamp);
       }
     }
-- 
2.43.0


From 3cad196fe6d960000dc21abfb8cea3f5f28a7966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:04 +0000
Subject: [PATCH 23/40] fix: guard the record cache's size, which background
 threads recycling records change

---
 vrs/RecordManager.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrs/RecordManager.h b/vrs/RecordManager.h
index eb39890..e4a4010 100644
--- a/vrs/RecordManager.h
+++ b/vrs/RecordManager.h
@@ -108,6 +108,7 @@ class VRS_API RecordManager {
   /// the cache size to avoid allocations. The default value is kMaxCacheSize = 10.
   /// @param max: The maximum amount of reusable records to keep around.
   void setMaxCacheSize(size_t max) {
+    std::unique_lock<std::mutex> guard{mutex_};
     maxCacheSize_ = max;
   }
 
@@ -115,6 +116,7 @@ class VRS_API RecordManager {
   /// @return Number of recycled records available.
   /// @internal For use by unit tests.
   size_t getCurrentCacheSize() const {
+    std::unique_lock<std::mutex> guard{mutex_};
     return cache_.size();
   }
 
@@ -122,7 +124,7 @@ class VRS_API RecordManager {
   static size_t getAcceptableOverCapacity(size_t capacity);
   void recycle(Record* record);
 
-  std::mutex mutex_;
+  mutable std::mutex mutex_;
   list<Record*> activeRecords_; // Records ready to be written
   list<Record*> cache_; // Written/recycled records available for reuse
 
-- 
2.43.0


From 431d7a10df2ca18ad5264979fbc4281e3c2d342a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 24/40] fix: a record's direct write data is attached before
 other threads can see the record

---
 vrs/RecordManager.cpp | 17 ++++++++++++++---
 vrs/RecordManager.h   |  6 ++++++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/vrs/RecordManager.cpp b/vrs/RecordManager.cpp
index 9ff891c..524c748 100644
--- a/vrs/RecordManager.cpp
+++ b/vrs/RecordManager.cpp
@@ -57,6 +57,15 @@ Record* RecordManager::createRecord(
     Record::Type recordType,
     uint32_t formatVersion,
     const DataSource& data) {
+  return createRecord(timestamp, recordType, formatVersion, data, nullptr);
+}
+
+Record* RecordManager::createRecord(
+    double timestamp,
+    Record::Type recordType,
+    uint32_t formatVersion,
+    const DataSource& data,
+    std::unique_ptr<DirectWriteRecordData>&& directWriteData) {
   // Step 1: find a record to reuse, if there is any
   Record* record = nullptr;
   unique_lock<mutex> guard{mutex_};
@@ -90,6 +99,10 @@ Record* RecordManager::createRecord(
     record = new Record(*this);
   }
   record->set(timestamp, recordType, formatVersion, data, creationOrder);
+  // must be done before the record can be collected by another thread
+  if (directWriteData) {
+    record->addDirectWriteRecordData(std::move(directWriteData));
+  }
   if (largeData) {
     guard.lock();
   }
@@ -119,9 +132,7 @@ Record* RecordManager::createUncompressedRecord(
     uint32_t formatVersion,
     const DataSource& data,
     std::unique_ptr<DirectWriteRecordData>&& directWriteData) {
-  Record* record = createRecord(timestamp, type, formatVersion, data);
-  record->addDirectWriteRecordData(std::move(directWriteData));
-  return record;
+  return createRecord(timestamp, type, formatVersion, data, std::move(directWriteData));
 }
 
 uint32_t RecordManager::purgeOldRecords(double oldestTimestamp, bool recycleBuffers) {
diff --git a/vrs/RecordManager.h b/vrs/RecordManager.h
index e4a4010..839323e 100644
--- a/vrs/RecordManager.h
+++ b/vrs/RecordManager.h
@@ -122,6 +122,12 @@ class VRS_API RecordManager {
 
  private:
   static size_t getAcceptableOverCapacity(size_t capacity);
+  Record* createRecord(
+      double timestamp,
+      Record::Type type,
+      uint32_t formatVersion,
+      const DataSource& data,
+      std::unique_ptr<DirectWriteRecordData>&& directWriteData);
   void recycle(Record* record);
 
   mutable std::mutex mutex_;
-- 
2.43.0


From 54bcced5682ff7739691b70dedf4ac2e4e75ba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:25 +0000
Subject: [PATCH 25/40] fix: an event channel's destructor lets the threads it
 wakes up leave

---
 vrs/os/Event.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrs/os/Event.cpp b/vrs/os/Event.cpp
index 771d5e8..640194d 100644
--- a/vrs/os/Event.cpp
+++ b/vrs/os/Event.cpp
@@ -52,7 +52,9 @@ EventChannel::~EventChannel() {
     // pending waitForEvent-s it is better to wake them up than to crash.
     wakeupCondition_.notify_all();
     enterCondition_.notify_all();
+    lock.unlock(); // let them go!
     this_thread::sleep_for(chrono::milliseconds(1));
+    lock.lock();
   }
 }
 
@@ -83,7 +85,7 @@ EventChannel::waitForEvent(Event& event, double timeoutSec, double lookBackSec)
   // New listener should not enter critical section before all pre-existing listeners have waked up.
   if (pendingWakeupsCount_ > 0) {
     numEntering_++;
-    enterCondition_.wait(lock, [this] { return pendingWakeupsCount_ == 0; });
+    enterCondition_.wait(lock, [this] { return inDestruction_ || pendingWakeupsCount_ == 0; });
     numEntering_--;
     if (inDestruction_) {
       // This EventChannel is already being destructed, exit ASAP.
-- 
2.43.0


From 8fedb699f401c5e15ecf04d9ceaa4275c54801b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:57 +0000
Subject: [PATCH 26/40] fix: the writer thread and API calls share the purge
 thread's data pointer

---
 vrs/RecordFileWriter.cpp | 57 ++++++++++++++++++++++------------------
 vrs/RecordFileWriter.h   |  2 +-
 2 files changed, 32 insertions(+), 27 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index 8c6ca30..ba31b34 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -427,9 +427,10 @@ void RecordFileWriter::backgroundWriterThreadActivity() {
     queueByteSize_->store(0, memory_order_relaxed);
   }
   // resume purging records, if we were doing that
-  if (purgeThreadData_ != nullptr) {
-    purgeThreadData_->purgingPaused_ = false;
-    purgeThreadData_->purgeEventChannel.dispatchEvent();
+  PurgeThreadData* purgeThreadData = purgeThreadData_;
+  if (purgeThreadData != nullptr) {
+    purgeThreadData->purgingPaused_ = false;
+    purgeThreadData->purgeEventChannel.dispatchEvent();
   }
   if (LOG_FILE_OPERATIONS) {
     XR_LOGD("Background thread ended.");
@@ -468,21 +469,22 @@ bool RecordFileWriter::autoCollectRecords(bool checkTime) {
 }
 
 void RecordFileWriter::backgroundPurgeThreadActivity() {
-  initCreatedThreadCallback_(purgeThreadData_->purgeThread, ThreadRole::Purge, 0);
+  PurgeThreadData* purgeThreadData = purgeThreadData_;
+  initCreatedThreadCallback_(purgeThreadData->purgeThread, ThreadRole::Purge, 0);
 
   os::EventChannel::Status status = os::EventChannel::Status::SUCCESS;
-  while (!purgeThreadData_->shouldEndThread &&
+  while (!purgeThreadData->shouldEndThread &&
          (status == os::EventChannel::Status::SUCCESS ||
           status == os::EventChannel::Status::TIMEOUT)) {
     double waitDelay = 1;
-    if (!purgeThreadData_->purgingPaused_) {
+    if (!purgeThreadData->purgingPaused_) {
       double maxTimestamp = numeric_limits<double>::lowest();
       { // mutex guard
-        unique_lock<recursive_mutex> guard{purgeThreadData_->mutex};
-        if (purgeThreadData_->autoPurgeDelay > 0) {
-          waitDelay = purgeThreadData_->autoPurgeDelay;
-          if (purgeThreadData_->maxTimestampProvider != nullptr) {
-            maxTimestamp = purgeThreadData_->maxTimestampProvider();
+        unique_lock<recursive_mutex> guard{purgeThreadData->mutex};
+        if (purgeThreadData->autoPurgeDelay > 0) {
+          waitDelay = purgeThreadData->autoPurgeDelay;
+          if (purgeThreadData->maxTimestampProvider != nullptr) {
+            maxTimestamp = purgeThreadData->maxTimestampProvider();
           }
         }
       } // mutex guard
@@ -491,7 +493,7 @@ void RecordFileWriter::backgroundPurgeThreadActivity() {
       }
     }
     os::EventChannel::Event event{};
-    status = purgeThreadData_->purgeEventChannel.waitForEvent(event, waitDelay);
+    status = purgeThreadData->purgeEventChannel.waitForEvent(event, waitDelay);
   }
   if (status != os::EventChannel::Status::SUCCESS && status != os::EventChannel::Status::TIMEOUT) {
     XR_LOGE("Background thread quit on error");
@@ -512,7 +514,7 @@ int RecordFileWriter::createFileAsync(const string& filePath, bool splitHead) {
     XR_LOGD("Created file {}", filePath);
   }
   if (purgeThreadData_ != nullptr) {
-    purgeThreadData_->purgingPaused_ = true;
+    purgeThreadData_.load()->purgingPaused_ = true;
   }
   if (queueByteSize_) {
     queueByteSize_->store(0, memory_order_relaxed);
@@ -598,19 +600,21 @@ int RecordFileWriter::autoWriteRecordsAsync(
 int RecordFileWriter::autoPurgeRecords(
     const function<double()>& maxTimestampProvider,
     double delay) {
-  if (purgeThreadData_ != nullptr) {
-    unique_lock<recursive_mutex> guard{purgeThreadData_->mutex};
-    purgeThreadData_->maxTimestampProvider = maxTimestampProvider;
-    purgeThreadData_->autoPurgeDelay = delay;
-    purgeThreadData_->purgeEventChannel.dispatchEvent();
+  PurgeThreadData* purgeThreadData = purgeThreadData_;
+  if (purgeThreadData != nullptr) {
+    unique_lock<recursive_mutex> guard{purgeThreadData->mutex};
+    purgeThreadData->maxTimestampProvider = maxTimestampProvider;
+    purgeThreadData->autoPurgeDelay = delay;
+    purgeThreadData->purgeEventChannel.dispatchEvent();
   } else {
-    purgeThreadData_ = new PurgeThreadData(
+    purgeThreadData = new PurgeThreadData(
         maxTimestampProvider,
         delay,
         writerThreadData_ &&
             !writerThreadData_->shouldEndThread); // we are saving in the background
-    // only start the thread once purgeThreadData_ has been set (race condition on start)
-    purgeThreadData_->purgeThread = thread{&RecordFileWriter::backgroundPurgeThreadActivity, this};
+    purgeThreadData_ = purgeThreadData;
+    // only start the thread once purgeThreadData has been set (race condition on start)
+    purgeThreadData->purgeThread = thread{&RecordFileWriter::backgroundPurgeThreadActivity, this};
   }
   return 0;
 }
@@ -1224,11 +1228,12 @@ RecordFileWriter::~RecordFileWriter() noexcept {
   }
 
   try {
-    if (purgeThreadData_ != nullptr) {
-      purgeThreadData_->shouldEndThread = true;
-      purgeThreadData_->purgeEventChannel.dispatchEvent();
-      purgeThreadData_->purgeThread.join();
-      delete purgeThreadData_;
+    PurgeThreadData* purgeThreadData = purgeThreadData_;
+    if (purgeThreadData != nullptr) {
+      purgeThreadData->shouldEndThread = true;
+      purgeThreadData->purgeEventChannel.dispatchEvent();
+      purgeThreadData->purgeThread.join();
+      delete purgeThreadData;
     }
   } catch (const std::exception& e) {
     XR_LOGE("Caught exception in ~RecordFileWriter while cleaning up purge thread: {}", e.what());
diff --git a/vrs/RecordFileWriter.h b/vrs/RecordFileWriter.h
index aed18af..99c4312 100644
--- a/vrs/RecordFileWriter.h
+++ b/vrs/RecordFileWriter.h
@@ -336,7 +336,7 @@ class VRS_API RecordFileWriter {
   std::unique_ptr<std::atomic<uint64_t>> queueByteSize_; // background thread's queue byte size
 
   /// when a purge thread is active
-  RecordFileWriter_::PurgeThreadData* purgeThreadData_;
+  std::atomic<RecordFileWriter_::PurgeThreadData*> purgeThreadData_;
 
   InitCreatedThreadCallback initCreatedThreadCallback_;
 
-- 
2.43.0


From 1848a61f76f70a1480837c2229db374c3d9f1947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 27/40] fix: images can be extracted again after all the image
 extractors are gone

---
 vrs/utils/ImageExtractor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vrs/utils/ImageExtractor.cpp b/vrs/utils/ImageExtractor.cpp
index 4d2930a..b056eb0 100644
--- a/vrs/utils/ImageExtractor.cpp
+++ b/vrs/utils/ImageExtractor.cpp
@@ -161,6 +161,7 @@ class ImageProcessor {
         }
       }
       threadPool_.clear();
+      imageQueue_.reset(); // it's been ended, but it might be needed again
     }
   }
 
-- 
2.43.0


From 5ce84a25a9c5aebb68df3338744879bf316a7fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 28/40] fix: the clean-up function of cancelled jobs is called
 with the jobs cancelled

---
 vrs/helpers/JobQueue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vrs/helpers/JobQueue.h b/vrs/helpers/JobQueue.h
index 0aefca1..5582927 100644
--- a/vrs/helpers/JobQueue.h
+++ b/vrs/helpers/JobQueue.h
@@ -141,7 +141,9 @@ class JobQueue {
       std::function<bool(const T&)> selector,
       std::function<void(const T&)> cleanup = nullptr) {
     std::unique_lock<std::mutex> locker(mutex_);
-    auto iter = std::remove_if(queue_.begin(), queue_.end(), selector);
+    // not remove_if, because the jobs canceled must be preserved
+    auto iter = std::stable_partition(
+        queue_.begin(), queue_.end(), [&selector](const T& job) { return !selector(job); });
     if (cleanup) {
       for (auto subIter = iter; subIter != queue_.end(); ++subIter) {
         cleanup(*subIter);
-- 
2.43.0


From 055f3002c328f45c84c86b3d7c334615135bc4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 29/40] fix: do not dereference the missing writer thread data
 when writeToFile() compresses with a thread pool

---
 vrs/RecordFileWriter.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vrs/RecordFileWriter.cpp b/vrs/RecordFileWriter.cpp
index ba31b34..8dd7332 100644
--- a/vrs/RecordFileWriter.cpp
+++ b/vrs/RecordFileWriter.cpp
@@ -1169,10 +1169,13 @@ int RecordFileWriter::writeRecordsMultiThread(
       }
     }
     // Grab any new record ready to write, to feed our background threads ASAP
-    autoCollectRecords(true);
-    size_t previousSize = recordsToCompress.size();
-    if (addRecordsReadyToWrite(recordsToCompress)) {
-      recordsToWriteCount += recordsToCompress.size() - previousSize;
+    // (only when writing from the background thread: there is no such thing with writeToFile())
+    if (writerThreadData_ != nullptr) {
+      autoCollectRecords(true);
+      size_t previousSize = recordsToCompress.size();
+      if (addRecordsReadyToWrite(recordsToCompress)) {
+        recordsToWriteCount += recordsToCompress.size() - previousSize;
+      }
     }
   }
 
-- 
2.43.0


From e77a79eb32314d58e0882f77f576516b7bab5077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:35 +0000
Subject: [PATCH 30/40] fix: RecordManager::setCompression() no longer races
 with the threads compressing records

---
 vrs/RecordManager.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vrs/RecordManager.h b/vrs/RecordManager.h
index 839323e..888d116 100644
--- a/vrs/RecordManager.h
+++ b/vrs/RecordManager.h
@@ -16,6 +16,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <list>
 #include <memory>
 #include <mutex>
@@ -94,14 +95,14 @@ class VRS_API RecordManager {
   /// Get the compression preset to use when writing the records of this RecordManager.
   /// @return The compression preset.
   CompressionPreset getCompression() const {
-    return compression_;
+    return compression_.load(std::memory_order_relaxed);
   }
 
   /// Set the compression preset to use when writing the records of this RecordManager,
   /// to override the default value: CompressionPreset::Default.
   /// @param compression: CompressionPreset to use.
   void setCompression(CompressionPreset compression) {
-    compression_ = compression;
+    compression_.store(compression, std::memory_order_relaxed);
   }
 
   /// If you know that you have a lot samples that are small. You can increase
@@ -134,7 +135,7 @@ class VRS_API RecordManager {
   list<Record*> activeRecords_; // Records ready to be written
   list<Record*> cache_; // Written/recycled records available for reuse
 
-  CompressionPreset compression_;
+  std::atomic<CompressionPreset> compression_; // may be changed while records are being written
   size_t maxCacheSize_;
   uint64_t creationOrder_;
 };
-- 
2.43.0


From e7afe8822ce229a33b2c5832c118d4c075f73069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:50 +0000
Subject: [PATCH 31/40] fix: Recordable::setRecordableIsActive() no longer
 races with the thread writing the file

---
 vrs/Recordable.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vrs/Recordable.h b/vrs/Recordable.h
index ea54397..5521020 100644
--- a/vrs/Recordable.h
+++ b/vrs/Recordable.h
@@ -16,6 +16,7 @@
 
 #pragma once
 
+#include <atomic>
 #include <functional>
 #include <map>
 #include <memory>
@@ -90,14 +91,14 @@ class VRS_API Recordable {
   /// Recordables can't be added or removed from a RecordFileWriter while a file is being written,
   /// but recordables can be activated and deactivated instead.
   void setRecordableIsActive(bool isActive) {
-    isActive_ = isActive;
+    isActive_.store(isActive, std::memory_order_relaxed);
   }
 
   /// Tell if the recordable is active for recording.
   /// @return True if records will be recorded the next time the record file writer will look for
   /// records to write.
   bool isRecordableActive() const {
-    return isActive_;
+    return isActive_.load(std::memory_order_relaxed);
   }
 
   /// Override default compression preset for this recordable.
@@ -323,7 +324,7 @@ class VRS_API Recordable {
   StreamTags tags_;
   RecordManager recordManager_;
   CreateRecordDelegate createRecordDelegate_;
-  bool isActive_;
+  std::atomic<bool> isActive_; // may be changed while the file is being written
 
   friend class RecordFileWriter;
 
-- 
2.43.0


From d57e3edd3df9b28c9d599d46d050e015911d2a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:57 +0000
Subject: [PATCH 32/40] fix: wait for the file details to be saved before
 modifying them when a file is opened or its records sorted

---
 vrs/RecordFileReader.cpp | 19 +++++++++++++------
 vrs/RecordFileReader.h   |  2 ++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index f8ac9d3..f80bbbf 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -224,6 +224,7 @@ int RecordFileReader::doOpenFile(
     bool checkSignatureOnly) {
   int error = 0;
 
+  finishSavingDetails(); // we're about to modify what's being saved
   double beforeTime = os::getTimestampSec();
   // open file + read header + read description + read index record + read index
   const int kOpenTotalStepCount = 5;
@@ -300,9 +301,10 @@ int RecordFileReader::doOpenFile(
     error = readFileDetails(fileSpec, autoWriteFixedIndex, fileHeader);
     // Maybe write the file's details to disk
     if (tryToUseCache && !detailsCacheFilePath.empty()) {
+      finishSavingDetails(); // readFileDetails() might have re-opened the file
       detailsSaveThread_ = make_unique<thread>([detailsCacheFilePath, this]() {
-        // It's safe to use those member variables, because we won't modify them until closeFile(),
-        // which will join() the thread first.
+        // It's safe to use those member variables, because we won't modify them without calling
+        // finishSavingDetails(), which will join() the thread first.
         int writeStatus = FileDetailsCache::write(
             detailsCacheFilePath,
             streamIds_,
@@ -337,6 +339,7 @@ int RecordFileReader::doOpenFile(
     }
   }
   if (error == 0 && fileSpec.getExtraAsBool("sort_records", false)) {
+    finishSavingDetails();
     sort(recordIndex_.begin(), recordIndex_.end(), fullRecordCompare);
   }
   return error;
@@ -478,10 +481,7 @@ int RecordFileReader::readFileDetails(
 int RecordFileReader::closeFile() {
   int result = file_ ? file_->close() : 0;
   file_ = make_unique<DiskFile>();
-  if (detailsSaveThread_) {
-    detailsSaveThread_->join();
-    detailsSaveThread_.reset();
-  }
+  finishSavingDetails();
   streamIds_.clear();
   streamTags_.clear();
   fileTags_.clear();
@@ -496,6 +496,13 @@ int RecordFileReader::closeFile() {
   return result;
 }
 
+void RecordFileReader::finishSavingDetails() {
+  if (detailsSaveThread_) {
+    detailsSaveThread_->join();
+    detailsSaveThread_.reset();
+  }
+}
+
 int RecordFileReader::clearStreamPlayers() {
   streamPlayers_.clear();
   return 0;
diff --git a/vrs/RecordFileReader.h b/vrs/RecordFileReader.h
index e8cba60..3916c33 100644
--- a/vrs/RecordFileReader.h
+++ b/vrs/RecordFileReader.h
@@ -585,6 +585,8 @@ class VRS_API RecordFileReader {
       const FileSpec& fileSpec,
       bool autoWriteFixedIndex,
       FileFormat::FileHeader& fileHeader);
+  /// Wait until the file details being saved in a background thread, if any, have been saved.
+  void finishSavingDetails();
   bool readConfigRecords(
       const set<const IndexRecord::RecordInfo*>& configRecords,
       StreamPlayer* streamPlayer);
-- 
2.43.0


From 50438336e5db77ce6a39a8f8e6c1cd300a17a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 33/40] fix: do not cache file details that were not read
 completely

---
 vrs/RecordFileReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vrs/RecordFileReader.cpp b/vrs/RecordFileReader.cpp
index f80bbbf..7261d8d 100644
--- a/vrs/RecordFileReader.cpp
+++ b/vrs/RecordFileReader.cpp
@@ -299,8 +299,8 @@ int RecordFileReader::doOpenFile(
           recordIndex_,
           fileHasAnIndex_) != 0) {
     error = readFileDetails(fileSpec, autoWriteFixedIndex, fileHeader);
-    // Maybe write the file's details to disk
-    if (tryToUseCache && !detailsCacheFilePath.empty()) {
+    // Maybe write the file's details to disk, unless they're incomplete
+    if (error == 0 && tryToUseCache && !detailsCacheFilePath.empty()) {
       finishSavingDetails(); // readFileDetails() might have re-opened the file
       detailsSaveThread_ = make_unique<thread>([detailsCacheFilePath, this]() {
         // It's safe to use those member variables, because we won't modify them without calling
-- 
2.43.0


From b5d4e061e0ff9bec43796a577727617d3a70e1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 34/40] fix: operations on a closed DiskFile fail instead of
 dereferencing null

---
 vrs/DiskFile.cpp | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/vrs/DiskFile.cpp b/vrs/DiskFile.cpp
index 4eab763..1b44c03 100644
--- a/vrs/DiskFile.cpp
+++ b/vrs/DiskFile.cpp
@@ -97,7 +97,10 @@ int DiskFileT<FileChunk>::openSpec(const FileSpec& fileSpec) {
     return FILE_HANDLER_MISMATCH;
   }
   options_ = fileSpec.extras;
-  if (checkChunks(fileSpec.chunks) != 0 || openChunk(chunks_->data()) != 0) {
+  if (fileSpec.chunks.empty()) {
+    lastError_ = DISKFILE_FILE_NOT_FOUND;
+  }
+  if (lastError_ != 0 || checkChunks(fileSpec.chunks) != 0 || openChunk(chunks_->data()) != 0) {
     chunks_->clear();
     options_.clear();
   }
@@ -130,6 +133,10 @@ void DiskFileT<FileChunk>::forgetFurtherChunks(int64_t fileSize) {
 
 template <class FileChunk>
 int DiskFileT<FileChunk>::skipForward(int64_t offset) {
+  if (!isOpened()) {
+    lastError_ = DISKFILE_NOT_OPEN;
+    return lastError_;
+  }
   int64_t chunkPos{};
   if ((lastError_ = currentChunk_->tell(chunkPos)) != 0) {
     return lastError_;
@@ -143,6 +150,10 @@ int DiskFileT<FileChunk>::skipForward(int64_t offset) {
 
 template <class FileChunk>
 int DiskFileT<FileChunk>::setPos(int64_t offset) {
+  if (!isOpened()) {
+    lastError_ = DISKFILE_NOT_OPEN;
+    return lastError_;
+  }
   if (trySetPosInCurrentChunk(offset)) {
     return lastError_;
   }
@@ -198,6 +209,10 @@ vector<pair<string, int64_t>> DiskFileT<FileChunk>::getFileChunks() const {
 template <class FileChunk>
 int DiskFileT<FileChunk>::read(void* buffer, size_t length) {
   lastRWSize_ = 0;
+  if (!isOpened()) {
+    lastError_ = DISKFILE_NOT_OPEN;
+    return lastError_;
+  }
   lastError_ = 0;
   if (length == 0) {
     return lastError_;
@@ -285,6 +300,10 @@ int DiskFileT<FileChunk>::write(const void* buffer, size_t length) {
 template <class FileChunk>
 int DiskFileT<FileChunk>::overwrite(const void* buffer, size_t length) {
   lastRWSize_ = 0;
+  if (!isOpened()) {
+    lastError_ = DISKFILE_NOT_OPEN;
+    return lastError_;
+  }
   if (readOnly_) {
     lastError_ = DISKFILE_READ_ONLY;
     return lastError_;
@@ -318,6 +337,10 @@ int DiskFileT<FileChunk>::overwrite(const void* buffer, size_t length) {
 
 template <class FileChunk>
 int DiskFileT<FileChunk>::truncate() {
+  if (!isOpened()) {
+    lastError_ = DISKFILE_NOT_OPEN;
+    return lastError_;
+  }
   if (readOnly_) {
     lastError_ = DISKFILE_READ_ONLY;
     return lastError_;
@@ -343,7 +366,7 @@ int DiskFileT<FileChunk>::getLastError() const {
 
 template <class FileChunk>
 bool DiskFileT<FileChunk>::isEof() const {
-  return isLastChunk() && currentChunk_->eof() != 0;
+  return isOpened() && isLastChunk() && currentChunk_->eof() != 0;
 }
 
 template <class FileChunk>
@@ -454,6 +477,9 @@ bool DiskFileT<FileChunk>::isLastChunk() const {
 
 template <class FileChunk>
 int64_t DiskFileT<FileChunk>::getPos() const {
+  if (!isOpened()) {
+    return 0;
+  }
   int64_t pos{};
   IF_ERROR_LOG(currentChunk_->tell(pos));
   return currentChunk_->getOffset() + pos;
@@ -461,6 +487,9 @@ int64_t DiskFileT<FileChunk>::getPos() const {
 
 template <class FileChunk>
 int64_t DiskFileT<FileChunk>::getChunkPos() const {
+  if (!isOpened()) {
+    return 0;
+  }
   int64_t pos{};
   IF_ERROR_LOG(currentChunk_->tell(pos));
   return pos;
-- 
2.43.0


From 1452b532d5e5a53bf076df9e1ef55d68b736bdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 35/40] fix: do not read past the end of stream and type
 filters when the last one has no argument

---
 vrs/utils/FilteredFileReader.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/vrs/utils/FilteredFileReader.cpp b/vrs/utils/FilteredFileReader.cpp
index f448ac9..ffe5b02 100644
--- a/vrs/utils/FilteredFileReader.cpp
+++ b/vrs/utils/FilteredFileReader.cpp
@@ -133,8 +133,11 @@ void computeIncludedStreams(
   unique_ptr<set<StreamId>> newSet;
   for (auto iter = streamFilters.begin(); iter != streamFilters.end(); ++iter) {
     if (*iter == "+") {
+      if (++iter == streamFilters.end()) {
+        break; // there is no argument
+      }
       set<StreamId> argIds;
-      stringToIds(*(++iter), reader, argIds);
+      stringToIds(*iter, reader, argIds);
       if (!newSet) {
         // first command is add? start from empty set
         newSet = make_unique<set<StreamId>>(std::move(argIds));
@@ -142,8 +145,11 @@ void computeIncludedStreams(
         newSet->insert(argIds.begin(), argIds.end());
       }
     } else if (*iter == "-") {
+      if (++iter == streamFilters.end()) {
+        break; // there is no argument
+      }
       set<StreamId> argIds;
-      stringToIds(*(++iter), reader, argIds);
+      stringToIds(*iter, reader, argIds);
       if (!newSet) {
         // first command is remove? start with set of all known streams
         newSet = make_unique<set<StreamId>>(allStreams);
@@ -384,7 +390,10 @@ void FilteredFileReader::applyTypeFilters(const vector<string>& filters) {
   std::unique_ptr<set<Record::Type>> newSet = nullptr;
   for (auto iter = filters.begin(); iter != filters.end(); ++iter) {
     const bool isPlus = *iter == "+";
-    Record::Type readType = stringToType(*(++iter));
+    if (++iter == filters.end()) {
+      break; // there is no argument
+    }
+    Record::Type readType = stringToType(*iter);
     if (readType != Record::Type::UNDEFINED) {
       if (isPlus) {
         if (newSet == nullptr) {
-- 
2.43.0


From 19aed498044794d9eb1abc02b01b3bdbf30cd128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:37 +0000
Subject: [PATCH 36/40] fix: release png and jpeg structures, and file
 handlers, on every path

---
 vrs/FileHandlerFactory.cpp   |  5 ++++-
 vrs/utils/PixelFrameJpeg.cpp |  1 +
 vrs/utils/PixelFramePng.cpp  | 15 +++++++++++++--
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/vrs/FileHandlerFactory.cpp b/vrs/FileHandlerFactory.cpp
index 3a51eda..48867e9 100644
--- a/vrs/FileHandlerFactory.cpp
+++ b/vrs/FileHandlerFactory.cpp
@@ -218,7 +218,10 @@ unique_ptr<WriteFileHandler> WriteFileHandler::make(const string& fileHandlerNam
       handler = FileHandlerFactory::getInstance().getFileHandler(writerName);
     }
   }
-  unique_ptr<WriteFileHandler> file{dynamic_cast<WriteFileHandler*>(handler.release())};
+  unique_ptr<WriteFileHandler> file{dynamic_cast<WriteFileHandler*>(handler.get())};
+  if (file) {
+    handler.release(); // now owned by file
+  }
   return file;
 }
 
diff --git a/vrs/utils/PixelFrameJpeg.cpp b/vrs/utils/PixelFrameJpeg.cpp
index 3a03ec7..4cd347b 100644
--- a/vrs/utils/PixelFrameJpeg.cpp
+++ b/vrs/utils/PixelFrameJpeg.cpp
@@ -160,6 +160,7 @@ bool PixelFrame::jpgCompress(
               quality,
               TJFLAG_FASTDCT) == 0)) {
     tjDestroy(_jpegCompressor);
+    tjFree(jpegData);
     return false;
   }
 
diff --git a/vrs/utils/PixelFramePng.cpp b/vrs/utils/PixelFramePng.cpp
index 10ce682..c1fb2e7 100644
--- a/vrs/utils/PixelFramePng.cpp
+++ b/vrs/utils/PixelFramePng.cpp
@@ -332,6 +332,7 @@ bool PixelFrame::readPngFrame(const vector<uint8_t>& pngBuffer, bool decodePixel
   if (colorType == PNG_COLOR_TYPE_GRAY) {
     if (channels != 1) {
       XR_LOGE("Multi-channel grey images make no sense...");
+      png_destroy_read_struct(&pngPtr, &infoPtr, nullptr);
       return false;
     }
     if (bitdepth == 16) {
@@ -344,17 +345,20 @@ bool PixelFrame::readPngFrame(const vector<uint8_t>& pngBuffer, bool decodePixel
   } else if (colorType == PNG_COLOR_TYPE_RGB || colorType == PNG_COLOR_TYPE_PALETTE) {
     if (colorType == PNG_COLOR_TYPE_RGB && channels != 3) {
       XR_LOGE("{} channels color images make no sense with PNG_COLOR_TYPE_RGB...", channels);
+      png_destroy_read_struct(&pngPtr, &infoPtr, nullptr);
       return false;
     }
     init(PixelFormat::RGB8, imgWidth, imgHeight);
   } else if (colorType == PNG_COLOR_TYPE_RGB_ALPHA) {
     if (channels != 4) {
       XR_LOGE("{} channels color images make no sense with PNG_COLOR_TYPE_RGB_ALPHA...", channels);
+      png_destroy_read_struct(&pngPtr, &infoPtr, nullptr);
       return false;
     }
     init(PixelFormat::RGBA8, imgWidth, imgHeight);
   } else {
     XR_LOGE("Only gray and rgb images are supported.");
+    png_destroy_read_struct(&pngPtr, &infoPtr, nullptr);
     return false;
   }
 
@@ -419,21 +423,28 @@ int PixelFrame::writeAsPng(const string& filename, vector<uint8_t>* outBuffer) c
   png_infop pngInfo = png_create_info_struct(pngStruct);
   if (pngInfo == nullptr) {
     XR_LOGE("png_create_info_struct failed");
+    png_destroy_write_struct(&pngStruct, nullptr);
     return FAILURE;
   }
 
+  FILE* volatile file = nullptr; // may be set before an error brings us back to setjmp()
   if (setjmp(png_jmpbuf(pngStruct))) {
     XR_LOGE("png's setjmp(png_jmpbuf(png)) failed");
+    png_destroy_write_struct(&pngStruct, &pngInfo);
+    if (file != nullptr) {
+      os::fileClose(file);
+    }
     return FAILURE;
   }
 
-  FILE* file = nullptr;
   helpers::MemBuffer memBuffer;
   if (outBuffer == nullptr) {
     file = os::fileOpen(filename, "wb");
     if (file == nullptr) {
+      int error = errno;
       XR_LOGE("Can't create file '{}'", filename);
-      return errno != 0 ? errno : FAILURE;
+      png_destroy_write_struct(&pngStruct, &pngInfo);
+      return error != 0 ? error : FAILURE;
     }
     png_init_io(pngStruct, file);
   } else {
-- 
2.43.0


From 87374f69780f33f4b00ff97963da2a795caef606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:07 +0000
Subject: [PATCH 37/40] fix: a time filter includes the records at exactly its
 start time

---
 vrs/utils/FilteredFileReader.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vrs/utils/FilteredFileReader.cpp b/vrs/utils/FilteredFileReader.cpp
index ffe5b02..edca7e8 100644
--- a/vrs/utils/FilteredFileReader.cpp
+++ b/vrs/utils/FilteredFileReader.cpp
@@ -172,6 +172,10 @@ void computeIncludedStreams(
   }
 }
 
+bool timeCompare(const IndexRecord::RecordInfo& lhs, const IndexRecord::RecordInfo& rhs) {
+  return lhs.timestamp < rhs.timestamp;
+}
+
 } // namespace
 
 bool RecordFilterParams::includeStream(string streamFilter) {
@@ -525,7 +529,7 @@ void FilteredFileReader::preRollConfigAndState(const RecordReaderFunc& recordRea
   const auto& records = reader.getIndex();
   // to compare: only the timestamps matters!
   IndexRecord::RecordInfo firstTime(filter.minTime, 0, StreamId(), Record::Type::UNDEFINED);
-  auto lowerBound = lower_bound(records.begin(), records.end(), firstTime);
+  auto lowerBound = lower_bound(records.begin(), records.end(), firstTime, timeCompare);
   if (lowerBound != records.end()) {
     size_t index = static_cast<size_t>(lowerBound - records.begin()); // guaranteed positive
     // For each stream & record type, track the records we need to write
@@ -612,7 +616,7 @@ void FilteredFileReader::iterateAdvanced(
 
   const auto& records = reader.getIndex();
   IndexRecord::RecordInfo firstTime(filter.minTime, 0, StreamId(), Record::Type::UNDEFINED);
-  auto lowerBound = lower_bound(records.begin(), records.end(), firstTime);
+  auto lowerBound = lower_bound(records.begin(), records.end(), firstTime, timeCompare);
   if (lowerBound != records.end()) {
     size_t first = static_cast<size_t>(lowerBound - records.begin());
     for (size_t k = first; keepGoing && k < records.size(); ++k) {
-- 
2.43.0


From 88cfe0946d0daedfafa372d79e7c157f80d34fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:17 +0000
Subject: [PATCH 38/40] fix: print tags when the capture time tag isn't a valid
 time

---
 vrs/utils/RecordFileInfo.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/vrs/utils/RecordFileInfo.cpp b/vrs/utils/RecordFileInfo.cpp
index bd49570..ae925d7 100644
--- a/vrs/utils/RecordFileInfo.cpp
+++ b/vrs/utils/RecordFileInfo.cpp
@@ -102,11 +102,16 @@ void printTags(ostream& out, string_view prefix, const map<string, string>& tags
     line.append(prefix).append(iter.first).append(" = ");
     appendTruncated(line, iter.second, details, width);
     if (iter.first == tag_conventions::kCaptureTimeEpoch) {
-      time_t creationTimeSec = static_cast<time_t>(stoul(iter.second));
-      if (creationTimeSec > 1000000) {
-        stringstream ss;
-        ss << put_time(localtime(&creationTimeSec), " -- %c %Z");
-        appendTruncated(line, ss.str(), details, width);
+      // The tag might not be a number, or a number that's not a date
+      uint64_t epochTime = 0;
+      if (helpers::readUInt64(iter.second, epochTime) && epochTime > 1000000) {
+        time_t creationTimeSec = static_cast<time_t>(epochTime);
+        const struct tm* localTime = localtime(&creationTimeSec);
+        if (localTime != nullptr) {
+          stringstream ss;
+          ss << put_time(localTime, " -- %c %Z");
+          appendTruncated(line, ss.str(), details, width);
+        }
       }
     }
     string printable = make_printable(line);
-- 
2.43.0


From 5ade4004d496653d68d8b5cda9bdfeba7609ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:17 +0000
Subject: [PATCH 39/40] fix: file system errors are reported, not thrown, for
 broken links and unreadable folders

---
 vrs/os/FileList.cpp |  7 ++++---
 vrs/os/Utils.cpp    | 21 ++++++++++++++-------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/vrs/os/FileList.cpp b/vrs/os/FileList.cpp
index 73d7c6f..ed39083 100644
--- a/vrs/os/FileList.cpp
+++ b/vrs/os/FileList.cpp
@@ -44,7 +44,7 @@ int getFilesAndFolders(const string& path, vector<string>& inOutFiles, vector<st
 #if IS_VRS_OSS_TARGET_PLATFORM()
   std::error_code ec;
   fs::path fspath(path);
-  fs::file_status status = fs::status(fspath);
+  fs::file_status status = fs::status(fspath, ec);
   if (!exists(status)) {
     return ENOENT; // file not found
   } else if (status.type() == fs::file_type::directory) {
@@ -52,8 +52,9 @@ int getFilesAndFolders(const string& path, vector<string>& inOutFiles, vector<st
       if (ec) {
         return ec.value() != 0 ? ec.value() : -1;
       }
-      if (!fs::is_symlink(it->symlink_status())) {
-        status = it->status();
+      std::error_code entryError; // entries which can't be accessed are neither files nor folders
+      if (!fs::is_symlink(it->symlink_status(entryError))) {
+        status = it->status(entryError);
         if (status.type() == fs::file_type::regular) {
 #if IS_MAC_PLATFORM()
           if (it->path().filename() == ".DS_Store") {
diff --git a/vrs/os/Utils.cpp b/vrs/os/Utils.cpp
index bb926b2..4a8d2e1 100644
--- a/vrs/os/Utils.cpp
+++ b/vrs/os/Utils.cpp
@@ -194,7 +194,8 @@ const string& getOsTempFolder() {
 #if IS_ANDROID_PLATFORM()
     folderPath = "/data/local/tmp/";
 #else // !IS_ANDROID_PLATFORM()
-    folderPath = fs::temp_directory_path().string();
+    fs_error_code code;
+    folderPath = fs::temp_directory_path(code).string(); // empty, if there is none
     os::shortenPath(folderPath);
 #endif // !IS_ANDROID_PLATFORM()
     if (!folderPath.empty() && (folderPath.back() != '/' && folderPath.back() != '\\')) {
@@ -231,10 +232,13 @@ const string& getTempFolder() {
 /// Returns true if the source was really a link, but you can *always* use outLinkedPath.
 bool getLinkedTarget(const string& sourcePath, string& outLinkedPath) {
   fs::path source(sourcePath);
-  if (fs::is_symlink(source)) {
+  fs_error_code code;
+  if (fs::is_symlink(source, code)) {
     // Note: apply canonical() instead of readlink()
     // so that relative paths in symlinks are resolved properly
-    outLinkedPath = fs::canonical(source).string();
+    fs::path target = fs::canonical(source, code);
+    // A broken link has no target: opening the link itself will report the error
+    outLinkedPath = code ? sourcePath : target.string();
     return true;
   }
   outLinkedPath = sourcePath;
@@ -381,8 +385,9 @@ bool isFile(const string& path) {
 vector<string> listDir(const string& dir) {
   vector<string> result;
   if (isDir(dir)) {
-    for (const auto& entry : fs::directory_iterator(dir)) {
-      result.push_back(entry.path().string());
+    fs_error_code code;
+    for (fs::directory_iterator it(dir, code), end; it != end; it.increment(code)) {
+      result.push_back(it->path().string());
     }
   }
   return result;
@@ -434,17 +439,19 @@ const string& getHomeFolder() {
 #if IS_ANDROID_PLATFORM()
     return "/data/local/tmp/"; // there is no home folder where to write, use the temp folder...
 #elif IS_WINDOWS_PLATFORM()
+    fs_error_code code;
     const char* home = getenv("USERPROFILE");
     string homeFolder =
-        (home != nullptr && isDir(home)) ? home : fs::temp_directory_path().string();
+        (home != nullptr && isDir(home)) ? home : fs::temp_directory_path(code).string();
     if (homeFolder.empty() || (homeFolder.back() != '/' && homeFolder.back() != '\\')) {
       homeFolder += '/';
     }
     return homeFolder;
 #else
+    fs_error_code code;
     const char* home = getenv("HOME");
     string homeFolder =
-        (home != nullptr && isDir(home)) ? home : fs::temp_directory_path().string();
+        (home != nullptr && isDir(home)) ? home : fs::temp_directory_path(code).string();
     if (homeFolder.empty() || homeFolder.back() != '/') {
       homeFolder += '/';
     }
-- 
2.43.0


From 11594c8e77c453d85dc663caa230dfd194f0ee04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:10 +0000
Subject: [PATCH 40/40] fix: a data layout description with elements that
 aren't objects doesn't crash

---
 vrs/DataLayout.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vrs/DataLayout.cpp b/vrs/DataLayout.cpp
index 9d71d95..c2a7ddd 100644
--- a/vrs/DataLayout.cpp
+++ b/vrs/DataLayout.cpp
@@ -1876,6 +1876,9 @@ ManualDataLayout::ManualDataLayout(const string& json) : ManualDataLayout() {
     if (XR_VERIFY(
             node != document.MemberEnd() && node->value.IsArray(), "Missing data_layout object")) {
       for (const JValue& piece : node->value.GetArray()) {
+        if (!XR_VERIFY(piece.IsObject(), "Not a data piece description")) {
+          continue;
+        }
         JValue::ConstMemberIterator name = piece.FindMember("name");
         JValue::ConstMemberIterator type = piece.FindMember("type");
         if (XR_VERIFY(name != piece.MemberEnd() && name->value.IsString(), "name missing") &&
-- 
2.43.0

