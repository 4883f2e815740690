From c7d13695d47c6483d9f3bdab903e7c5021efedb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:31 +0000
Subject: [PATCH 01/74] fix: padding of a reserved attachment-directory must
 not overwrite its entries

---
 Src/libCZI/CziWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index e957ccf..c6445eb 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -771,7 +771,7 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
 
     if (totalBytesWritten < attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader))
     {
-        bytesWritten += CWriterUtils::WriteZeroes(info.writeFunc, attchmDirPos + bytesWritten, attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader) - bytesWritten);
+        totalBytesWritten += CWriterUtils::WriteZeroes(info.writeFunc, attchmDirPos + totalBytesWritten, attchmntDirSegmentHeaderAllocatedSize + sizeof(SegmentHeader) - totalBytesWritten);
     }
 
     return make_tuple(attchmDirPos, static_cast<std::uint64_t>(attchmntDirSegmentHeaderAllocatedSize));
-- 
2.43.0


From 542ac1e25bbcd74e7114e14ea3b08cf9535c480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:18 +0000
Subject: [PATCH 02/74] fix: attachment names and content types which fill
 their field completely

---
 Src/libCZI/CZIReader.cpp             | 6 +++---
 Src/libCZI/CziAttachmentsDirectory.h | 8 ++++++++
 Src/libCZI/CziParse.cpp              | 1 -
 Src/libCZI/CziReaderCommon.cpp       | 6 +++---
 Src/libCZI/CziReaderWriter.cpp       | 9 +++++----
 5 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index 8993289..2b6a61a 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -274,7 +274,7 @@ CCZIReader::CCZIReader() :
         static_assert(sizeof(info->contentFileType) == sizeof(entry.ContentFileType) + 1, "The sizes of the two fields differ from expectation.");
         memcpy(info->contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
         info->contentFileType[sizeof(entry.ContentFileType)] = '\0';
-        info->name = entry.Name;
+        info->name = entry.GetName();
     }
 
     return true;
@@ -290,7 +290,7 @@ CCZIReader::CCZIReader() :
         {
             ai.contentGuid = ae.ContentGuid;
             memcpy(ai.contentFileType, ae.ContentFileType, sizeof(ae.ContentFileType));
-            ai.name = ae.Name;
+            ai.name = ae.GetName();
             bool b = funcEnum(index, ai);
             return b;
         });
@@ -419,7 +419,7 @@ std::shared_ptr<libCZI::IAttachment> CCZIReader::ReadAttachment(const CCziAttach
     static_assert(sizeof(attchmentInfo.contentFileType) > sizeof(entry.ContentFileType), "sizeof(attchmentInfo.contentFileType) must be greater than sizeof(entry.ContentFileType)");
     memcpy(attchmentInfo.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
     attchmentInfo.contentFileType[sizeof(entry.ContentFileType)] = '\0';
-    attchmentInfo.name = entry.Name;
+    attchmentInfo.name = entry.GetName();
 
     return std::make_shared<CCziAttachment>(attchmentInfo, attchmnt, allocateInfo.free);
 }
diff --git a/Src/libCZI/CziAttachmentsDirectory.h b/Src/libCZI/CziAttachmentsDirectory.h
index 886255a..d24e3a6 100644
--- a/Src/libCZI/CziAttachmentsDirectory.h
+++ b/Src/libCZI/CziAttachmentsDirectory.h
@@ -4,7 +4,9 @@
 
 #pragma once
 #include "libCZI_Utilities.h"
+#include <algorithm>
 #include <functional>
+#include <string>
 #include <vector>
 #include <set>
 #include <map>
@@ -23,6 +25,12 @@ namespace libCZI
                 libCZI::GUID ContentGuid;
                 char ContentFileType[8];
                 char Name[80];
+
+                /// Gets the content-file-type as a string. Note that the field is not null-terminated if all its bytes are used.
+                std::string GetContentFileType() const { return std::string(this->ContentFileType, std::find(this->ContentFileType, this->ContentFileType + sizeof(this->ContentFileType), '\0')); }
+
+                /// Gets the name as a string. Note that the field is not null-terminated if all its bytes are used.
+                std::string GetName() const { return std::string(this->Name, std::find(this->Name, this->Name + sizeof(this->Name), '\0')); }
             };
 
             struct AttachmentEntryEx : AttachmentEntry
diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 76fa3e5..82b9c61 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -243,7 +243,6 @@ using namespace libCZI::detail;
             ae.ContentGuid = pSrc->ContentGuid;
             memcpy(&ae.ContentFileType[0], &pSrc->ContentFileType[0], sizeof(AttachmentEntryA1::ContentFileType));
             memcpy(&ae.Name[0], &pSrc->Name[0], sizeof(AttachmentEntryA1::Name));
-            ae.Name[sizeof(AttachmentEntryA1::Name) - 1] = '\0';
             addFunc(ae);
         }
     }
diff --git a/Src/libCZI/CziReaderCommon.cpp b/Src/libCZI/CziReaderCommon.cpp
index 77c4983..f3c49ef 100644
--- a/Src/libCZI/CziReaderCommon.cpp
+++ b/Src/libCZI/CziReaderCommon.cpp
@@ -93,13 +93,13 @@ using namespace libCZI::detail;
     func(
         [&](int index, const CCziAttachmentsDirectoryBase::AttachmentEntry& ae)
         {
-            if (contentFileType == nullptr || strcmp(contentFileType, ae.ContentFileType) == 0)
+            if (contentFileType == nullptr || ae.GetContentFileType() == contentFileType)
             {
-                if (name == nullptr || strcmp(name, ae.Name) == 0)
+                if (name == nullptr || ae.GetName() == name)
                 {
                     ai.contentGuid = ae.ContentGuid;
                     memcpy(ai.contentFileType, ae.ContentFileType, sizeof(ae.ContentFileType));
-                    ai.name = ae.Name;
+                    ai.name = ae.GetName();
                     bool b = funcEnum(index, ai);
                     return b;
                 }
diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 1479722..3ebf076 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -789,9 +789,9 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
     {
         info->contentGuid = entry.ContentGuid;
         static_assert(sizeof(info->contentFileType) == sizeof(entry.ContentFileType) + 1, "The sizes of the two fields differ from expectation.");
-        memcpy(info->contentFileType, entry.ContentFileType, sizeof(info->contentFileType));
+        memcpy(info->contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
         info->contentFileType[sizeof(entry.ContentFileType)] = '\0';
-        info->name = entry.Name;
+        info->name = entry.GetName();
     }
 
     return true;
@@ -806,7 +806,8 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
             libCZI::AttachmentInfo info;
             info.contentGuid = entry.ContentGuid;
             memcpy(info.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
-            info.name = entry.Name;
+            info.contentFileType[sizeof(entry.ContentFileType)] = '\0';
+            info.name = entry.GetName();
             bool b = funcEnum(index, info);
             return b;
         });
@@ -939,7 +940,7 @@ std::shared_ptr<libCZI::IAttachment> CCziReaderWriter::ReadAttachment(const CCzi
     static_assert(sizeof(attchmentInfo.contentFileType) > sizeof(entry.ContentFileType), "sizeof(attchmentInfo.contentFileType) must be greater than sizeof(entry.ContentFileType)");
     memcpy(attchmentInfo.contentFileType, entry.ContentFileType, sizeof(entry.ContentFileType));
     attchmentInfo.contentFileType[sizeof(entry.ContentFileType)] = '\0';
-    attchmentInfo.name = entry.Name;
+    attchmentInfo.name = entry.GetName();
 
     return std::make_shared<CCziAttachment>(attchmentInfo, attchmnt, allocateInfo.free);
 }
-- 
2.43.0


From 1c496f8a5a0a472e197f8b4a2a250ada20b38f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:14 +0000
Subject: [PATCH 03/74] fix: a document created and closed by the reader-writer
 without adding a subblock must be readable

---
 Src/libCZI/CziReaderWriter.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 3ebf076..a0c584e 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -252,7 +252,9 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
 
 void CCziReaderWriter::Finish()
 {
-    if (this->sbBlkDirectory.IsModified())
+    // note: a CZI must have a subblock-directory (even if it is empty), so we also have to write it if there is none so far
+    const bool writeSubBlockDirectory = this->sbBlkDirectory.IsModified() || !this->subBlockDirectorySegment.IsValid();
+    if (writeSubBlockDirectory)
     {
         this->EnsureNextSegmentInfo();
         CWriterUtils::SubBlkDirWriteInfo sbBlkDirWriteInfo;
@@ -328,7 +330,7 @@ void CCziReaderWriter::Finish()
     }
 
     if ((this->attachmentDirectory.IsModified() && this->hdrSegmentData.GetAttachmentDirectoryPosition() != this->attachmentDirectorySegment.GetFilePos()) ||
-        (this->sbBlkDirectory.IsModified() && this->hdrSegmentData.GetSubBlockDirectoryPosition() != this->subBlockDirectorySegment.GetFilePos()) ||
+        (writeSubBlockDirectory && this->hdrSegmentData.GetSubBlockDirectoryPosition() != this->subBlockDirectorySegment.GetFilePos()) ||
         this->hdrSegmentData.GetMetadataPosition() != this->metadataSegment.GetFilePos())
     {
         this->UpdateFileHeader();
-- 
2.43.0


From add96860ae94001bdaa46618bd15b268a2218c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:45 +0000
Subject: [PATCH 04/74] fix: attachment-directory appended by the reader-writer
 must not overlap the subblock-directory

---
 Src/libCZI/CziReaderWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index a0c584e..8a03ad2 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -287,7 +287,7 @@ void CCziReaderWriter::Finish()
         if (get<0>(posAndSize) == sbBlkDirWriteInfo.segmentPosForNewSegment)
         {
             // ie the subblock-directory was appended at the end
-            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize));
+            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize) + sizeof(SegmentHeader));
         }
     }
 
@@ -325,7 +325,7 @@ void CCziReaderWriter::Finish()
         if (get<0>(posAndSize) == attchmntDirWriteInfo.segmentPosForNewSegment)
         {
             // ie the attachment-directory was appended at the end
-            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize));
+            this->nextSegmentInfo.SetNextSegmentPos(get<0>(posAndSize) + get<1>(posAndSize) + sizeof(SegmentHeader));
         }
     }
 
-- 
2.43.0


From 0b5aeb2b2f5ef02e81a49833e2b16219de32da7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:24 +0000
Subject: [PATCH 05/74] fix: replacing an attachment by a larger one must
 advance the position for the next segment

---
 Src/libCZI/CziReaderWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 8a03ad2..0b02803 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -852,7 +852,7 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
     if (get<0>(allocatedSizeAndNewAttchmntEntry))
     {
         // only advance the "nextSegmentInfo" in case we appended the subblock at the end
-        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewAttchmntEntry).FilePosition + get<1>(allocatedSizeAndNewAttchmntEntry) + sizeof(SegmentHeader));
+        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewAttchmntEntry).FilePosition + get<1>(allocatedSizeAndNewAttchmntEntry));
     }
 }
 
@@ -895,7 +895,7 @@ std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> C
     memcpy(entry.ContentFileType, addAttchmntInfo.contentFileType, sizeof(entry.ContentFileType));
     memcpy(entry.Name, addAttchmntInfo.name, sizeof(entry.Name));
 
-    return make_tuple(false, sizeOfSbBlk, entry);
+    return make_tuple(true, sizeOfSbBlk, entry);
 }
 
 std::tuple<bool, std::uint64_t, CCziAttachmentsDirectoryBase::AttachmentEntry> CCziReaderWriter::ReplaceAttachmentInplace(const libCZI::AddAttachmentInfo& addAttchmntInfo, const CCziAttachmentsDirectoryBase::AttachmentEntry& attchmntInfo, std::uint64_t existingSegmentAllocatedSize)
-- 
2.43.0


From 181794e0a997326f7676baeab0246d58683888ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:14 +0000
Subject: [PATCH 06/74] fix: strided bitmaps added with the reader-writer must
 be stored without their line padding

---
 Src/libCZI/CziWriter.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/CziWriter.h b/Src/libCZI/CziWriter.h
index 3b03cfe..d02f03e 100644
--- a/Src/libCZI/CziWriter.h
+++ b/Src/libCZI/CziWriter.h
@@ -107,15 +107,17 @@ namespace libCZI
             {
                 libCZI::AddSubBlockInfo addSbInfo(addSbBlkInfoStrideBitmap);
 
-                addSbInfo.sizeData = static_cast<size_t>(addSbBlkInfoStrideBitmap.physicalHeight) * addSbBlkInfoStrideBitmap.strideBitmap;
+                // the bitmap is stored without the padding at the end of the lines
+                const size_t lineSize = static_cast<size_t>(addSbBlkInfoStrideBitmap.physicalWidth) * CziUtils::GetBytesPerPel(addSbBlkInfoStrideBitmap.PixelType);
+                addSbInfo.sizeData = addSbBlkInfoStrideBitmap.physicalHeight * lineSize;
                 addSbInfo.getData = [&](int callCnt, size_t offset, const void*& ptr, size_t& size)->bool
                     {
                         (void)offset;
 
                         if (callCnt < addSbBlkInfoStrideBitmap.physicalHeight)
                         {
-                            ptr = static_cast<const char*>(addSbBlkInfoStrideBitmap.ptrBitmap) + callCnt * addSbBlkInfoStrideBitmap.strideBitmap;
-                            size = addSbBlkInfoStrideBitmap.strideBitmap;
+                            ptr = static_cast<const char*>(addSbBlkInfoStrideBitmap.ptrBitmap) + callCnt * static_cast<size_t>(addSbBlkInfoStrideBitmap.strideBitmap);
+                            size = lineSize;
                             return true;
                         }
 
-- 
2.43.0


From 2624fe8c89687b51821ea84246c9d8b39d76e4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:29 +0000
Subject: [PATCH 07/74] fix: replacing a subblock by a larger one must not
 leave a gap between the segments

---
 Src/libCZI/CziReaderWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 0b02803..d2344c5 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -177,7 +177,7 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     if (get<0>(allocatedSizeAndNewSbEntry))
     {
         // only advance the "nextSegmentInfo" in case we appended the subblock at the end
-        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewSbEntry).FilePosition + get<1>(allocatedSizeAndNewSbEntry) + sizeof(SegmentHeader));
+        this->nextSegmentInfo.SetNextSegmentPos(get<2>(allocatedSizeAndNewSbEntry).FilePosition + get<1>(allocatedSizeAndNewSbEntry));
     }
 }
 
-- 
2.43.0


From 2a31701f48bfb541f88344227a6c29688a9342d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:54 +0000
Subject: [PATCH 08/74] fix: a failed addition of a subblock or attachment must
 not leave an entry in the directory

---
 Src/libCZI/CziAttachmentsDirectory.cpp | 26 ++++++++++++++++++--------
 Src/libCZI/CziAttachmentsDirectory.h   |  7 +++++++
 Src/libCZI/CziReaderWriter.cpp         | 10 ++++++----
 Src/libCZI/CziSubBlockDirectory.cpp    | 21 ++++++++++++++++++---
 Src/libCZI/CziSubBlockDirectory.h      |  6 ++++++
 Src/libCZI/CziWriter.cpp               | 10 ++++++----
 6 files changed, 61 insertions(+), 19 deletions(-)

diff --git a/Src/libCZI/CziAttachmentsDirectory.cpp b/Src/libCZI/CziAttachmentsDirectory.cpp
index 68bf85a..3d66f41 100644
--- a/Src/libCZI/CziAttachmentsDirectory.cpp
+++ b/Src/libCZI/CziAttachmentsDirectory.cpp
@@ -70,10 +70,7 @@ bool CCziAttachmentsDirectory::TryGetAttachment(int index, AttachmentEntry& entr
 
 bool CWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntry& entry)
 {
-    if (std::find_if(
-        this->attachments_.cbegin(),
-        this->attachments_.cend(),
-        [&entry](const AttachmentEntry& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x, entry); }) != this->attachments_.cend())
+    if (this->IsAlreadyExisting(entry))
     {
         return false;
     }
@@ -82,6 +79,14 @@ bool CWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntry& ent
     return true;
 }
 
+bool CWriterCziAttachmentsDirectory::IsAlreadyExisting(const AttachmentEntry& entry) const
+{
+    return std::find_if(
+        this->attachments_.cbegin(),
+        this->attachments_.cend(),
+        [&entry](const AttachmentEntry& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x, entry); }) != this->attachments_.cend();
+}
+
 bool CWriterCziAttachmentsDirectory::EnumEntries(const std::function<bool(int index, const AttachmentEntry&)>& func) const
 {
     int index = 0;
@@ -183,10 +188,7 @@ bool CReaderWriterCziAttachmentsDirectory::TryRemoveAttachment(int key, Attachme
 
 bool CReaderWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntry& entry, int* key)
 {
-    if (std::find_if(
-        this->attchmnts.cbegin(),
-        this->attchmnts.cend(),
-        [&entry](const std::pair<int, AttachmentEntry>& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x.second, entry); }) != this->attchmnts.cend())
+    if (this->IsAlreadyExisting(entry))
     {
         return false;
     }
@@ -194,3 +196,11 @@ bool CReaderWriterCziAttachmentsDirectory::TryAddAttachment(const AttachmentEntr
     this->AddAttachment(entry, key);
     return true;
 }
+
+bool CReaderWriterCziAttachmentsDirectory::IsAlreadyExisting(const AttachmentEntry& entry) const
+{
+    return std::find_if(
+        this->attchmnts.cbegin(),
+        this->attchmnts.cend(),
+        [&entry](const std::pair<int, AttachmentEntry>& x)->bool { return CCziAttachmentsDirectoryBase::CompareForEquality_Id(x.second, entry); }) != this->attchmnts.cend();
+}
diff --git a/Src/libCZI/CziAttachmentsDirectory.h b/Src/libCZI/CziAttachmentsDirectory.h
index d24e3a6..0c3266a 100644
--- a/Src/libCZI/CziAttachmentsDirectory.h
+++ b/Src/libCZI/CziAttachmentsDirectory.h
@@ -69,6 +69,10 @@ namespace libCZI
         {
         public:
             bool TryAddAttachment(const AttachmentEntry& entry);
+
+            /// Query whether adding the specified entry would fail because it already exists.
+            bool IsAlreadyExisting(const AttachmentEntry& entry) const;
+
             int GetAttachmentCount() const;
             bool EnumEntries(const std::function<bool(int index, const AttachmentEntry&)>& func) const;
         private:
@@ -99,6 +103,9 @@ namespace libCZI
             bool TryRemoveAttachment(int key, AttachmentEntry* attchmntEntry);
 
             bool TryAddAttachment(const AttachmentEntry& entry, int* key);
+
+            /// Query whether adding the specified entry would fail because it already exists.
+            bool IsAlreadyExisting(const AttachmentEntry& entry) const;
         };
 
     } // namespace detail
diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index d2344c5..01576f9 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -122,8 +122,7 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     CCziSubBlockDirectoryBase::SubBlkEntry entry = CWriterUtils::SubBlkEntryFromAddSubBlockInfo(addSbBlkInfo);
     this->EnsureNextSegmentInfo();
     entry.FilePosition = this->nextSegmentInfo.GetNextSegmentPos();
-    bool b = this->sbBlkDirectory.TryAddSubBlock(entry, nullptr);
-    if (b == false)
+    if (this->sbBlkDirectory.IsAlreadyExisting(entry))
     {
         throw LibCZIReaderWriteException("Could not add subblock because it already exists", LibCZIReaderWriteException::ErrorType::AddCoordinateAlreadyExisting);
     }
@@ -133,7 +132,9 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     wi.writeFunc = std::bind(&CCziReaderWriter::WriteToOutputStream, this, placeholders::_1, placeholders::_2, placeholders::_3, placeholders::_4, placeholders::_5);
     wi.useSpecifiedAllocatedSize = false;
 
+    // the entry is added only after the segment was written successfully
     const auto sizeOfSbBlk = CWriterUtils::WriteSubBlock(wi, addSbBlkInfo);
+    this->sbBlkDirectory.TryAddSubBlock(entry, nullptr);
     this->nextSegmentInfo.SetNextSegmentPos(wi.segmentPos + sizeOfSbBlk);
 }
 
@@ -147,8 +148,7 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     CCziAttachmentsDirectoryBase::AttachmentEntry entry = CWriterUtils::AttchmntEntryFromAddAttachmentInfo(addAttachmentInfo);
     this->EnsureNextSegmentInfo();
     entry.FilePosition = this->nextSegmentInfo.GetNextSegmentPos();
-    bool b = this->attachmentDirectory.TryAddAttachment(entry, nullptr);
-    if (b == false)
+    if (this->attachmentDirectory.IsAlreadyExisting(entry))
     {
         throw LibCZIReaderWriteException("Could not add attachment because it already exists", LibCZIReaderWriteException::ErrorType::AddAttachmentAlreadyExisting);
     }
@@ -158,7 +158,9 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     wi.writeFunc = std::bind(&CCziReaderWriter::WriteToOutputStream, this, placeholders::_1, placeholders::_2, placeholders::_3, placeholders::_4, placeholders::_5);
     wi.useSpecifiedAllocatedSize = false;
 
+    // the entry is added only after the segment was written successfully
     auto sizeOfAttchmnt = CWriterUtils::WriteAttachment(wi, addAttachmentInfo);
+    this->attachmentDirectory.TryAddAttachment(entry, nullptr);
     this->nextSegmentInfo.SetNextSegmentPos(wi.segmentPos + sizeOfAttchmnt);
 }
 
diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 782684b..547bf36 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -462,6 +462,11 @@ bool CWriterCziSubBlockDirectory::TryAddSubBlock(const SubBlkEntry& entry)
     return insert.second;
 }
 
+bool CWriterCziSubBlockDirectory::IsAlreadyExisting(const SubBlkEntry& entry) const
+{
+    return this->subBlks.find(entry) != this->subBlks.cend();
+}
+
 bool CWriterCziSubBlockDirectory::SubBlkEntryCompare::operator()(const SubBlkEntry& a, const SubBlkEntry& b) const
 {
     // returns true if the first argument goes before the second argument in the strict weak ordering it defines, 
@@ -702,17 +707,27 @@ bool CReaderWriterCziSubBlockDirectory::TryRemoveSubBlock(int key, SubBlkEntry*
 ///
 /// \return True if it succeeds, false if it fails (because an entry with identical coordinate already exists).
 bool CReaderWriterCziSubBlockDirectory::TryAddSubBlock(const SubBlkEntry& entry, int* key)
+{
+    if (this->IsAlreadyExisting(entry))
+    {
+        return false;
+    }
+
+    this->AddSubBlock(entry, key);
+    return true;
+}
+
+bool CReaderWriterCziSubBlockDirectory::IsAlreadyExisting(const SubBlkEntry& entry) const
 {
     for (auto it = this->subBlks.cbegin(); it != this->subBlks.cend(); ++it)
     {
         if (CCziSubBlockDirectoryBase::CompareForEquality_Coordinate(it->second, entry))
         {
-            return false;
+            return true;
         }
     }
 
-    this->AddSubBlock(entry, key);
-    return true;
+    return false;
 }
 
 const libCZI::SubBlockStatistics& CReaderWriterCziSubBlockDirectory::GetStatistics()
diff --git a/Src/libCZI/CziSubBlockDirectory.h b/Src/libCZI/CziSubBlockDirectory.h
index ca653b2..7eb1231 100644
--- a/Src/libCZI/CziSubBlockDirectory.h
+++ b/Src/libCZI/CziSubBlockDirectory.h
@@ -146,6 +146,9 @@ namespace libCZI
             CWriterCziSubBlockDirectory(bool allow_duplicate_subblocks);
             bool TryAddSubBlock(const SubBlkEntry& entry);
 
+            /// Query whether adding the specified entry would fail because it already exists.
+            bool IsAlreadyExisting(const SubBlkEntry& entry) const;
+
             bool EnumEntries(const std::function<bool(size_t index, const SubBlkEntry&)>& func) const;
 
             const libCZI::SubBlockStatistics& GetStatistics() const;
@@ -198,6 +201,9 @@ namespace libCZI
             bool TryRemoveSubBlock(int key, SubBlkEntry* entry = nullptr);
             bool TryAddSubBlock(const SubBlkEntry& entry, int* key);
 
+            /// Query whether adding the specified entry would fail because it already exists.
+            bool IsAlreadyExisting(const SubBlkEntry& entry) const;
+
             bool EnumEntries(const std::function<bool(int index, const SubBlkEntry&)>& func) const;
 
             const libCZI::SubBlockStatistics& GetStatistics();
diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index c6445eb..7a259f5 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -966,13 +966,14 @@ CCziWriter::~CCziWriter()
 
     CCziSubBlockDirectoryBase::SubBlkEntry entry = CWriterUtils::SubBlkEntryFromAddSubBlockInfo(addSbBlkInfo);
     entry.FilePosition = this->nextSegmentPos;
-    bool b = this->sbBlkDirectory.TryAddSubBlock(entry);
-    if (b == false)
+    if (this->sbBlkDirectory.IsAlreadyExisting(entry))
     {
         throw LibCZIWriteException("Could not add subblock because it already exists", LibCZIWriteException::ErrorType::AddCoordinateAlreadyExisting);
     }
 
+    // the entry is added only after the segment was written successfully
     this->WriteSubBlock(addSbBlkInfo);
+    this->sbBlkDirectory.TryAddSubBlock(entry);
 }
 
 /*virtual*/void CCziWriter::SyncAddAttachment(const libCZI::AddAttachmentInfo& addAttachmentInfo)
@@ -984,13 +985,14 @@ CCziWriter::~CCziWriter()
 
     CCziAttachmentsDirectoryBase::AttachmentEntry entry = CWriterUtils::AttchmntEntryFromAddAttachmentInfo(addAttachmentInfo);
     entry.FilePosition = this->nextSegmentPos;
-    bool b = this->attachmentDirectory.TryAddAttachment(entry);
-    if (b == false)
+    if (this->attachmentDirectory.IsAlreadyExisting(entry))
     {
         throw LibCZIWriteException("Could not add attachment because it already exists", LibCZIWriteException::ErrorType::AddAttachmentAlreadyExisting);
     }
 
+    // the entry is added only after the segment was written successfully
     this->WriteAttachment(addAttachmentInfo);
+    this->attachmentDirectory.TryAddAttachment(entry);
 }
 
 /*virtual*/void CCziWriter::SyncWriteMetadata(const libCZI::WriteMetadataInfo& metadataInfo)
-- 
2.43.0


From df8c2a1e09ff0550b1ab0742f270b0db7802b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:11 +0000
Subject: [PATCH 09/74] fix: check the arguments when replacing a subblock or
 an attachment

---
 Src/libCZI/CziReaderWriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 01576f9..5289775 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -167,6 +167,10 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
 /*virtual*/void CCziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfo& addSbBlkInfo)
 {
     this->ThrowIfNotOperational();
+
+    // check arguments
+    CWriterUtils::CheckAddSubBlockArguments(addSbBlkInfo);
+
     CCziSubBlockDirectoryBase::SubBlkEntry sbEntryExisting;
     bool b = this->sbBlkDirectory.TryGetSubBlock(key, &sbEntryExisting);
     if (b == false)
@@ -842,6 +846,10 @@ void CCziReaderWriter::WriteToOutputStream(std::uint64_t offset, const void* pv,
 /*virtual*/void CCziReaderWriter::ReplaceAttachment(int attchmntId, const libCZI::AddAttachmentInfo& addAttachmentInfo)
 {
     this->ThrowIfNotOperational();
+
+    // check arguments
+    CWriterUtils::CheckAddAttachmentArguments(addAttachmentInfo);
+
     CCziAttachmentsDirectoryBase::AttachmentEntry attchmntEntryExisting;
     bool b = this->attachmentDirectory.TryGetAttachment(attchmntId, &attchmntEntryExisting);
     if (b == false)
-- 
2.43.0


From d1fcea2c8d7cc849b22989ecba53da7e3c332b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:42 +0000
Subject: [PATCH 10/74] fix: consider the M-index of subblocks without any
 dimension in the statistics

---
 Src/libCZI/CziSubBlockDirectory.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 547bf36..6b08bf6 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -81,22 +81,22 @@ void CSbBlkStatisticsUpdater::UpdateStatistics(const CCziSubBlockDirectoryBase::
                 }
             }
 
-            if (entry.IsMIndexValid())
-            {
-                if (entry.mIndex < this->statistics.minMindex)
-                {
-                    this->statistics.minMindex = entry.mIndex;
-                }
-
-                if (entry.mIndex > this->statistics.maxMindex)
-                {
-                    this->statistics.maxMindex = entry.mIndex;
-                }
-            }
-
             return true;
         });
 
+    if (entry.IsMIndexValid())
+    {
+        if (entry.mIndex < this->statistics.minMindex)
+        {
+            this->statistics.minMindex = entry.mIndex;
+        }
+
+        if (entry.mIndex > this->statistics.maxMindex)
+        {
+            this->statistics.maxMindex = entry.mIndex;
+        }
+    }
+
     // now deal with "enclosing Rect" for the scenes...
     int sceneIndex;
     if (entry.coordinate.TryGetPosition(libCZI::DimensionIndex::S, &sceneIndex))
-- 
2.43.0


From 6cffbd2d4e964e93c74e42c06f6ac5874ecc631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:53 +0000
Subject: [PATCH 11/74] fix: pyramid-statistics must not count subblocks twice
 after modifying the document

---
 Src/libCZI/CziSubBlockDirectory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 6b08bf6..8a42307 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -40,6 +40,7 @@ void CSbBlkStatisticsUpdater::Clear()
 {
     this->statistics.Invalidate();
     this->statistics.subBlockCount = 0;
+    this->pyramidStatistics.scenePyramidStatistics.clear();
     this->pyramidStatisticsDirty = false;
 }
 
-- 
2.43.0


From 5e4f0b975b97ffc1d49ddcacab14a168bc20c0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:57 +0000
Subject: [PATCH 12/74] fix: negative indices of subblocks and attachments are
 to be reported as not found

---
 Src/libCZI/CziAttachmentsDirectory.cpp | 2 +-
 Src/libCZI/CziSubBlockDirectory.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziAttachmentsDirectory.cpp b/Src/libCZI/CziAttachmentsDirectory.cpp
index 3d66f41..92408d6 100644
--- a/Src/libCZI/CziAttachmentsDirectory.cpp
+++ b/Src/libCZI/CziAttachmentsDirectory.cpp
@@ -57,7 +57,7 @@ void CCziAttachmentsDirectory::EnumAttachments(const std::function<bool(int inde
 
 bool CCziAttachmentsDirectory::TryGetAttachment(int index, AttachmentEntry& entry) const
 {
-    if (index < (int)this->attachmentEntries.size())
+    if (index >= 0 && index < (int)this->attachmentEntries.size())
     {
         entry = this->attachmentEntries.at(index);
         return true;
diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 8a42307..979d544 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -416,7 +416,7 @@ void CCziSubBlockDirectory::EnumSubBlocks(const std::function<bool(int index, co
 
 bool CCziSubBlockDirectory::TryGetSubBlock(int index, SubBlkEntry& entry) const
 {
-    if (index < (int)this->subBlks.size())
+    if (index >= 0 && index < (int)this->subBlks.size())
     {
         entry = this->subBlks.at(index);
         return true;
-- 
2.43.0


From b48ff530c296dda6e722a2057f6012172692780b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:22 +0000
Subject: [PATCH 13/74] fix: lo-hi-byte-packing of Bgr48 when size-mismatches
 are to be handled

---
 Src/libCZI/decoder_zstd.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index 5aeef82..ea6111c 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -280,6 +280,8 @@ namespace
         size_t expectedSize = height * stride;
         const auto zstd_frame_content_size = GetZstdContentSizeOrThrow(ptr_data, size);
 
+        // Note: The lo-hi-byte-packing operates on 16-bit words, and all the "widths" given below are the number of those words
+        //        (so, three per pixel in case of Bgr48).
         if (zstd_frame_content_size == expectedSize)
         {
             unique_ptr<void, decltype(&free)> temporary_buffer(malloc(zstd_frame_content_size), free);
@@ -292,7 +294,7 @@ namespace
 
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, stride / bytes_per_pel, height, bitmap_lock_info.stride, bitmap_lock_info.ptrDataRoi);
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, stride / 2, height, bitmap_lock_info.stride, bitmap_lock_info.ptrDataRoi);
             return bitmap;
         }
         else if (zstd_frame_content_size < expectedSize)
@@ -307,7 +309,7 @@ namespace
 
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height, stride);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / bytes_per_pel, 1, zstd_frame_content_size, bitmap_lock_info.ptrDataRoi);
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / 2, 1, zstd_frame_content_size, bitmap_lock_info.ptrDataRoi);
             memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + decompressed_size, 0, expectedSize - decompressed_size);
             return bitmap;
         }
@@ -331,7 +333,7 @@ namespace
                 throw runtime_error("Failed to allocate temporary buffer for Zstd-decompression.");
             }
 
-            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / bytes_per_pel, 1, zstd_frame_content_size, temporary_buffer_for_packed.get());
+            LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / 2, 1, zstd_frame_content_size, temporary_buffer_for_packed.get());
 
             // now we can release the first temporary buffer
             temporary_buffer.reset();
-- 
2.43.0


From f51c7ce5bc15774d42907fb56b32d252afb130e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:38 +0000
Subject: [PATCH 14/74] fix: report a failed allocation of the temporary buffer
 with zstd1-compression

---
 Src/libCZI/zstdCompress.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Src/libCZI/zstdCompress.cpp b/Src/libCZI/zstdCompress.cpp
index c7d90bf..d40c40a 100644
--- a/Src/libCZI/zstdCompress.cpp
+++ b/Src/libCZI/zstdCompress.cpp
@@ -260,6 +260,12 @@ bool libCZI::ZstdCompress::CompressZStd1(std::uint32_t sourceWidth, std::uint32_
     {
         const size_t requiredSizeTemp = sourceWidth * bytesPerPel * sourceHeight;
         void* tempBuffer = allocateTempBuffer(requiredSizeTemp);
+        if (tempBuffer == nullptr)
+        {
+            stringstream ss;
+            ss << "Allocation of temporary buffer (of " << requiredSizeTemp << " bytes) failed.";
+            throw runtime_error(ss.str());
+        }
 
         auto deleter = [&](void* ptr) -> void {freeTempBuffer(ptr); };
         const unique_ptr<void, decltype(deleter)> upTemp(tempBuffer, deleter);
-- 
2.43.0


From a0dbdb87ba210c7d7b8bdc7e1b4ab267f0760ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:43 +0000
Subject: [PATCH 15/74] fix: do not read beyond the data when parsing the
 zstd1-header

---
 Src/libCZI/decoder_zstd.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index ea6111c..2f34217 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -374,13 +374,10 @@ namespace
             return retVal;
         }
 
-        if (*ptrData == 3)
+        // otherwise, the header must be 3 bytes in size, and all of them must be there
+        if (*ptrData != 3 || size < 3)
         {
-            // in this case... the size must be at least 3 
-            if (size < 3)
-            {
-                return retVal;
-            }
+            return retVal;
         }
 
         // is "chunk type 1" next?
-- 
2.43.0


From 3e584bdcaf0183aaa8ac19b1d57d666a9ac789e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:38 +0000
Subject: [PATCH 16/74] fix: JPG-XR-compression of Gray32Float with a quality
 below 50%

---
 Src/JxrDecode/JxrDecode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/JxrDecode/JxrDecode.cpp b/Src/JxrDecode/JxrDecode.cpp
index 7e63e7a..4e3fe7c 100644
--- a/Src/JxrDecode/JxrDecode.cpp
+++ b/Src/JxrDecode/JxrDecode.cpp
@@ -538,7 +538,7 @@ size_t JxrDecode::CompressedData::GetSize() const
         pEncoder->WMP.wmiSCP.olOverlap = OL_TWO;
     }
 
-    if (quality >= 0.5F || /*PI.uBitsPerSample > 8*/(pixel_format == JxrDecode::PixelFormat::kBgr48 || pixel_format == JxrDecode::PixelFormat::kGray16))
+    if (quality >= 0.5F || /*PI.uBitsPerSample > 8*/(pixel_format == JxrDecode::PixelFormat::kBgr48 || pixel_format == JxrDecode::PixelFormat::kGray16 || pixel_format == JxrDecode::PixelFormat::kGray32Float))
     {
         pEncoder->WMP.wmiSCP.cfColorFormat = YUV_444;
     }
-- 
2.43.0


From ffd5c2198d62da552e7d1a289fa9b0a433fb766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:10 +0000
Subject: [PATCH 17/74] fix: check the arguments of the JPG-XR-compression for
 Bgr48

---
 Src/libCZI/jxrlibcompress.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/Src/libCZI/jxrlibcompress.cpp b/Src/libCZI/jxrlibcompress.cpp
index 169227e..770a13b 100644
--- a/Src/libCZI/jxrlibcompress.cpp
+++ b/Src/libCZI/jxrlibcompress.cpp
@@ -78,6 +78,22 @@ public:
     // TODO(JBL): would be nice if the encoder would support Bgr48 directly somehow
     if (jxrdecode_pixel_format == JxrDecode::PixelFormat::kBgr48)
     {
+        // the encoder only gets to see the copy made below, so the arguments have to be checked here
+        if (ptrData == nullptr)
+        {
+            throw invalid_argument("ptrData must not be null");
+        }
+
+        if (width == 0 || height == 0)
+        {
+            throw invalid_argument("width and height must be greater than zero");
+        }
+
+        if (stride < static_cast<uint64_t>(width) * 6)
+        {
+            throw invalid_argument("stride is too small");
+        }
+
         // unfortunately, we have to make a temporary copy
         const auto bitmap_rgb48 = GetSite()->CreateBitmap(PixelType::Bgr48, width, height);
 
-- 
2.43.0


From 9418d15c97ebec7b28bf70bd81619d820a5d76d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:42 +0000
Subject: [PATCH 18/74] fix: do not read beyond the signature when opening
 JPG-XR-data

---
 Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c b/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c
index dae26ba..40ea170 100644
--- a/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c
+++ b/Src/JxrDecode/jxrlib/jxrgluelib/JXRGlueJxr.c
@@ -1799,7 +1799,7 @@ ERR JXRLIB_API(ReadContainer)(
     struct tagWMPStream* pWS = pID->pStream;
     size_t offPos = 0;
 
-    char szSig[2] = { 0 };
+    char szSig[3] = { 0 };  // including a terminating zero
     U16 uWmpID = 0;
     U32 offPFD = 0;
     U16 cPFDEntry = 0;
@@ -1811,7 +1811,7 @@ ERR JXRLIB_API(ReadContainer)(
 
     //================================
     // Header
-    Call(pWS->Read(pWS, szSig, sizeof(szSig))); offPos += 2;
+    Call(pWS->Read(pWS, szSig, sizeof(szSig) - 1)); offPos += 2;
     FailIf(szSig != strstr(szSig, "II"), WMP_errUnsupportedFormat);
 
     Call(JXRLIB_API(GetUShort)(pWS, offPos, &uWmpID)); offPos += 2;
-- 
2.43.0


From 32e92a3049cf23a4cd5303b0f8d3fccd2e790ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:03 +0000
Subject: [PATCH 19/74] fix: conversion from Bgr24 to Bgr48 must treat the
 source as 8-bit values

---
 Src/libCZI/BitmapOperations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 2d41edb..608a3f4 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -94,7 +94,7 @@ namespace libCZI
         {
             void ConvertPixel(void* ptrDest, const void* ptrSrc) const
             {
-                const std::uint16_t* src = (const std::uint16_t*)ptrSrc;
+                const std::uint8_t* src = (const std::uint8_t*)ptrSrc;
                 std::uint16_t* dst = (std::uint16_t*)ptrDest;
                 *dst = *src;
                 *(dst + 1) = *(src + 1);
-- 
2.43.0


From 0c072a5cc9d3208e24b9c44be296f49576678c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:03 +0000
Subject: [PATCH 20/74] fix: drawing the border of a tile must not shift its
 pixels, and work for tiles of one pixel width

---
 Src/libCZI/BitmapOperations.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 608a3f4..53ec555 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -40,7 +40,11 @@ namespace libCZI
                 {
                     char* dest = static_cast<char*>(dstPtr) + y * static_cast<std::ptrdiff_t>(dstStride);
                     const char* src = static_cast<const char*>(srcPtr) + y * static_cast<std::ptrdiff_t>(srcStride);
-                    memcpy(dest + kBytesPerPel, src, bytes_to_copy - 2 * kBytesPerPel);
+                    if (width > 2)
+                    {
+                        memcpy(dest + kBytesPerPel, src + kBytesPerPel, bytes_to_copy - 2 * kBytesPerPel);
+                    }
+
                     memset(dest, 0, kBytesPerPel);
                     memset(dest + bytes_to_copy - kBytesPerPel, 0, kBytesPerPel);
                 }
-- 
2.43.0


From ed6375baea922530a06f6d9effe23243a53242bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:31 +0000
Subject: [PATCH 21/74] fix: zero the whole remainder with lo-hi-byte-packing
 of odd-sized data

---
 Src/libCZI/decoder_zstd.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/decoder_zstd.cpp b/Src/libCZI/decoder_zstd.cpp
index 2f34217..019effc 100644
--- a/Src/libCZI/decoder_zstd.cpp
+++ b/Src/libCZI/decoder_zstd.cpp
@@ -310,7 +310,8 @@ namespace
             auto bitmap = CStdBitmapData::Create(pixel_type, width, height, stride);
             auto bitmap_lock_info = libCZI::ScopedBitmapLockerSP(bitmap);
             LoHiBytePackUnpack::LoHiBytePackStrided(temporary_buffer.get(), zstd_frame_content_size, decompressed_size / 2, 1, zstd_frame_content_size, bitmap_lock_info.ptrDataRoi);
-            memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + decompressed_size, 0, expectedSize - decompressed_size);
+            const size_t packed_size = decompressed_size / 2 * 2;   // only complete 16-bit words have been written
+            memset(static_cast<uint8_t*>(bitmap_lock_info.ptrDataRoi) + packed_size, 0, expectedSize - packed_size);
             return bitmap;
         }
         else
-- 
2.43.0


From 83fb4085360d45e9a02f320005611c9e3047e77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:31 +0000
Subject: [PATCH 22/74] fix: release the bitmap locks if a conversion of JPG-XR
 data fails

---
 Src/libCZI/CreateBitmap.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/CreateBitmap.cpp b/Src/libCZI/CreateBitmap.cpp
index 26a8e67..456e5a9 100644
--- a/Src/libCZI/CreateBitmap.cpp
+++ b/Src/libCZI/CreateBitmap.cpp
@@ -43,8 +43,8 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_JpgXr(ISubB
             // create a bitmap of the size described in the subblock
             auto adjusted_bitmap = CStdBitmapData::Create(sub_block_info.pixelType, sub_block_info.physicalSize.w, sub_block_info.physicalSize.h);
             CBitmapOperations::Fill(adjusted_bitmap.get(), RgbFloatColor{ 0,0,0 });
-            auto adjusted_bitmap_lock = adjusted_bitmap->Lock();
-            auto decoded_bitmap_lock = decoded_bitmap->Lock();
+            const ScopedBitmapLockerSP adjusted_bitmap_lock{ adjusted_bitmap };
+            const ScopedBitmapLockerSP decoded_bitmap_lock{ decoded_bitmap };
             CBitmapOperations::CopyWithOffsetInfo copy_info;
             copy_info.xOffset = 0;
             copy_info.yOffset = 0;
@@ -60,8 +60,6 @@ static std::shared_ptr<libCZI::IBitmapData> CreateBitmapFromSubBlock_JpgXr(ISubB
             copy_info.dstHeight = adjusted_bitmap->GetHeight();
             copy_info.drawTileBorder = false;
             CBitmapOperations::CopyWithOffset(copy_info);
-            adjusted_bitmap->Unlock();
-            decoded_bitmap->Unlock();
             return adjusted_bitmap;
         }
     }
-- 
2.43.0


From 03f0e9e4a8c7fe0b60d00875b7b1b0e72a008a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:23 +0000
Subject: [PATCH 23/74] fix: the tile accessor honours the scene filter option

---
 Src/libCZI/SingleChannelTileAccessor.cpp | 17 +++++++++++++----
 Src/libCZI/SingleChannelTileAccessor.h   |  4 ++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/SingleChannelTileAccessor.cpp b/Src/libCZI/SingleChannelTileAccessor.cpp
index 543ca57..7298b8f 100644
--- a/Src/libCZI/SingleChannelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelTileAccessor.cpp
@@ -135,17 +135,17 @@ void CSingleChannelTileAccessor::InternalGet(int xPos, int yPos, libCZI::IBitmap
     Clear(pBm, pOptions->backGroundColor);
     const IntSize sizeBm = pBm->GetSize();
     const IntRect roi{ xPos,yPos,static_cast<int>(sizeBm.w),static_cast<int>(sizeBm.h) };
-    const std::vector<IndexAndM> subBlocksSet = this->GetSubBlocksSubset(roi, planeCoordinate, pOptions->sortByM);
+    const std::vector<IndexAndM> subBlocksSet = this->GetSubBlocksSubset(roi, planeCoordinate, pOptions->sceneFilter.get(), pOptions->sortByM);
 
     this->ComposeTiles(pBm, xPos, yPos, subBlocksSet, *pOptions);
 }
 
-std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::GetSubBlocksSubset(const IntRect& roi, const IDimCoordinate* planeCoordinate, bool sortByM)
+std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::GetSubBlocksSubset(const IntRect& roi, const IDimCoordinate* planeCoordinate, const IIndexSet* sceneFilter, bool sortByM)
 {
     // ok... for a first tentative, experimental and quick-n-dirty implementation, simply
     // get all subblocks by enumerating all
     std::vector<IndexAndM> subBlocksSet;
-    this->GetAllSubBlocks(roi, planeCoordinate, [&](int index, int mIndex)->void {subBlocksSet.emplace_back(IndexAndM{ index,mIndex }); });
+    this->GetAllSubBlocks(roi, planeCoordinate, sceneFilter, [&](int index, int mIndex)->void {subBlocksSet.emplace_back(IndexAndM{ index,mIndex }); });
     if (sortByM == true)
     {
         // sort ascending-by-M-index (-> lowest M-index first, highest last)
@@ -161,11 +161,20 @@ std::vector<CSingleChannelTileAccessor::IndexAndM> CSingleChannelTileAccessor::G
     return subBlocksSet;
 }
 
-void CSingleChannelTileAccessor::GetAllSubBlocks(const IntRect& roi, const IDimCoordinate* planeCoordinate, const std::function<void(int index, int mIndex)>& appender) const
+void CSingleChannelTileAccessor::GetAllSubBlocks(const IntRect& roi, const IDimCoordinate* planeCoordinate, const IIndexSet* sceneFilter, const std::function<void(int index, int mIndex)>& appender) const
 {
     this->sbBlkRepository->EnumSubset(planeCoordinate, nullptr, true,
         [&](int idx, const SubBlockInfo& info)->bool
         {
+            if (sceneFilter != nullptr)
+            {
+                int indexS;
+                if (info.coordinate.TryGetPosition(DimensionIndex::S, &indexS) && !sceneFilter->IsContained(indexS))
+                {
+                    return true;
+                }
+            }
+
             if (Utilities::DoIntersect(roi, info.logicalRect))
             {
                 appender(idx, info.mIndex);
diff --git a/Src/libCZI/SingleChannelTileAccessor.h b/Src/libCZI/SingleChannelTileAccessor.h
index 7a6555a..2d4bcb9 100644
--- a/Src/libCZI/SingleChannelTileAccessor.h
+++ b/Src/libCZI/SingleChannelTileAccessor.h
@@ -26,7 +26,7 @@ namespace libCZI
             void Get(libCZI::IBitmapData* pDest, const libCZI::IntPointAndFrameOfReference& position, const libCZI::IDimCoordinate* planeCoordinate, const Options* pOptions) override;
         private:
             void InternalGet(int xPos, int yPos, libCZI::IBitmapData* pBm, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::ISingleChannelTileAccessor::Options* pOptions);
-            void GetAllSubBlocks(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const std::function<void(int index, int mIndex)>& appender) const;
+            void GetAllSubBlocks(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, const std::function<void(int index, int mIndex)>& appender) const;
 
             struct IndexAndM
             {
@@ -34,7 +34,7 @@ namespace libCZI
                 int mIndex;
             };
 
-            std::vector<CSingleChannelTileAccessor::IndexAndM> GetSubBlocksSubset(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, bool sortByM);
+            std::vector<CSingleChannelTileAccessor::IndexAndM> GetSubBlocksSubset(const libCZI::IntRect& roi, const libCZI::IDimCoordinate* planeCoordinate, const libCZI::IIndexSet* sceneFilter, bool sortByM);
             void ComposeTiles(libCZI::IBitmapData* pBm, int xPos, int yPos, const std::vector<IndexAndM>& subBlocksSet, const libCZI::ISingleChannelTileAccessor::Options& options);
         };
 
-- 
2.43.0


From 128e22f2bb538619c3fbbbd91a3fa42ea1ce17bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:16 +0000
Subject: [PATCH 24/74] fix: requesting a pyramid layer without tiles in the
 ROI gives background instead of an internal error

---
 Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
index 88d166e..e1aa29d 100644
--- a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
@@ -86,7 +86,13 @@ void CSingleChannelPyramidLevelTileAccessor::InternalGet(libCZI::IBitmapData* pD
 
     const auto byLayer = CalcByLayer(subSet, pyramidInfo.minificationFactor);
     // ok, now we just have to look at our requested pyramid-layer
-    const auto& indices = byLayer.at(pyramidInfo.pyramidLayerNo).indices;
+    const auto requestedLayer = byLayer.find(pyramidInfo.pyramidLayerNo);
+    if (requestedLayer == byLayer.cend())
+    {   // there are only subblocks from other pyramid-layers in the requested plane/ROI, so there is nothing to do
+        return;
+    }
+
+    const auto& indices = requestedLayer->second.indices;
 
     // and now... copy...
     this->ComposeTiles(pDest, xPos, yPos, sizeOfPixelOnLayer0, static_cast<int>(indices.size()), options,
-- 
2.43.0


From 3baa79806dbb46f57e7df2620113dbabc698cfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:44 +0000
Subject: [PATCH 25/74] fix: bad pyramid layer parameters are reported instead
 of dividing by zero or looping forever

---
 .../SingleChannelPyramidLevelTileAccessor.cpp | 30 ++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
index e1aa29d..e06592c 100644
--- a/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelPyramidLevelTileAccessor.cpp
@@ -3,6 +3,7 @@
 // SPDX-License-Identifier: LGPL-3.0-or-later
 
 #include <cmath>
+#include <limits>
 #include "SingleChannelPyramidLevelTileAccessor.h"
 #include "utilities.h"
 #include "Site.h"
@@ -78,7 +79,14 @@ void CSingleChannelPyramidLevelTileAccessor::InternalGet(libCZI::IBitmapData* pD
     this->CheckPlaneCoordinates(planeCoordinate);
     Clear(pDest, options.backGroundColor);
     const auto sizeBitmap = pDest->GetSize();
-    const auto subSet = GetSubBlocksSubset(IntRect{ xPos,yPos,static_cast<int>(sizeBitmap.w) * sizeOfPixelOnLayer0,static_cast<int>(sizeBitmap.h) * sizeOfPixelOnLayer0 }, planeCoordinate, pyramidInfo, options.sceneFilter.get(), options.sortByM);
+    const int64_t widthOfRoi = static_cast<int64_t>(sizeBitmap.w) * sizeOfPixelOnLayer0;
+    const int64_t heightOfRoi = static_cast<int64_t>(sizeBitmap.h) * sizeOfPixelOnLayer0;
+    if (widthOfRoi > (numeric_limits<int>::max)() || heightOfRoi > (numeric_limits<int>::max)())
+    {
+        throw invalid_argument("The region is too large for the specified pyramid layer.");
+    }
+
+    const auto subSet = GetSubBlocksSubset(IntRect{ xPos,yPos,static_cast<int>(widthOfRoi),static_cast<int>(heightOfRoi) }, planeCoordinate, pyramidInfo, options.sceneFilter.get(), options.sortByM);
     if (subSet.empty())
     {	// no subblocks were found in the requested plane/ROI, so there is nothing to do
         return;
@@ -155,13 +163,22 @@ libCZI::IntRect CSingleChannelPyramidLevelTileAccessor::NormalizePyramidRect(int
 /// <returns>	The calculated size of pixel (in units of pixels on pyramid layer 0). </returns>
 /*static*/int CSingleChannelPyramidLevelTileAccessor::CalcSizeOfPixelOnLayer0(const PyramidLayerInfo& pyramidInfo)
 {
-    int f = 1;
+    if (pyramidInfo.pyramidLayerNo > 0 && pyramidInfo.minificationFactor < 2)
+    {
+        throw invalid_argument("The minification factor must be at least 2.");
+    }
+
+    int64_t f = 1;
     for (int i = 0; i < pyramidInfo.pyramidLayerNo; ++i)
     {
         f *= pyramidInfo.minificationFactor;
+        if (f > (numeric_limits<int>::max)())
+        {
+            throw invalid_argument("The pyramid layer number is out of range.");
+        }
     }
 
-    return f;
+    return static_cast<int>(f);
 }
 
 std::map<int, CSingleChannelPyramidLevelTileAccessor::SbByLayer> CSingleChannelPyramidLevelTileAccessor::CalcByLayer(const std::vector<SbInfo>& sbinfos, int minificationFactor)
@@ -190,7 +207,7 @@ int CSingleChannelPyramidLevelTileAccessor::CalcPyramidLayerNo(const libCZI::Int
     }
 
     const int minFactorInt = static_cast<int>(round(minFactor));
-    int f = 1;
+    int64_t f = 1;
     int layerNo = -1;
     for (int layer = 0;; layer++)
     {
@@ -200,6 +217,11 @@ int CSingleChannelPyramidLevelTileAccessor::CalcPyramidLayerNo(const libCZI::Int
             break;
         }
 
+        if (minificationFactorPerLayer < 2)
+        {
+            break;  // there are no layers besides layer-0 with such a factor
+        }
+
         f *= minificationFactorPerLayer;
     }
 
-- 
2.43.0


From 0626edf262ebc9bf0a66f1bd92b2fde0daa9de8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:39 +0000
Subject: [PATCH 26/74] fix: masked copy with pixel type conversion wrote only
 the first pixel of a line

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 5832c35..5624313 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -713,10 +713,10 @@ namespace
                 {
                     conv.ConvertPixel(dest, src);
                 }
-            }
 
-            dest += CziUtils::BytesPerPel<tDstPixelType>();;
-            src += CziUtils::BytesPerPel<tSrcPixelType>();;
+                dest += CziUtils::BytesPerPel<tDstPixelType>();
+                src += CziUtils::BytesPerPel<tSrcPixelType>();
+            }
         }
     }
 
-- 
2.43.0


From 5406bb4003acb8440183786820311b1a720b9620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:39 +0000
Subject: [PATCH 27/74] fix: mask of a cached subblock applied regardless of
 whether mask-aware mode is requested

---
 Src/libCZI/SingleChannelAccessorBase.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/SingleChannelAccessorBase.cpp b/Src/libCZI/SingleChannelAccessorBase.cpp
index 286b50f..58b9d6c 100644
--- a/Src/libCZI/SingleChannelAccessorBase.cpp
+++ b/Src/libCZI/SingleChannelAccessorBase.cpp
@@ -175,17 +175,21 @@ std::vector<int> CSingleChannelAccessorBase::CheckForVisibility(const libCZI::In
             }
 
             result.bitmap = bitmap_from_cache.bitmap;
-            result.mask = bitmap_from_cache.mask;
+            result.mask = mask_aware_mode ? bitmap_from_cache.mask : nullptr;
         }
         else
         {
             const auto subblock = sub_block_repository->ReadSubBlock(sub_block_index);
             result.bitmap = subblock->CreateBitmap();
-            result.mask = mask_aware_mode ? CSingleChannelAccessorBase::TryToGetMaskBitmapFromSubBlock(subblock) : nullptr;
             result.subBlockInfo = subblock->GetSubBlockInfo();
-            if (!only_add_compressed_sub_blocks_to_cache || result.subBlockInfo.GetCompressionMode() != CompressionMode::UnCompressed)
+            const bool add_to_cache = !only_add_compressed_sub_blocks_to_cache || result.subBlockInfo.GetCompressionMode() != CompressionMode::UnCompressed;
+
+            // An item in the cache may be used in mask-aware mode later, so we have to put the mask into the cache in any case.
+            const auto mask = (mask_aware_mode || add_to_cache) ? CSingleChannelAccessorBase::TryToGetMaskBitmapFromSubBlock(subblock) : nullptr;
+            result.mask = mask_aware_mode ? mask : nullptr;
+            if (add_to_cache)
             {
-                cache->Add(sub_block_index, { result.bitmap, result.mask });
+                cache->Add(sub_block_index, { result.bitmap, mask });
             }
         }
     }
-- 
2.43.0


From 436a17330d2d54d2e5c0aed672e649de74a6b793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:39 +0000
Subject: [PATCH 28/74] fix: visibility optimization dropped tiles which are
 visible through the mask of other tiles

---
 Src/libCZI/SingleChannelScalingTileAccessor.cpp | 3 ++-
 Src/libCZI/SingleChannelTileAccessor.cpp        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/SingleChannelScalingTileAccessor.cpp b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
index e12854d..7306a88 100644
--- a/Src/libCZI/SingleChannelScalingTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelScalingTileAccessor.cpp
@@ -368,7 +368,8 @@ void CSingleChannelScalingTileAccessor::Paint(libCZI::IBitmapData* bmDest, const
         }
     }
 
-    if (!options.useVisibilityCheckOptimization)
+    // note: with mask-awareness, a tile does not necessarily hide what is beneath it
+    if (!options.useVisibilityCheckOptimization || options.maskAware)
     {
         for (auto it = start_iterator; it != end_iterator; ++it)
         {
diff --git a/Src/libCZI/SingleChannelTileAccessor.cpp b/Src/libCZI/SingleChannelTileAccessor.cpp
index 7298b8f..206150b 100644
--- a/Src/libCZI/SingleChannelTileAccessor.cpp
+++ b/Src/libCZI/SingleChannelTileAccessor.cpp
@@ -51,7 +51,8 @@ void CSingleChannelTileAccessor::ComposeTiles(libCZI::IBitmapData* pBm, int xPos
     composeOptions.Clear();
     composeOptions.drawTileBorder = options.drawTileBorder;
 
-    if (options.useVisibilityCheckOptimization)
+    // note: with mask-awareness, a tile does not necessarily hide what is beneath it
+    if (options.useVisibilityCheckOptimization && !options.maskAware)
     {
         // Try to reduce the number of subblocks to be rendered by doing a visibility check, and only rendering those which are visible.
         // We report the subblocks in the order as they are given in the vector 'subBlocksSet', the lambda will be called with the
-- 
2.43.0


From 665ce1074e075ffe35b73d25e35bfb3de6b7c1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:34 +0000
Subject: [PATCH 29/74] fix: scaling could leave a gap of one pixel between
 adjacent tiles

---
 Src/libCZI/BitmapOperations.hpp        | 13 +++++++++----
 Src/libCZI/BitmapOperationsBitonal.cpp | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 53ec555..72c406b 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -433,10 +433,15 @@ namespace libCZI
             auto xMin = ((0 - resizeInfo.srcRoiX) * resizeInfo.dstRoiW) / (resizeInfo.srcRoiW) + resizeInfo.dstRoiX;
             auto xMax = ((resizeInfo.srcWidth - 1 - resizeInfo.srcRoiX) * (resizeInfo.dstRoiW)) / resizeInfo.srcRoiW + resizeInfo.dstRoiX;
 
-            const int dstXStartClipped = (std::max)(static_cast<int>(std::ceil(xMin)), dstXStart);
-            const int dstXEndClipped = (std::min)(static_cast<int>(std::ceil(xMax)), dstXEnd);
-            const int dstYStartClipped = (std::max)(static_cast<int>(std::ceil(yMin)), dstYStart);
-            const int dstYEndClipped = (std::min)(static_cast<int>(std::ceil(yMax)), dstYEnd);
+            // The destination pixels from 'min' up to (but not including) 'end' are the ones which map into the source; we allow for
+            //  some rounding error here, so that there are no gaps between adjacent tiles.
+            constexpr tFlt epsilon = static_cast<tFlt>(1e-6);
+            const auto xEnd = ((resizeInfo.srcWidth - resizeInfo.srcRoiX) * resizeInfo.dstRoiW) / resizeInfo.srcRoiW + resizeInfo.dstRoiX;
+            const auto yEnd = ((resizeInfo.srcHeight - resizeInfo.srcRoiY) * resizeInfo.dstRoiH) / resizeInfo.srcRoiH + resizeInfo.dstRoiY;
+            const int dstXStartClipped = (std::max)(static_cast<int>(std::ceil(xMin - epsilon)), dstXStart);
+            const int dstXEndClipped = (std::min)(static_cast<int>((std::max)(std::ceil(xMax), std::ceil(xEnd - epsilon) - 1)), dstXEnd);
+            const int dstYStartClipped = (std::max)(static_cast<int>(std::ceil(yMin - epsilon)), dstYStart);
+            const int dstYEndClipped = (std::min)(static_cast<int>((std::max)(std::ceil(yMax), std::ceil(yEnd - epsilon) - 1)), dstYEnd);
 
             const auto srcWidthOverDstWidth = resizeInfo.srcRoiW / resizeInfo.dstRoiW;
             const auto srcHeightOverDstHeight = resizeInfo.srcRoiH / resizeInfo.dstRoiH;
diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index 5624313..a15c7db 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -445,10 +445,15 @@ namespace
         auto xMin = ((0 - resize_info.srcRoiX) * resize_info.dstRoiW) / (resize_info.srcRoiW) + resize_info.dstRoiX;
         auto xMax = ((resize_info.srcWidth - 1 - resize_info.srcRoiX) * (resize_info.dstRoiW)) / resize_info.srcRoiW + resize_info.dstRoiX;
 
-        const int dstXStartClipped = (std::max)(static_cast<int>(std::ceil(xMin)), dstXStart);
-        const int dstXEndClipped = (std::min)(static_cast<int>(std::ceil(xMax)), dstXEnd);
-        const int dstYStartClipped = (std::max)(static_cast<int>(std::ceil(yMin)), dstYStart);
-        const int dstYEndClipped = (std::min)(static_cast<int>(std::ceil(yMax)), dstYEnd);
+        // The destination pixels from 'min' up to (but not including) 'end' are the ones which map into the source; we allow for
+        //  some rounding error here, so that there are no gaps between adjacent tiles.
+        constexpr tFlt epsilon = static_cast<tFlt>(1e-6);
+        const auto xEnd = ((resize_info.srcWidth - resize_info.srcRoiX) * resize_info.dstRoiW) / resize_info.srcRoiW + resize_info.dstRoiX;
+        const auto yEnd = ((resize_info.srcHeight - resize_info.srcRoiY) * resize_info.dstRoiH) / resize_info.srcRoiH + resize_info.dstRoiY;
+        const int dstXStartClipped = (std::max)(static_cast<int>(std::ceil(xMin - epsilon)), dstXStart);
+        const int dstXEndClipped = (std::min)(static_cast<int>((std::max)(std::ceil(xMax), std::ceil(xEnd - epsilon) - 1)), dstXEnd);
+        const int dstYStartClipped = (std::max)(static_cast<int>(std::ceil(yMin - epsilon)), dstYStart);
+        const int dstYEndClipped = (std::min)(static_cast<int>((std::max)(std::ceil(yMax), std::ceil(yEnd - epsilon) - 1)), dstYEnd);
 
         const auto srcWidthOverDstWidth = resize_info.srcRoiW / resize_info.dstRoiW;
         const auto srcHeightOverDstHeight = resize_info.srcRoiH / resize_info.dstRoiH;
-- 
2.43.0


From 75186312bcf5689fdad11a6aba99b178b02fa7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:22 +0000
Subject: [PATCH 30/74] fix: enumeration of chunks read all chunks but the
 first from a wrong position

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index da621b2..b8dca60 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -55,30 +55,28 @@ bool SubblockAttachmentAccessor::EnumerateChunksInChunkContainer(const std::func
         throw LibCZIException("Invalid attachment data in sub-block or no attachment present.");
     }
 
-    std::uint32_t offset = 0;
+    size_t offset = 0;
     bool chunk_delivered = false;
 
-    for (int index = 0;;)
+    for (int index = 0;; ++index)
     {
         ChunkInfo chunk_info;
 
         // Read the GUID (16 bytes)
-        memcpy(&chunk_info.guid, attachment_data, 16);
+        memcpy(&chunk_info.guid, attachment_data + offset, 16);
         Utilities::ConvertGuidToHostByteOrder(&chunk_info.guid);
-        attachment_data += 16;
 
         // Read the size (4 bytes)
-        memcpy(&chunk_info.size, attachment_data, 4);
+        memcpy(&chunk_info.size, attachment_data + offset + 16, 4);
         Utilities::ConvertUint32ToHostByteOrder(&chunk_info.size);
-        attachment_data += 4;
 
         // is sufficient data available?
-        if (size_attachment_data < offset + 20 + chunk_info.size)
+        if (size_attachment_data - offset - 20 < chunk_info.size)
         {
             throw LibCZIException("Corrupted chunk data.");
         }
 
-        chunk_info.offset = offset + 20;
+        chunk_info.offset = static_cast<std::uint32_t>(offset + 20);
 
         chunk_delivered = true;
         const bool b = functor_enum(index, chunk_info);
@@ -87,7 +85,7 @@ bool SubblockAttachmentAccessor::EnumerateChunksInChunkContainer(const std::func
             break;
         }
 
-        offset += 20 + chunk_info.size;
+        offset += static_cast<size_t>(20) + chunk_info.size;
 
         // if there are not at least 21 bytes left, we are done (note that we require at least 1 byte of payload!)
         if (size_attachment_data < offset + 21)
-- 
2.43.0


From 6f1db3ae851106f5dcc700b23280890a4bb2f710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:22 +0000
Subject: [PATCH 31/74] fix: missing or malformed valid pixel mask chunk led to
 out-of-bounds access

---
 Src/libCZI/SubblockAttachmentAccessor.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/SubblockAttachmentAccessor.cpp b/Src/libCZI/SubblockAttachmentAccessor.cpp
index b8dca60..8028277 100644
--- a/Src/libCZI/SubblockAttachmentAccessor.cpp
+++ b/Src/libCZI/SubblockAttachmentAccessor.cpp
@@ -105,18 +105,30 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
     }
 
     ChunkInfo chunk_info_valid_pixel_mask;
+    bool valid_pixel_mask_found = false;
     this->EnumerateChunksInChunkContainer(
-        [&chunk_info_valid_pixel_mask](int /*index*/, const ChunkInfo& info)
+        [&chunk_info_valid_pixel_mask, &valid_pixel_mask_found](int /*index*/, const ChunkInfo& info)
         {
             if (info.guid == kGuidValidPixelMask)
             {
                 chunk_info_valid_pixel_mask = info;
+                valid_pixel_mask_found = true;
                 return false; // stop enumeration
             }
 
             return true; // continue enumeration
         });
 
+    if (!valid_pixel_mask_found)
+    {
+        throw LibCZIException("The chunk container does not contain a valid pixel mask.");
+    }
+
+    if (chunk_info_valid_pixel_mask.size < 3 * sizeof(uint32_t))
+    {
+        throw LibCZIException("Invalid size of the valid pixel mask chunk.");
+    }
+
     SubBlockAttachmentMaskInfoGeneral mask_info_general;
     shared_ptr<const void> spData = this->sub_block_->GetRawData(ISubBlock::MemBlkType::Attachment, nullptr);
     memcpy(&mask_info_general.width, static_cast<const uint8_t*>(spData.get()) + chunk_info_valid_pixel_mask.offset, sizeof(mask_info_general.width));
@@ -172,7 +184,7 @@ libCZI::SubBlockAttachmentMaskInfoGeneral SubblockAttachmentAccessor::GetValidPi
         throw LibCZIException("Invalid dimensions for uncompressed bitonal bitmap.");
     }
 
-    const uint32_t minimal_stride = (mask_info.width + 7) / 8;
+    const uint32_t minimal_stride = mask_info.width / 8 + (mask_info.width % 8 != 0 ? 1 : 0);
     if (mask_info.stride < minimal_stride)
     {
         throw LibCZIException("Invalid stride for uncompressed bitonal bitmap.");
-- 
2.43.0


From 061a90002364d36709d62b9c41df1f77599b1eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:00 +0000
Subject: [PATCH 32/74] fix: filling a bitonal bitmap with a ROI left of or
 above the bitmap filled lines completely

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index a15c7db..ae9a04c 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -1048,8 +1048,8 @@ namespace
 {
     const int x1 = (std::max)(roi.x, 0);
     const int y1 = (std::max)(roi.y, 0);
-    const int x2 = (std::min)(static_cast<uint32_t>(roi.x + roi.w), width);
-    const int y2 = (std::min)(static_cast<uint32_t>(roi.y + roi.h), height);
+    const int x2 = static_cast<int>((std::min)(static_cast<int64_t>(roi.x) + roi.w, static_cast<int64_t>(width)));
+    const int y2 = static_cast<int>((std::min)(static_cast<int64_t>(roi.y) + roi.h, static_cast<int64_t>(height)));
     const int w = x2 - x1;
     const int h = y2 - y1;
 
-- 
2.43.0


From 7fd29def7635640a3a10c181664881ff55ed0c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:00 +0000
Subject: [PATCH 33/74] fix: decimation of bitonal bitmaps ignored parts of the
 neighborhood and accessed memory out of bounds

---
 Src/libCZI/BitmapOperationsBitonal.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index ae9a04c..cbae170 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -109,7 +109,7 @@ namespace
     private:
         static const std::uint8_t DecimateBitonalTable[256];
         static void DecimateLine(int y, int height, int regionSize, const std::uint8_t* ptrSrc, int widthSrc, int strideSrc, std::uint8_t* ptrDest, int widthDest, int strideDest);
-        static std::uint8_t GetByteAfter(const void* ptr, int x, int width);
+        static std::uint8_t GetByteAfter(int y, int height, const std::uint8_t* ptrSrc, int x, int width, int pitchSrc);
         static std::uint16_t FilterDword(std::uint32_t dw, uint8_t byteBefore, uint8_t byteAfter);
     };
 
@@ -175,7 +175,7 @@ namespace
 
         for (int x = 0; x < numberOfDwords; ++x)
         {
-            uint8_t byteAfter = GetByteAfter(ptrSrc, (x * 4) + 4, widthSrc);
+            uint8_t byteAfter = GetByteAfter(y, height, ptrSrc, (x * 4) + 4, widthSrc, strideSrc);
             uint32_t dw = EndianessConv::BswapDWORD(DecimateHelpers<RegionSize>::GetDword(y, height, ptrSrc + static_cast<size_t>(x) * 4, strideSrc));
             uint16_t dest = FilterDword(dw, byteBefore, byteAfter);
             byteBefore = static_cast<uint8_t>(dw);
@@ -191,7 +191,13 @@ namespace
             // then filter the DWORD as usually
             const uint16_t dest = FilterDword(dw, byteBefore, 0xff);
 
-            if (bitsRemaining <= 16)
+            const int bitsRemainingDest = widthDest - numberOfDwords * 16;
+            if (bitsRemainingDest <= 0)
+            {
+                return;
+            }
+
+            if (bitsRemainingDest <= 8)
             {
                 *reinterpret_cast<uint8_t*>(reinterpret_cast<uintptr_t>(ptrDest) + 2 * static_cast<size_t>(numberOfDwords)) = static_cast<uint8_t>(dest >> 8);
             }
@@ -203,11 +209,13 @@ namespace
     }
 
     template <int RegionSize, class EndianessConv>
-    uint8_t DecimateBitonal<RegionSize, EndianessConv>::GetByteAfter(const void* ptr, int x, int width)
+    uint8_t DecimateBitonal<RegionSize, EndianessConv>::GetByteAfter(int y, int height, const uint8_t* ptrSrc, int x, int width, int pitchSrc)
     {
-        if (x < width)
+        const int bitsRemaining = width - x * 8;
+        if (bitsRemaining > 0)
         {
-            return *(static_cast<const uint8_t*>(ptr) + x);
+            // as with the DWORDs, the lines above and below have to be taken into account
+            return static_cast<uint8_t>(DecimateHelpers<RegionSize>::GetDwordPartial(y, height, ptrSrc + x, (std::min)(bitsRemaining, 8), pitchSrc));
         }
 
         return 0xff;
@@ -301,7 +309,7 @@ namespace
         for (int i = start; i <= end; ++i)
         {
             dw &= *ptr;
-            ptr = reinterpret_cast<const uint32_t*>(static_cast<const uint8_t*>(ptrSrc) + pitchSrc);
+            ptr = reinterpret_cast<const uint32_t*>(reinterpret_cast<const uint8_t*>(ptr) + pitchSrc);
         }
 
         return dw;
-- 
2.43.0


From 731209e427d4751f181736a5909ac32acaa06575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:54 +0000
Subject: [PATCH 34/74] fix: multi-channel composition limits black and white
 point to the range 0..1

---
 Src/libCZI/MultiChannelCompositor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/MultiChannelCompositor.cpp b/Src/libCZI/MultiChannelCompositor.cpp
index 5da9b83..72e9344 100644
--- a/Src/libCZI/MultiChannelCompositor.cpp
+++ b/Src/libCZI/MultiChannelCompositor.cpp
@@ -478,8 +478,9 @@ private:
 
         CGetBlackWhitePtBase(float blackPt, float whitePt)
         {
-            this->blackPt = static_cast<tValue>(std::ceil(blackPt * maxValue));
-            this->whitePt = static_cast<tValue>(std::floor(whitePt * maxValue));
+            // values outside of the range 0..1 are limited to this range - otherwise the conversion to an integer would be undefined
+            this->blackPt = static_cast<tValue>(std::ceil((std::min)((std::max)(0.f, blackPt), 1.f) * maxValue));
+            this->whitePt = static_cast<tValue>(std::floor((std::min)((std::max)(0.f, whitePt), 1.f) * maxValue));
         };
     };
 
-- 
2.43.0


From ff1cf178ddba9e078df20e41417ac8835c53704c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:22 +0000
Subject: [PATCH 35/74] fix: multi-channel composition checks for null bitmaps
 and negative look-up table sizes before use

---
 Src/libCZI/MultiChannelCompositor.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Src/libCZI/MultiChannelCompositor.cpp b/Src/libCZI/MultiChannelCompositor.cpp
index 72e9344..f55f9c5 100644
--- a/Src/libCZI/MultiChannelCompositor.cpp
+++ b/Src/libCZI/MultiChannelCompositor.cpp
@@ -1053,6 +1053,13 @@ private:
 
         for (int i = 0; i < channelCount; ++i)
         {
+            if (srcBitmaps[i] == nullptr)
+            {
+                stringstream ss;
+                ss << "index #" << i << " -> srcBitmaps[i]==nullptr";
+                throw std::invalid_argument(ss.str());
+            }
+
             if (srcBitmaps[i]->GetWidth() != dest->GetWidth() || srcBitmaps[i]->GetHeight() != dest->GetHeight())
             {
                 throw std::invalid_argument("All the source bitmaps must have same width/height as destination.");
@@ -1061,19 +1068,12 @@ private:
 
         for (int i = 0; i < channelCount; ++i)
         {
-            if (srcBitmaps[i] == nullptr)
-            {
-                stringstream ss;
-                ss << "index #" << i << " -> srcBitmaps[i]==nullptr";
-                throw std::invalid_argument(ss.str());
-            }
-
-            if (channelInfos[i].lookUpTableElementCount > 0)
+            if (channelInfos[i].lookUpTableElementCount != 0)
             {
                 if (channelInfos[i].ptrLookUpTable == nullptr)
                 {
                     stringstream ss;
-                    ss << "index #" << i << " -> if lookUpTableElementCount>0, then ptrLookUpTable must be valid";
+                    ss << "index #" << i << " -> if lookUpTableElementCount!=0, then ptrLookUpTable must be valid";
                     throw std::invalid_argument(ss.str());
                 }
 
-- 
2.43.0


From 5d243a0b1a297431242e1c2ba0079b2c64833404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:43 +0000
Subject: [PATCH 36/74] fix: look-up tables have the requested size also with
 black and white point out of order or out of range

---
 Src/libCZI/libCZI_Utilities.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/libCZI_Utilities.cpp b/Src/libCZI/libCZI_Utilities.cpp
index 3bb0066..8ca1f71 100644
--- a/Src/libCZI/libCZI_Utilities.cpp
+++ b/Src/libCZI/libCZI_Utilities.cpp
@@ -194,14 +194,22 @@ static double CalcSplineValue(double x, const std::vector<libCZI::IDisplaySettin
     return CSplines::CalculateSplineValue(xPosNormalized, splineData.at(index).coefficients);
 }
 
+/// Calculates the index of the black point and of the white point in a look-up table. The points are limited to the range
+/// from 0 to 1, and the white point is not less than the black point - otherwise the table would not have the requested size.
+static void CalcBlackAndWhiteIndex(int tableElementCnt, float blackPoint, float whitePoint, int* blackIndex, int* whiteIndex)
+{
+    *blackIndex = static_cast<int>(tableElementCnt * (std::min)((std::max)(0.f, blackPoint), 1.f));
+    *whiteIndex = (std::max)(*blackIndex, static_cast<int>(tableElementCnt * (std::min)((std::max)(0.f, whitePoint), 1.f)));
+}
+
 /*static*/std::vector<std::uint8_t> Utils::Create8BitLookUpTableFromSplines(int tableElementCnt, float blackPoint, float whitePoint, const std::vector<libCZI::IDisplaySettings::SplineData>& splineData)
 {
     std::vector<std::uint8_t> lut;
     lut.reserve(tableElementCnt);
 
     // TODO - look into rounding
-    int blackVal = static_cast<int>(tableElementCnt * blackPoint);
-    int whiteVal = static_cast<int>(tableElementCnt * whitePoint);
+    int blackVal, whiteVal;
+    CalcBlackAndWhiteIndex(tableElementCnt, blackPoint, whitePoint, &blackVal, &whiteVal);
 
     for (int i = 0; i < blackVal; ++i)
     {
@@ -282,8 +290,8 @@ std::vector<tOutput> InternalCreateLookUpTableFromGamma(int tableElementCnt, tFl
 {
     std::vector<tOutput> lut; lut.reserve(tableElementCnt);
 
-    int lowOut = static_cast<int>(blackPoint * tableElementCnt);
-    int highOut = static_cast<int>(whitePoint * tableElementCnt);
+    int lowOut, highOut;
+    CalcBlackAndWhiteIndex(tableElementCnt, blackPoint, whitePoint, &lowOut, &highOut);
 
     for (int i = 0; i < lowOut; ++i)
     {
-- 
2.43.0


From 147f11f49d061899c3acf917322901e24c5fde30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:50 +0000
Subject: [PATCH 37/74] fix: the weight of a channel is written with the
 display settings

---
 Src/libCZI/CziMetadataBuilder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 4242f62..2192ac0 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -966,6 +966,7 @@ static void WriteChannelDisplaySettings(const IChannelDisplaySetting* channel_di
     channel_display_setting->GetBlackWhitePoint(&black_point, &white_point);
     node->GetOrCreateChildNode("Low")->SetValueFlt(black_point);
     node->GetOrCreateChildNode("High")->SetValueFlt(white_point);
+    node->GetOrCreateChildNode("Weight")->SetValueFlt(channel_display_setting->GetWeight());
 
     const auto gradation_curve_mode = channel_display_setting->GetGradationCurveMode();
     if (gradation_curve_mode == IDisplaySettings::GradationCurveMode::Gamma)
-- 
2.43.0


From 2fd55a3c7e600202d7533160b0160864787fc9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:51 +0000
Subject: [PATCH 38/74] fix: a spline without inner control points accessed an
 empty matrix

---
 Src/libCZI/splines.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/splines.cpp b/Src/libCZI/splines.cpp
index 9cea7f6..237271e 100644
--- a/Src/libCZI/splines.cpp
+++ b/Src/libCZI/splines.cpp
@@ -73,7 +73,12 @@ using namespace std;
         rhs[i] = 3 * ((dy2 / dx2) - (dy1 / dx1));
     }
 
-    VectorXd resultVector = matrix.colPivHouseholderQr().solve(rhs);
+    // with only two points there is nothing to solve (the spline is a straight line)
+    VectorXd resultVector;
+    if (n > 1)
+    {
+        resultVector = matrix.colPivHouseholderQr().solve(rhs);
+    }
 
     // Resolve the coefficients for the spline curve.
     double x_i = 0;
-- 
2.43.0


From 4f17e7848d334fe210c113199e95670623107529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:41 +0000
Subject: [PATCH 39/74] fix: a coordinate with ten digits, a sign and a leading
 zero is accepted when parsing

---
 Src/libCZI/DimCoordinate.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/DimCoordinate.cpp b/Src/libCZI/DimCoordinate.cpp
index 7161769..67aadf1 100644
--- a/Src/libCZI/DimCoordinate.cpp
+++ b/Src/libCZI/DimCoordinate.cpp
@@ -99,9 +99,9 @@ public:
 private:
     static bool Int_ParseCoordinate(const char* str, int& charsParsedOk, DimensionIndex& dimIdx, int& value)
     {
-        // a 32-bit integer can have 10 digits at most, plus one for the +/- sign , that's 11 altogether
-        // plus the trailing zero, which gives us 12
-        constexpr int MAX_CHARS_FOR_NUMBER = 11;
+        // a 32-bit integer can have 10 digits at most, plus one for the +/- sign and one for a leading zero (of which
+        // we store one), that's 12 altogether, plus the trailing zero
+        constexpr int MAX_CHARS_FOR_NUMBER = 12;
         char number[MAX_CHARS_FOR_NUMBER + 1];
         int numberPos = 0;
         charsParsedOk = 0;
-- 
2.43.0


From e6ff55003065c333ffeaedfcf0aec002f9da9864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:57 +0000
Subject: [PATCH 40/74] fix: text which is not part of a bounds-string's syntax
 is reported instead of skipped

---
 Src/libCZI/DimCoordinate.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/DimCoordinate.cpp b/Src/libCZI/DimCoordinate.cpp
index 67aadf1..8726e56 100644
--- a/Src/libCZI/DimCoordinate.cpp
+++ b/Src/libCZI/DimCoordinate.cpp
@@ -43,7 +43,7 @@ public:
     static CDimBounds ParseBounds(const char* str)
     {
         string s(str);
-        regex bounds_regex(R"((?:([a-zA-Z])(?:([\+|-]?[0-9]+):([\+|-]?[0-9]+))\s*))");
+        regex bounds_regex(R"((?:([a-zA-Z])(?:([+-]?[0-9]+):([+-]?[0-9]+))\s*))");
 
         std::regex_iterator<std::string::iterator> it(s.begin(), s.end(), bounds_regex);
         std::regex_iterator<std::string::iterator> end;
@@ -55,6 +55,13 @@ public:
         {
             if (it->size() == 4)
             {
+                // only white space may precede the match, anything else is text which could not be parsed
+                const string textBefore = it->prefix().str();
+                if (textBefore.find_first_not_of(" \t\r\n\v\f") != string::npos)
+                {
+                    throw LibCZIStringParseException("Bounds-string did not parse", -1, LibCZIStringParseException::ErrorType::InvalidSyntax);
+                }
+
                 auto dimMatch = it->operator[](1);
                 auto dimIdx = Utils::CharToDimension(dimMatch.str()[0]);
                 if (dimIdx == DimensionIndex::invalid)
-- 
2.43.0


From 37e544d6e261ad3422e5ebdfd54c4fdc6b1e2fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:09 +0000
Subject: [PATCH 41/74] fix: a sign without digits is not accepted as a number
 in an index set

---
 Src/libCZI/IndexSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Src/libCZI/IndexSet.cpp b/Src/libCZI/IndexSet.cpp
index ace691d..c74cc5b 100644
--- a/Src/libCZI/IndexSet.cpp
+++ b/Src/libCZI/IndexSet.cpp
@@ -163,6 +163,12 @@ second_part_done:
     }
     else
     {
+        if (str.find_first_of(L"0123456789") == wstring::npos)
+        {
+            // a sign without digits is not a number
+            throw LibCZIStringParseException("Syntax error", -1, LibCZIStringParseException::ErrorType::InvalidSyntax);
+        }
+
         long int liValue = wcstol(str.c_str(), nullptr, 10);
         if (liValue == (std::numeric_limits<long int>::max)() || liValue == (std::numeric_limits<long int>::min)())
         {
-- 
2.43.0


From 5bf5731b973327b4f38220e6b37e52d203429553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:24 +0000
Subject: [PATCH 42/74] fix: endless loop for a number followed by a space in
 XML, and negative values for unsigned numbers

---
 Src/libCZI/CziMetadata.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/CziMetadata.cpp b/Src/libCZI/CziMetadata.cpp
index ecbb902..a763e74 100644
--- a/Src/libCZI/CziMetadata.cpp
+++ b/Src/libCZI/CziMetadata.cpp
@@ -4,6 +4,7 @@
 
 #include "CziMetadata.h"
 #include "CziMetadataDocumentInfo.h"
+#include <cwctype>
 
 using namespace libCZI::detail::pugi;
 using namespace libCZI;
@@ -102,6 +103,17 @@ void CCziMetadata::ThrowIfXmlInvalid() const
 
 //---------------------------------------------------------------------------------
 
+// "stoull" accepts negative numbers (and gives them modulo 2^64), so this needs to be checked here.
+static uint64_t ConvertToUInt64(const wstring& s, size_t* idx)
+{
+    if (s.find(L'-') != wstring::npos)
+    {
+        throw out_of_range("value was out-of-range");
+    }
+
+    return stoull(s, idx);
+}
+
 template<typename t>
 static bool TryConvert(IXmlNodeRead* node, typename t::type* p)
 {
@@ -114,10 +126,15 @@ static bool TryConvert(IXmlNodeRead* node, typename t::type* p)
         {
             i = t::convert(str, &posFirstCharNotParsed);
 
+            if (posFirstCharNotParsed == 0)
+            {
+                return false;
+            }
+
             // where we stopped parsing, we expect to find only spaces - otherwise we have a parse-error and return false
-            while (posFirstCharNotParsed < str.length())
+            for (; posFirstCharNotParsed < str.length(); ++posFirstCharNotParsed)
             {
-                if (!isspace(str[posFirstCharNotParsed]))
+                if (!iswspace(str[posFirstCharNotParsed]))
                 {
                     return false;
                 }
@@ -186,7 +203,7 @@ bool IXmlNodeRead::TryGetValueAsUInt32(std::uint32_t* p)
         {
             // unfortunately, on some platforms (Linux in this case) "stoul" does not seem to throw an out_of_range-exception,
             //  therefore we have this work-around
-            uint64_t v = stoull(s, idx);
+            uint64_t v = ConvertToUInt64(s, idx);
             if (v > (numeric_limits<uint32_t>::max)())
             {
                 throw out_of_range("value was out-of-range");
@@ -234,7 +251,7 @@ bool IXmlNodeRead::TryGetValueAsUInt64(std::uint64_t* p)
         typedef uint64_t type;
         static uint64_t convert(const wstring& s, size_t* idx)
         {
-            return stoull(s, idx);
+            return ConvertToUInt64(s, idx);
         }
     };
 
-- 
2.43.0


From 793e19eb3d787e000052f614e306d5650fa28915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:39 +0000
Subject: [PATCH 43/74] fix: the start position given with a list of
 Z-positions is written as such

---
 Src/libCZI/CziMetadataBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 2192ac0..f154567 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -833,7 +833,7 @@ bool libCZI::XmlDateTime::IsValid() const
 {
     if (!isnan(startPos) && !isinf(startPos))
     {
-        builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/T/StartTime")->SetValueDbl(startPos);
+        builder->GetRootNode()->GetOrCreateChildNode("Metadata/Information/Dimensions/Z/StartPosition")->SetValueDbl(startPos);
     }
 
     if (funcGetOffsets)
-- 
2.43.0


From f23982436f38176b9e249cd65adb6521f835cc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:49 +0000
Subject: [PATCH 44/74] fix: T- and Z-information is also read from where
 MetadataUtils writes it

---
 Src/libCZI/CziMetadataDocumentInfo.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Src/libCZI/CziMetadataDocumentInfo.cpp b/Src/libCZI/CziMetadataDocumentInfo.cpp
index 0b6e4cf..64e1d4e 100644
--- a/Src/libCZI/CziMetadataDocumentInfo.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo.cpp
@@ -207,6 +207,12 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
 /*virtual*/std::shared_ptr<IDimensionZInfo> CCziMetadataDocumentInfo::GetDimensionZInfo()
 {
     auto dimZnode = this->GetNode(L"Metadata/Information/Image/Dimensions/Z");
+    if (!dimZnode)
+    {
+        // this is where MetadataUtils puts the information
+        dimZnode = this->GetNode(L"Metadata/Information/Dimensions/Z");
+    }
+
     if (!dimZnode)
     {
         return std::shared_ptr<IDimensionZInfo>();
@@ -370,6 +376,12 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
 /*virtual*/std::shared_ptr<IDimensionTInfo> CCziMetadataDocumentInfo::GetDimensionTInfo()
 {
     auto dimTnode = this->GetNode(L"Metadata/Information/Image/Dimensions/T");
+    if (!dimTnode)
+    {
+        // this is where MetadataUtils puts the information
+        dimTnode = this->GetNode(L"Metadata/Information/Dimensions/T");
+    }
+
     if (!dimTnode)
     {
         return std::shared_ptr<IDimensionTInfo>();
-- 
2.43.0


From 7b46cb9906ae6e649ea734b325c1b5e76e8ca010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:59 +0000
Subject: [PATCH 45/74] fix: the Z drive mode is read from its own node

---
 Src/libCZI/CziMetadataDocumentInfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziMetadataDocumentInfo.cpp b/Src/libCZI/CziMetadataDocumentInfo.cpp
index 64e1d4e..62ced16 100644
--- a/Src/libCZI/CziMetadataDocumentInfo.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo.cpp
@@ -266,7 +266,7 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
     auto zdriveModeNode = GetNodeRelativeFromNode(dimZnode, L"ZDriveMode");
     if (!zdriveModeNode.empty())
     {
-        auto s = Utilities::Trim(zaxisDirNode.text().as_string());
+        auto s = Utilities::Trim(zdriveModeNode.text().as_string());
         if (s.compare(L"Continuous") == 0)
         {
             zinfo->SetZDriveMode(IDimensionZInfo::ZDriveMode::Continuous);
-- 
2.43.0


From 2dd3fb36b5e2b933d28bdf097446cd67b47d76c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:20 +0000
Subject: [PATCH 46/74] fix: writing and reading of date and time with negative
 offset or year, leap second or many digits

---
 Src/libCZI/CziMetadataBuilder.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index f154567..41410de 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -610,7 +610,7 @@ std::string libCZI::XmlDateTime::ToXmlString() const
     }
 
     stringstream ss;
-    ss << setfill('0') << setw(4) << this->year << '-' << setw(2) << this->mon << '-' << setw(2) << this->mday << 'T'
+    ss << (this->year < 0 ? "-" : "") << setfill('0') << setw(4) << abs(this->year) << '-' << setw(2) << this->mon << '-' << setw(2) << this->mday << 'T'
         << setw(2) << this->hour << ':' << setw(2) << this->min << ':' << setw(2) << this->sec;
     if (this->isUTC == true)
     {
@@ -618,7 +618,7 @@ std::string libCZI::XmlDateTime::ToXmlString() const
     }
     else if (this->HasTimeZoneOffset())
     {
-        ss << ((this->offsetHours >= 0) ? "+" : "") << setw(2) << this->offsetHours << ':' << setw(2) << this->offsetMinutes;
+        ss << ((this->offsetHours >= 0) ? '+' : '-') << setw(2) << abs(this->offsetHours) << ':' << setw(2) << this->offsetMinutes;
     }
 
     return ss.str();
@@ -651,7 +651,7 @@ bool libCZI::XmlDateTime::IsValid() const
 /*static*/bool libCZI::XmlDateTime::TryParse(const char* sz, libCZI::XmlDateTime* ptrDateTime)
 {
     // cf. https://www.oreilly.com/library/view/regular-expressions-cookbook/9781449327453/ch04s07.html
-    static const char* regexStr = R"((-?(?:[1-9][0-9]*)?[0-9]{4})-(1[0-2]|0[1-9])-(3[01]|0[1-9]|[12][0-9])T(2[0-3]|[01][0-9]):([0-5][0-9]):([0-5][0-9])(\.[0-9]+)?(Z|[+-](?:2[0-3]|[01][0-9]):[0-5][0-9])?)";
+    static const char* regexStr = R"((-?(?:[1-9][0-9]*)?[0-9]{4})-(1[0-2]|0[1-9])-(3[01]|0[1-9]|[12][0-9])T(2[0-3]|[01][0-9]):([0-5][0-9]):([0-5][0-9]|60)(\.[0-9]+)?(Z|[+-](?:2[0-3]|[01][0-9]):[0-5][0-9])?)";
 
     auto str = Utilities::Trim(sz);
     regex dateTimeRegex(regexStr);
@@ -663,6 +663,12 @@ bool libCZI::XmlDateTime::IsValid() const
 
         if (pieces_match[1].matched)
         {
+            // more than four digits are not in the range we support (and could exceed what an integer can hold)
+            if (pieces_match[1].length() > 5)
+            {
+                return false;
+            }
+
             dateTime.year = std::stoi(pieces_match[1]);
         }
 
-- 
2.43.0


From 25fd890879231bfbc4e6d4b3a06f2ab17c30762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:29 +0000
Subject: [PATCH 47/74] fix: parsing a color with characters beyond the 8-bit
 range

---
 Src/libCZI/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/utilities.cpp b/Src/libCZI/utilities.cpp
index 7c5bc13..8bd0537 100644
--- a/Src/libCZI/utilities.cpp
+++ b/Src/libCZI/utilities.cpp
@@ -234,7 +234,7 @@ tString trimImpl(const tString& str, const tString& whitespace)
         std::uint8_t r = 0, g = 0, b = 0, a = 0;
         for (size_t i = 1; i < (std::max)(static_cast<size_t>(9), str.size()); ++i)
         {
-            if (!isxdigit(str[i]))
+            if (!iswxdigit(str[i]))
             {
                 return false;
             }
-- 
2.43.0


From bfc2c8e57985819d8a6c6043fa939ad7aaa600c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:16 +0000
Subject: [PATCH 48/74] fix: channel names with special characters in the
 prepared metadata

---
 Src/libCZI/CziMetadataBuilder.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/Src/libCZI/CziMetadataBuilder.cpp b/Src/libCZI/CziMetadataBuilder.cpp
index 41410de..2047723 100644
--- a/Src/libCZI/CziMetadataBuilder.cpp
+++ b/Src/libCZI/CziMetadataBuilder.cpp
@@ -516,18 +516,15 @@ CCZiMetadataBuilder::CCZiMetadataBuilder(const wchar_t* rootNodeName, const std:
     for (int ch = channelIdxStart; ch < channelIdxStart + channelIdxSize; ++ch)
     {
         auto idAndOptionalName = getIdAndName(ch);
-        string s{ "Metadata/Information/Image/Dimensions/Channels/Channel[Id=" };
-        s.append(get<0>(idAndOptionalName));
+
+        // note that we cannot put Id and Name into a path here, because they may contain characters which have a meaning there
+        const auto channelNode = root->GetOrCreateChildNode("Metadata/Information/Image/Dimensions/Channels")->AppendChildNode("Channel");
+        channelNode->SetAttribute("Id", get<0>(idAndOptionalName).c_str());
         if (get<0>(get<1>(idAndOptionalName)) == true)
         {
-            s.append(",Name=");
-            s.append(get<1>(get<1>(idAndOptionalName)));
+            channelNode->SetAttribute("Name", get<1>(get<1>(idAndOptionalName)).c_str());
         }
 
-        s.append("]");
-
-        const auto channelNode = root->GetOrCreateChildNode(s.c_str());
-
         auto pxlTypeIterator = pixelTypeForChannel.GetChannelIndexPixelTypeMap().find(ch);
         if (pxlTypeIterator != pixelTypeForChannel.GetChannelIndexPixelTypeMap().end())
         {
-- 
2.43.0


From 8d214ac9eb892e59db650ef0e6fa2d7125701992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:41 +0000
Subject: [PATCH 49/74] fix: numbers out of range in lists of T- and
 Z-positions no longer lead to an unexpected exception

---
 Src/libCZI/CziMetadataDocumentInfo.cpp | 78 ++++++++------------------
 1 file changed, 22 insertions(+), 56 deletions(-)

diff --git a/Src/libCZI/CziMetadataDocumentInfo.cpp b/Src/libCZI/CziMetadataDocumentInfo.cpp
index 62ced16..3a259c7 100644
--- a/Src/libCZI/CziMetadataDocumentInfo.cpp
+++ b/Src/libCZI/CziMetadataDocumentInfo.cpp
@@ -4,7 +4,10 @@
 
 #include "CziMetadataDocumentInfo.h"
 
+#include <cmath>
 #include <cstddef>
+#include <cwchar>
+#include <cwctype>
 #include <utility>
 #include "CziDimensionInfo.h"
 #include "CziDisplaySettings.h"
@@ -204,6 +207,21 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
     }
 }
 
+// Parse the string as a floating point number. In contrast to "std::stod" this does not throw an exception for numbers which are
+// too small to be represented without loss of precision.
+static bool TryParseDouble(const std::wstring& str, double* value)
+{
+    wchar_t* endPtr;
+    const double d = wcstod(str.c_str(), &endPtr);
+    if (endPtr == str.c_str() || std::isinf(d) || (*endPtr != L'\0' && !iswspace(*endPtr)))
+    {
+        return false;
+    }
+
+    *value = d;
+    return true;
+}
+
 /*virtual*/std::shared_ptr<IDimensionZInfo> CCziMetadataDocumentInfo::GetDimensionZInfo()
 {
     auto dimZnode = this->GetNode(L"Metadata/Information/Image/Dimensions/Z");
@@ -283,26 +301,8 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
         auto str = Utilities::Trim(zdriveSpeedNode.text().as_string());
         if (!str.empty())
         {
-            size_t charsParsed; double x;
-            bool parsedOk = false;
-            try
-            {
-                x = std::stod(str, &charsParsed);
-                parsedOk = true;
-            }
-            catch (invalid_argument&)
-            {
-            }
-
-            if (parsedOk == true)
-            {
-                if (charsParsed < str.length() && !isspace(str[charsParsed]))
-                {
-                    parsedOk = false;
-                }
-            }
-
-            if (parsedOk)
+            double x;
+            if (TryParseDouble(str, &x))
             {
                 zinfo->SetZDriveSpeed(x);
             }
@@ -336,25 +336,8 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
             Utilities::Split(offsetsNode.text().as_string(), L' ',
                 [&](const std::wstring str)->bool
                 {
-                    size_t charsParsed;
-                    bool parsedOk = false;
                     double x;
-                    try
-                    {
-                        x = std::stod(str, &charsParsed);
-                        parsedOk = true;
-                    }
-                    catch (invalid_argument&)
-                    {
-                    }
-
-                    if (parsedOk == true)
-                    {
-                        if (charsParsed < str.length() && !isspace(str[charsParsed]))
-                        {
-                            parsedOk = false;
-                        }
-                    }
+                    const bool parsedOk = TryParseDouble(str, &x);
 
                     // TODO: currently, we stop parsing at the first syntax error and return what we have so far without an 
                     //        external error - what is the desired behavior here?
@@ -426,25 +409,8 @@ CCziMetadataDocumentInfo::CCziMetadataDocumentInfo(std::shared_ptr<CCziMetadata>
             Utilities::Split(offsetsNode.text().as_string(), L' ',
                 [&](const std::wstring str)->bool
                 {
-                    size_t charsParsed;
-                    bool parsedOk = false;
                     double x;
-                    try
-                    {
-                        x = std::stod(str, &charsParsed);
-                        parsedOk = true;
-                    }
-                    catch (invalid_argument&)
-                    {
-                    }
-
-                    if (parsedOk == true)
-                    {
-                        if (charsParsed < str.length() && !isspace(str[charsParsed]))
-                        {
-                            parsedOk = false;
-                        }
-                    }
+                    const bool parsedOk = TryParseDouble(str, &x);
 
                     // TODO: currently, we stop parsing at the first syntax error and return what we have so far without an 
                     //        external error - what is the desired behavior here?
-- 
2.43.0


From eddc0a183aaba79644278b088b80243c17dec445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:45 +0000
Subject: [PATCH 50/74] fix: a failed attempt to open a document for editing
 leaves no remains in the object

---
 Src/libCZI/CziReaderWriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Src/libCZI/CziReaderWriter.cpp b/Src/libCZI/CziReaderWriter.cpp
index 5289775..2ee5683 100644
--- a/Src/libCZI/CziReaderWriter.cpp
+++ b/Src/libCZI/CziReaderWriter.cpp
@@ -97,6 +97,14 @@ void ICziReaderWriter::ReplaceSubBlock(int key, const libCZI::AddSubBlockInfoStr
     }
     catch (...)
     {
+        // discard what may have been read so far, so that another attempt starts from scratch
+        this->hdrSegmentData = CFileHeaderSegmentData();
+        this->sbBlkDirectory = CReaderWriterCziSubBlockDirectory();
+        this->attachmentDirectory = CReaderWriterCziAttachmentsDirectory();
+        this->subBlockDirectorySegment.Invalidate();
+        this->attachmentDirectorySegment.Invalidate();
+        this->metadataSegment.Invalidate();
+        this->nextSegmentInfo = CNextSegment();
         this->stream.reset();
         this->info.reset();
         throw;
-- 
2.43.0


From 67dd7d83520fa84ece07f1c74155226218ad7d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:56 +0000
Subject: [PATCH 51/74] fix: a reader opened again after Close does not report
 the attachments of the previous document

---
 Src/libCZI/CZIReader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Src/libCZI/CZIReader.cpp b/Src/libCZI/CZIReader.cpp
index 2b6a61a..de6d410 100644
--- a/Src/libCZI/CZIReader.cpp
+++ b/Src/libCZI/CZIReader.cpp
@@ -62,6 +62,11 @@ CCZIReader::CCZIReader() :
         // TODO: how to determine whether there is "no attachment-directory" - is the check for 0 sufficient?
         this->attachmentDir = CCZIParse::ReadAttachmentsDirectory(stream.get(), attachmentPos);
     }
+    else
+    {
+        // discard the attachments of a document which was opened (and closed) before with this object
+        this->attachmentDir = CCziAttachmentsDirectory();
+    }
 
     this->stream = stream;
     switch (options->default_frame_of_reference)
-- 
2.43.0


From fca5af7a19c8b6d98151a7e28eaa5e46dfb66ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:56 +0000
Subject: [PATCH 52/74] fix: reading zero bytes at the end of an in-memory
 stream is not an error

---
 Src/libCZI/StreamImpl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/StreamImpl.cpp b/Src/libCZI/StreamImpl.cpp
index f1388ed..fb3b2d2 100644
--- a/Src/libCZI/StreamImpl.cpp
+++ b/Src/libCZI/StreamImpl.cpp
@@ -145,7 +145,8 @@ CStreamImplInMemory::CStreamImplInMemory(libCZI::IAttachment* attachement)
         throw std::invalid_argument("Pointer cannot be null");
     }
 
-    if (offset >= this->dataBufferSize)
+    // as with the other stream types, reading nothing (or reading exactly at the end) is not an error
+    if (offset > this->dataBufferSize || (offset == this->dataBufferSize && size > 0))
     {
         std::stringstream ss;
         ss << "Error reading from memory at offset " << offset << " -> requested size: " << size << " bytes, which exceeds actual data size " << this->dataBufferSize << " bytes.";
-- 
2.43.0


From a323623bd24bae1af9a5f3ad22dbfd0297f087e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:06 +0000
Subject: [PATCH 53/74] fix: the C-runtime based input stream reports read
 errors

---
 Src/libCZI/StreamsLib/simplefileinputstream.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Src/libCZI/StreamsLib/simplefileinputstream.cpp b/Src/libCZI/StreamsLib/simplefileinputstream.cpp
index 084d0c8..8fe731f 100644
--- a/Src/libCZI/StreamsLib/simplefileinputstream.cpp
+++ b/Src/libCZI/StreamsLib/simplefileinputstream.cpp
@@ -76,6 +76,15 @@ SimpleFileInputStream::~SimpleFileInputStream()
     }
 
     const std::uint64_t bytesRead = fread(pv, 1, static_cast<size_t>(size), this->fp_);
+    if (bytesRead < size && ferror(this->fp_))
+    {
+        const auto err = errno;
+        clearerr(this->fp_);
+        stringstream ss;
+        ss << "Error reading from file at position " << offset << ", errno=" << err << ".";
+        throw std::runtime_error(ss.str());
+    }
+
     if (ptrBytesRead != nullptr)
     {
         *ptrBytesRead = bytesRead;
-- 
2.43.0


From e5b173a2d324ef7f38d19de58b8fcf777de8cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:16 +0000
Subject: [PATCH 54/74] fix: the curl-based stream does not take error pages or
 ignored ranges for the requested data

---
 Src/libCZI/StreamsLib/curlhttpinputstream.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
index 7177ad4..29ba08c 100644
--- a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
+++ b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
@@ -278,6 +278,18 @@ CurlHttpInputStream::CurlHttpInputStream(const std::string& url, const std::map<
             throw runtime_error(ss.str());
         }
 
+        // The payload we received is what we asked for only if the server delivered the range - a response "200" (the range was ignored, and
+        //  the complete document is delivered) is acceptable only for a range starting with the first byte, and anything else (e.g. the page which comes
+        //  with an error or with a redirection we do not follow) is not the document at all.
+        long response_code = 0;
+        curl_easy_getinfo(this->curl_handle_, CURLINFO_RESPONSE_CODE, &response_code);
+        if (response_code >= 300 || (response_code == 200 && offset != 0))
+        {
+            ss = stringstream{};
+            ss << "The server did not deliver the range requested (response code " << response_code << ")";
+            throw runtime_error(ss.str());
+        }
+
         if (ptrBytesRead != nullptr)
         {
             *ptrBytesRead = write_data_context.count_data_received;
@@ -305,7 +317,7 @@ CurlHttpInputStream::~CurlHttpInputStream()
 
     if (write_data_context->count_data_received + total_size > write_data_context->size)
     {
-        return CURLE_WRITE_ERROR;
+        return 0;   // any number other than the number of bytes passed in (which is never zero here) signals an error
     }
 
     memcpy(
-- 
2.43.0


From 07524400ea7986bd8c6aafd7c3730049412e3cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:17 +0000
Subject: [PATCH 55/74] fix: C API: write compressed tiles with the compression
 mode they have

---
 Src/libCZIAPI/src/libCZIApi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 1fab63d..a49fea4 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1711,7 +1711,7 @@ namespace
         add_sub_block_info_base.physicalWidth = add_sub_block_info->physical_width;
         add_sub_block_info_base.physicalHeight = add_sub_block_info->physical_height;
         add_sub_block_info_base.PixelType = static_cast<PixelType>(add_sub_block_info->pixel_type); // TODO(JBL): check validity
-        add_sub_block_info_base.SetCompressionMode(CompressionMode::UnCompressed);
+        add_sub_block_info_base.compressionModeRaw = add_sub_block_info->compression_mode_raw;
     }
 
 
-- 
2.43.0


From aaeaa54a9d3c28b4e73948d25c61576b1c0fbb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:26 +0000
Subject: [PATCH 56/74] fix: C API: validate stride and data size of an
 uncompressed tile as documented

---
 Src/libCZIAPI/src/libCZIApi.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index a49fea4..9d69834 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1714,9 +1714,27 @@ namespace
         add_sub_block_info_base.compressionModeRaw = add_sub_block_info->compression_mode_raw;
     }
 
+    /// Check that stride and data-size are sufficient for an uncompressed bitmap. If this is not the case, an
+    /// invalid_argument-exception is thrown.
+    void ValidateUncompressedBitmapData(const AddSubBlockInfoInterop* add_sub_block_info)
+    {
+        if (add_sub_block_info->physical_width <= 0 || add_sub_block_info->physical_height <= 0)
+        {
+            return; // this is left to the writer to report
+        }
+
+        const uint64_t line_size = static_cast<uint64_t>(add_sub_block_info->physical_width) * Utils::GetBytesPerPixel(static_cast<PixelType>(add_sub_block_info->pixel_type));
+        const uint64_t required_size = static_cast<uint64_t>(add_sub_block_info->physical_height - 1) * add_sub_block_info->stride + line_size;
+        if (add_sub_block_info->stride < line_size || add_sub_block_info->size_data < required_size)
+        {
+            throw std::invalid_argument("The data-size or the stride is too small for the bitmap.");
+        }
+    }
 
     void WriterAddSubBlockUncompressed(const shared_ptr<ICziWriter>& writer, const AddSubBlockInfoInterop* add_sub_block_info)
     {
+        ValidateUncompressedBitmapData(add_sub_block_info);
+
         AddSubBlockInfoStridedBitmap add_sub_block_info_strided_bitmap;
         add_sub_block_info_strided_bitmap.Clear();
 
-- 
2.43.0


From 57b28717d5e91c293eb54896edc954fc7b2a0897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:42 +0000
Subject: [PATCH 57/74] fix: C API: report absent display settings instead of
 handing out a handle to nothing

---
 Src/libCZIAPI/src/libCZIApi.cpp        | 5 +++++
 Src/libCZIAPI/src/parameterhelpers.cpp | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 9d69834..3eba1a0 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1302,6 +1302,11 @@ LibCZIApiErrorCode libCZI_CziDocumentInfoGetDisplaySettings(CziDocumentInfoHandl
     try
     {
         const auto display_settings = shared_czi_document_info_wrapping_object->shared_ptr_->GetDisplaySettings();
+        if (!display_settings)
+        {
+            return LibCZIApi_ErrorCode_UnspecifiedError;
+        }
+
         *display_settings_handle = reinterpret_cast<DisplaySettingsHandle>(new SharedPtrWrapper<libCZI::IDisplaySettings>{ display_settings });
         return LibCZIApi_ErrorCode_OK;
     }
diff --git a/Src/libCZIAPI/src/parameterhelpers.cpp b/Src/libCZIAPI/src/parameterhelpers.cpp
index 34384db..64fd69f 100644
--- a/Src/libCZIAPI/src/parameterhelpers.cpp
+++ b/Src/libCZIAPI/src/parameterhelpers.cpp
@@ -1460,6 +1460,10 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
     memset(&composition_channel_info, 0, sizeof(CompositionChannelInfoInterop));
 
     const auto channel_display_settings = display_settings->GetChannelDisplaySettings(channel_index);
+    if (!channel_display_settings)
+    {
+        throw std::invalid_argument("There are no display-settings for the specified channel.");
+    }
 
     if (!channel_display_settings->GetIsEnabled())
     {
-- 
2.43.0


From 0ec1df37259c0a7357f5019af81b1208fe20455d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:40 +0000
Subject: [PATCH 58/74] fix: C API: report null pointers as invalid arguments

---
 Src/libCZIAPI/src/libCZIApi.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 3eba1a0..71aef34 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -389,7 +389,7 @@ LibCZIApiErrorCode libCZI_ReaderReadSubBlock(CziReaderObjectHandle reader_object
 
 LibCZIApiErrorCode libCZI_ReaderGetMetadataSegment(CziReaderObjectHandle reader_object, MetadataSegmentObjectHandle* metadata_segment_object)
 {
-    if (reader_object == kInvalidObjectHandle)
+    if (reader_object == kInvalidObjectHandle || metadata_segment_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -475,7 +475,7 @@ LibCZIApiErrorCode libCZI_ReaderGetAttachmentInfoFromDirectory(CziReaderObjectHa
 
 LibCZIApiErrorCode libCZI_ReaderReadAttachment(CziReaderObjectHandle reader_object, std::int32_t index, AttachmentObjectHandle* attachment_object)
 {
-    if (reader_object == kInvalidObjectHandle && attachment_object == nullptr)
+    if (reader_object == kInvalidObjectHandle || attachment_object == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -1104,7 +1104,7 @@ LibCZIApiErrorCode libCZI_BitmapCopyTo(BitmapObjectHandle bitmap_object, std::ui
 //****************************************************************************************************
 LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectHandle metadata_segment_object, MetadataAsXmlInterop* metadata_as_xml_interop)
 {
-    if (metadata_segment_object == kInvalidObjectHandle)
+    if (metadata_segment_object == kInvalidObjectHandle || metadata_as_xml_interop == nullptr)
     {
         return LibCZIApi_ErrorCode_InvalidArgument;
     }
@@ -2005,6 +2005,11 @@ LibCZIApiErrorCode libCZI_CompositorDoMultiChannelComposition(std::int32_t chann
 
     for (int i = 0; i < channelCount; ++i)
     {
+        if (source_bitmaps[i] == kInvalidObjectHandle)
+        {
+            return LibCZIApi_ErrorCode_InvalidArgument;
+        }
+
         auto shared_bitmap_wrapping_object = reinterpret_cast<SharedPtrWrapper<IBitmapData>*>(source_bitmaps[i]);
         if (!shared_bitmap_wrapping_object->IsValid())
         {
-- 
2.43.0


From 683b5f7147d7dcb274b3a7b7938d848ea075d484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:39 +0000
Subject: [PATCH 59/74] fix: C API: report the condenser contrast of a channel,
 not its reflector

---
 Src/libCZIAPI/src/parameterhelpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/parameterhelpers.cpp b/Src/libCZIAPI/src/parameterhelpers.cpp
index 64fd69f..b7d5e55 100644
--- a/Src/libCZIAPI/src/parameterhelpers.cpp
+++ b/Src/libCZIAPI/src/parameterhelpers.cpp
@@ -1395,7 +1395,7 @@ std::string ParameterHelpers::trim(const std::string& str, const std::string& wh
 
     {
         wstring condensor_contrast;
-        if (channel_info->TryGetReflector(&condensor_contrast))
+        if (channel_info->TryGetCondenserContrast(&condensor_contrast))
         {
             const string utf8_string = libCZI::Utils::ConvertToUtf8(condensor_contrast);
             channel_object.AddMember("condensor_contrast", rapidjson::Value(utf8_string.c_str(), allocator).Move(), allocator);
-- 
2.43.0


From 0638464e0b2e97a1b74c53389b76426d5037b9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:30 +0000
Subject: [PATCH 60/74] fix: C API: report a dimension without dimension info
 as an error

---
 Src/libCZIAPI/src/libCZIApi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 71aef34..88458d6 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1375,6 +1375,8 @@ LibCZIApiErrorCode libCZI_CziDocumentInfoGetDimensionInfo(CziDocumentInfoHandle
 
         break;
 
+        default:
+            return LibCZIApi_ErrorCode_InvalidArgument;
         }
 
         return LibCZIApi_ErrorCode_OK;
-- 
2.43.0


From 274db784434f14524ace73e0cd32caf632e91b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:41 +0000
Subject: [PATCH 61/74] fix: C API: give document-info handles a type
 identification of their own

---
 Src/libCZIAPI/src/sharedptrwrapper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/sharedptrwrapper.h b/Src/libCZIAPI/src/sharedptrwrapper.h
index e2af8c5..86e1d93 100644
--- a/Src/libCZIAPI/src/sharedptrwrapper.h
+++ b/Src/libCZIAPI/src/sharedptrwrapper.h
@@ -19,7 +19,7 @@ constexpr uint32_t kMagicIAttachment = 0x3A4A3D7Au;
 constexpr uint32_t kMagicIOutputStream = 0x8020FAA3u;
 constexpr uint32_t kMagicICziWriter = 0xF8384829u;
 constexpr uint32_t kMagicISingleChannelScalingTileAccessor = 0xE34C94D7u;
-constexpr uint32_t kMagicICziMultiDimensionDocumentInfo = 0x3A4A3D7Au;
+constexpr uint32_t kMagicICziMultiDimensionDocumentInfo = 0x5B1E93C6u;
 constexpr uint32_t kMagicIDisplaySettings = 0xE67C5A4Cu;
 constexpr uint32_t kMagicIChannelDisplaySetting = 0x88265932u;
 
-- 
2.43.0


From 7bc68773f90d981fb1d6d30b8256da8c9557d737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:52 +0000
Subject: [PATCH 62/74] fix: C API: do not read before the start of empty
 metadata

---
 Src/libCZIAPI/src/libCZIApi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZIAPI/src/libCZIApi.cpp b/Src/libCZIAPI/src/libCZIApi.cpp
index 88458d6..6eb35c8 100644
--- a/Src/libCZIAPI/src/libCZIApi.cpp
+++ b/Src/libCZIAPI/src/libCZIApi.cpp
@@ -1125,7 +1125,7 @@ LibCZIApiErrorCode libCZI_MetadataSegmentGetMetadataAsXml(MetadataSegmentObjectH
     // we want to ensure that the string is null-terminated, just in case - so if the data is not null-terminated, we will allocate
     //  one byte more
     size_t size_to_allocate = size;
-    if (static_cast<const uint8_t*>(data.get())[size - 1] != '\0')
+    if (size == 0 || static_cast<const uint8_t*>(data.get())[size - 1] != '\0')
     {
         ++size_to_allocate;
     }
-- 
2.43.0


From 30b758d9557718f3f7e57dc185657b634caa6f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:57 +0000
Subject: [PATCH 63/74] fix: make the operational state of the reader safe for
 a concurrent Close

---
 Src/libCZI/CZIReader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CZIReader.h b/Src/libCZI/CZIReader.h
index 7bd08fa..fa5fa62 100644
--- a/Src/libCZI/CZIReader.h
+++ b/Src/libCZI/CZIReader.h
@@ -6,6 +6,7 @@
 
 #include <functional>
 #include <memory>
+#include <atomic>
 #include <mutex>
 #include "libCZI.h"
 #include "CziSubBlockDirectory.h"
@@ -25,7 +26,7 @@ namespace libCZI
             CFileHeaderSegmentData hdrSegmentData;
             CCziSubBlockDirectory subBlkDir;
             CCziAttachmentsDirectory attachmentDir;
-            bool    isOperational;  ///<    If true, then stream, hdrSegmentData and subBlkDir can be considered valid and operational
+            std::atomic<bool> isOperational;  ///<    If true, then stream, hdrSegmentData and subBlkDir can be considered valid and operational
             libCZI::CZIFrameOfReference default_frame_of_reference;
             libCZI::ICZIReader::OpenOptions::SubBlockDirectoryInfoPolicy sub_block_directory_info_policy_;
         public:
-- 
2.43.0


From f4137bff027ced30b6afd5f63dcd9f25973c2c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:06 +0000
Subject: [PATCH 64/74] fix: update the memory usage of the tile cache in one
 step

---
 Src/libCZI/subblock_cache.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/subblock_cache.cpp b/Src/libCZI/subblock_cache.cpp
index 2229247..7a6f5a9 100644
--- a/Src/libCZI/subblock_cache.cpp
+++ b/Src/libCZI/subblock_cache.cpp
@@ -68,9 +68,10 @@ void SubBlockCache::Add(int subblock_index, const ISubBlockCacheOperation::Cache
     else
     {
         // Element with the same key already existed
-        this->cache_size_in_bytes_ -= SubBlockCache::CalculateSizeInBytes(result.first->second.bitmap.get(), result.first->second.mask.get());
+        // Note: the size is updated in one step, because it may be queried concurrently (without the mutex being held)
+        const auto size_of_replaced_cache_item = SubBlockCache::CalculateSizeInBytes(result.first->second.bitmap.get(), result.first->second.mask.get());
         result.first->second = entry_to_be_added;
-        this->cache_size_in_bytes_ += size_of_added_cache_item;
+        this->cache_size_in_bytes_ += size_of_added_cache_item - size_of_replaced_cache_item;
     }
 }
 
-- 
2.43.0


From e06cbf28789051ad51aa2404845d9d6e107efb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:04 +0000
Subject: [PATCH 65/74] fix: leave no uninitialised coordinates in an invalid
 rectangle

---
 Src/libCZI/libCZI_Pixels.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/libCZI_Pixels.h b/Src/libCZI/libCZI_Pixels.h
index c966545..0a7314c 100644
--- a/Src/libCZI/libCZI_Pixels.h
+++ b/Src/libCZI/libCZI_Pixels.h
@@ -22,7 +22,7 @@ namespace libCZI
         int h;  ///< The height of the rectangle.
 
         /// Invalidates this object.
-        void Invalidate() { this->w = this->h = -1; }
+        void Invalidate() { this->x = this->y = 0; this->w = this->h = -1; }
 
         /// Returns a boolean indicating whether this rectangle contains valid information.
         bool IsValid() const { return this->w >= 0 && this->h >= 0; }
-- 
2.43.0


From f936d678f9734f154c52f3a28e2f9a462d5abd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:11 +0000
Subject: [PATCH 66/74] fix: do not sort the pyramid statistics again
 (unsynchronised) with each query

---
 Src/libCZI/CziSubBlockDirectory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index 979d544..b13d65e 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -169,7 +169,7 @@ void CSbBlkStatisticsUpdater::Consolidate()
     if (this->pyramidStatisticsDirty)
     {
         this->SortPyramidStatistics();
-        this->pyramidStatisticsDirty = true;
+        this->pyramidStatisticsDirty = false;
     }
 }
 
-- 
2.43.0


From de9e858492819f8d09f795112196cf9aa534edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:56 +0000
Subject: [PATCH 67/74] fix: reject directory entries and sub-blocks with an
 impossible number of dimensions

---
 Src/libCZI/CziParse.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 82b9c61..91a22a5 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -287,7 +287,7 @@ using namespace libCZI::detail;
         sbd.mIndex = (std::numeric_limits<int>::max)();
         memcpy(sbd.spare, subBlckSegment.data.entryDV._spare, sizeof(sbd.spare));
 
-        if (subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
+        if (subBlckSegment.data.entryDV.DimensionCount < 0 || subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
         {
             stringstream ss;
             ss << "'DimensionCount' was found to be " << subBlckSegment.data.entryDV.DimensionCount << ", where the maximum allowed is " << MAXDIMENSIONS << ".";
@@ -500,8 +500,12 @@ using namespace libCZI::detail;
             funcRead(4 + 8 + 4 + 4 + 6 + 4, reinterpret_cast<uint8_t*>(&dv) + 2);
             ConvertToHostByteOrder::Convert(&dv);
 
+            if (dv.DimensionCount < 0 || dv.DimensionCount > MAXDIMENSIONS)
+            {
+                CCZIParse::ThrowIllegalData("'DimensionCount' in a SubBlockDirectory-entry is out of range");
+            }
+
             int sizeToRead = dv.DimensionCount * sizeof(DimensionEntryDV);
-            // TODO: check for max size etc.
             funcRead(sizeToRead, &dv.DimensionEntries[0]);
             ConvertToHostByteOrder::Convert(&dv.DimensionEntries[0], dv.DimensionCount);
 
-- 
2.43.0


From b44f193bacdca8a2a0099db96bfee063415cbbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:08 +0000
Subject: [PATCH 68/74] fix: reject negative sizes in segments and check
 allocations when parsing

---
 Src/libCZI/CziParse.cpp | 54 +++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index 91a22a5..b3dc630 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -116,6 +116,11 @@ using namespace libCZI::detail;
 
     // now read the used-size from stream
     std::unique_ptr<void, decltype(free)*> pBuffer(malloc((size_t)subBlkDirSize), free);
+    if (!pBuffer)
+    {
+        throw std::bad_alloc();
+    }
+
     try
     {
         str->Read(offset + sizeof(subBlckDirSegment), pBuffer.get(), subBlkDirSize, &bytesRead);
@@ -210,6 +215,11 @@ using namespace libCZI::detail;
         // now read the AttachmentEntries
         const uint64_t attachmentEntriesSize = static_cast<uint64_t>(attachmentDirSegment.data.EntryCount) * sizeof(AttachmentEntryA1);
         unique_ptr<AttachmentEntryA1, decltype(free)*> pBuffer(static_cast<AttachmentEntryA1*>(malloc((size_t)attachmentEntriesSize)), free);
+        if (!pBuffer)
+        {
+            throw std::bad_alloc();
+        }
+
 
         // now read the attachment-entries
         try
@@ -367,12 +377,24 @@ using namespace libCZI::detail;
     //  the reserved (minimal) size here
     lengthSubblockSegmentData = max(lengthSubblockSegmentData, (uint32_t)SIZE_SUBBLOCKDATA_MINIMUM);
 
+    if (subBlckSegment.data.MetadataSize < 0 || subBlckSegment.data.DataSize < 0 || subBlckSegment.data.AttachmentSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid size in SubBlock-Segment");
+    }
+
     // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
     std::unique_ptr<void, decltype(deleter)> pMetadataBuffer(subBlckSegment.data.MetadataSize > 0 ? allocateInfo.alloc(subBlckSegment.data.MetadataSize) : nullptr, deleter);
     std::unique_ptr<void, decltype(deleter)> pDataBuffer(subBlckSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(subBlckSegment.data.DataSize)) : nullptr, deleter);
     std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(subBlckSegment.data.AttachmentSize > 0 ? allocateInfo.alloc(subBlckSegment.data.AttachmentSize) : nullptr, deleter);
 
+    if ((subBlckSegment.data.MetadataSize > 0 && !pMetadataBuffer) ||
+        (subBlckSegment.data.DataSize > 0 && !pDataBuffer) ||
+        (subBlckSegment.data.AttachmentSize > 0 && !pAttachmentBuffer))
+    {
+        throw std::bad_alloc();
+    }
+
     // TODO: now get the information from the SubBlockDirectoryEntryDV/DE structure, and figure out their size
     // TODO: compare this information against the information from the SubBlock-directory
     if (pMetadataBuffer)
@@ -386,7 +408,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader), subBlckSegment.data.MetadataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.MetadataSize)
+        if (bytesRead != static_cast<uint64_t>(subBlckSegment.data.MetadataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader), subBlckSegment.data.MetadataSize, bytesRead);
         }
@@ -403,7 +425,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize, subBlckSegment.data.DataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.DataSize)
+        if (bytesRead != static_cast<uint64_t>(subBlckSegment.data.DataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize, subBlckSegment.data.DataSize, bytesRead);
         }
@@ -420,7 +442,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading FileHeaderSegment", offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize + subBlckSegment.data.DataSize, subBlckSegment.data.AttachmentSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != subBlckSegment.data.AttachmentSize)
+        if (bytesRead != static_cast<uint64_t>(subBlckSegment.data.AttachmentSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + lengthSubblockSegmentData + sizeof(SegmentHeader) + subBlckSegment.data.MetadataSize + subBlckSegment.data.DataSize, subBlckSegment.data.AttachmentSize, bytesRead);
         }
@@ -460,9 +482,18 @@ using namespace libCZI::detail;
         CCZIParse::ThrowIllegalData(offset, "Invalid Attachment-magic");
     }
 
+    if (attchmntSegment.data.DataSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid size in Attachment-Segment");
+    }
+
     // TODO: if subBlckSegment.data.DataSize > size_t (=4GB for 32Bit) then bail out gracefully
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
     std::unique_ptr<void, decltype(deleter)> pAttchmntBuffer(attchmntSegment.data.DataSize > 0 ? allocateInfo.alloc(static_cast<size_t>(attchmntSegment.data.DataSize)) : nullptr, deleter);
+    if (attchmntSegment.data.DataSize > 0 && !pAttchmntBuffer)
+    {
+        throw std::bad_alloc();
+    }
 
     if (pAttchmntBuffer)
     {
@@ -475,7 +506,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading AttachmentSegment", offset + 256 + sizeof(SegmentHeader), attchmntSegment.data.DataSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != attchmntSegment.data.DataSize)
+        if (bytesRead != static_cast<uint64_t>(attchmntSegment.data.DataSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + 256 + sizeof(SegmentHeader), attchmntSegment.data.DataSize, bytesRead);
         }
@@ -673,10 +704,19 @@ using namespace libCZI::detail;
         CCZIParse::ThrowIllegalData(offset, "Invalid MetadataSegment-magic");
     }
 
-    // TODO: perform consistency checks...
+    if (metadataSegment.data.XmlSize < 0 || metadataSegment.data.AttachmentSize < 0)
+    {
+        CCZIParse::ThrowIllegalData(offset, "Invalid size in Metadata-Segment");
+    }
+
     auto deleter = [&](void* ptr) -> void {allocateInfo.free(ptr); };
     std::unique_ptr<void, decltype(deleter)> pXmlBuffer(metadataSegment.data.XmlSize > 0 ? allocateInfo.alloc(metadataSegment.data.XmlSize) : nullptr, deleter);
     std::unique_ptr<void, decltype(deleter)> pAttachmentBuffer(metadataSegment.data.AttachmentSize > 0 ? allocateInfo.alloc(static_cast<size_t>(metadataSegment.data.AttachmentSize)) : nullptr, deleter);
+    if ((metadataSegment.data.XmlSize > 0 && !pXmlBuffer) || (metadataSegment.data.AttachmentSize > 0 && !pAttachmentBuffer))
+    {
+        throw std::bad_alloc();
+    }
+
     if (pXmlBuffer)
     {
         try
@@ -688,7 +728,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading MetaDataSegment", offset + sizeof(metadataSegment), metadataSegment.data.XmlSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != metadataSegment.data.XmlSize)
+        if (bytesRead != static_cast<uint64_t>(metadataSegment.data.XmlSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + sizeof(metadataSegment), metadataSegment.data.XmlSize, bytesRead);
         }
@@ -705,7 +745,7 @@ using namespace libCZI::detail;
             std::throw_with_nested(LibCZIIOException("Error reading MetaDataSegment", offset + sizeof(metadataSegment) + metadataSegment.data.XmlSize, metadataSegment.data.AttachmentSize));
         }
 
-        if (static_cast<int32_t>(bytesRead) != metadataSegment.data.AttachmentSize)
+        if (bytesRead != static_cast<uint64_t>(metadataSegment.data.AttachmentSize))
         {
             CCZIParse::ThrowNotEnoughDataRead(offset + sizeof(metadataSegment) + metadataSegment.data.XmlSize, metadataSegment.data.AttachmentSize, bytesRead);
         }
-- 
2.43.0


From 0cb11e9f5540fedc9c098acb65124045ed9faeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:19 +0000
Subject: [PATCH 69/74] fix: sub-block information is defined even if the
 sub-block header lacks X or Y

---
 Src/libCZI/CziParse.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Src/libCZI/CziParse.cpp b/Src/libCZI/CziParse.cpp
index b3dc630..4850c25 100644
--- a/Src/libCZI/CziParse.cpp
+++ b/Src/libCZI/CziParse.cpp
@@ -289,12 +289,15 @@ using namespace libCZI::detail;
 
     uint32_t lengthSubblockSegmentData = 0;
     SubBlockData sbd;
+    sbd.logicalRect.Invalidate();
+    sbd.physicalSize = IntSize{ 0, 0 };
+    sbd.mIndex = (std::numeric_limits<int>::max)();
+    memset(sbd.spare, 0, sizeof(sbd.spare));
     if (subBlckSegment.data.entrySchema[0] == 'D' && subBlckSegment.data.entrySchema[1] == 'V')
     {
         ConvertToHostByteOrder::Convert(&subBlckSegment.data.entryDV);
         sbd.compression = subBlckSegment.data.entryDV.Compression;
         sbd.pixelType = subBlckSegment.data.entryDV.PixelType;
-        sbd.mIndex = (std::numeric_limits<int>::max)();
         memcpy(sbd.spare, subBlckSegment.data.entryDV._spare, sizeof(sbd.spare));
 
         if (subBlckSegment.data.entryDV.DimensionCount < 0 || subBlckSegment.data.entryDV.DimensionCount > MAXDIMENSIONS)
-- 
2.43.0


From 4148b2a1558dc58e9e24b085128a1050ad457122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:49 +0000
Subject: [PATCH 70/74] fix: refuse to create a bitmap whose pitch does not fit
 32 bits

---
 Src/libCZI/bitmapData.h | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/Src/libCZI/bitmapData.h b/Src/libCZI/bitmapData.h
index aec0c3f..52983b5 100644
--- a/Src/libCZI/bitmapData.h
+++ b/Src/libCZI/bitmapData.h
@@ -6,6 +6,8 @@
 
 #include <memory>
 #include <atomic>
+#include <limits>
+#include <stdexcept>
 #include "libCZI_Pixels.h"
 #include "CziUtils.h"
 #include "stdAllocator.h"
@@ -121,11 +123,24 @@ namespace libCZI
             }
 
         private:
-            static std::uint32_t CalcDefaultPitch(libCZI::PixelType pixeltype, int width)
+            static std::uint32_t CalcDefaultPitch(libCZI::PixelType pixeltype, std::uint64_t width)
             {
                 auto stride = CziUtils::GetBytesPerPel(pixeltype) * width;
                 stride = ((stride + 3) / 4) * 4;
-                return stride;
+                if (stride > (std::numeric_limits<std::uint32_t>::max)())
+                {
+                    throw std::out_of_range("The bitmap is too wide.");
+                }
+
+                return static_cast<std::uint32_t>(stride);
+            }
+
+            static void ThrowIfPitchIsTooSmall(libCZI::PixelType pixeltype, std::uint32_t width, std::uint32_t pitch)
+            {
+                if (pitch < static_cast<std::uint64_t>(CziUtils::GetBytesPerPel(pixeltype)) * width)
+                {
+                    throw std::out_of_range("The pitch is too small for the width of the bitmap.");
+                }
             }
 
             static void ThrowIfPointerIsNull(const void* ptr, uint64_t size)
@@ -149,9 +164,11 @@ namespace libCZI
         {
             if (pitch == 0)
             {
-                pitch = CalcDefaultPitch(pixeltype, width + 2 * extraColumns);
+                pitch = CalcDefaultPitch(pixeltype, width + 2ULL * extraColumns);
             }
 
+            ThrowIfPitchIsTooSmall(pixeltype, width, pitch);
+
             auto s = std::make_shared<CBitmapData<tAllocator>>(pixeltype, width, height, pitch, extraRows, extraColumns);
             return s;
         }
@@ -159,6 +176,7 @@ namespace libCZI
         template <typename tAllocator>
         /*static*/inline std::shared_ptr<libCZI::IBitmapData> CBitmapData<tAllocator>::Create(tAllocator allocator, libCZI::PixelType pixeltype, std::uint32_t width, std::uint32_t height, std::uint32_t pitch)
         {
+            ThrowIfPitchIsTooSmall(pixeltype, width, pitch);
             auto s = std::make_shared<CBitmapData<tAllocator>>(allocator, pixeltype, width, height, pitch, 0, 0);
             return s;
         }
-- 
2.43.0


From 9506e343d195c8fd5af7b7ea9270f46caaf693ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:16 +0000
Subject: [PATCH 71/74] fix: scaling an empty bitmap reads no pixels

---
 Src/libCZI/BitmapOperations.hpp        | 5 +++++
 Src/libCZI/BitmapOperationsBitonal.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/Src/libCZI/BitmapOperations.hpp b/Src/libCZI/BitmapOperations.hpp
index 72c406b..c992487 100644
--- a/Src/libCZI/BitmapOperations.hpp
+++ b/Src/libCZI/BitmapOperations.hpp
@@ -422,6 +422,11 @@ namespace libCZI
             constexpr uint8_t bytesPerPelSrc = CziUtils::BytesPerPel<tSrcPixelType>();
             constexpr uint8_t bytesPerPelDest = CziUtils::BytesPerPel<tDstPixelType>();
 
+            if (resizeInfo.srcWidth <= 0 || resizeInfo.srcHeight <= 0)
+            {
+                return; // there are no source pixels
+            }
+
             const int dstXStart = (std::max)(static_cast<int>(resizeInfo.dstRoiX), 0);
             const int dstXEnd = (std::min)(static_cast<int>(resizeInfo.dstRoiX + resizeInfo.dstRoiW), resizeInfo.dstWidth - 1);
 
diff --git a/Src/libCZI/BitmapOperationsBitonal.cpp b/Src/libCZI/BitmapOperationsBitonal.cpp
index cbae170..b4b4406 100644
--- a/Src/libCZI/BitmapOperationsBitonal.cpp
+++ b/Src/libCZI/BitmapOperationsBitonal.cpp
@@ -442,6 +442,11 @@ namespace
         constexpr uint8_t bytesPerPelSrc = CziUtils::BytesPerPel<tSrcPixelType>();
         constexpr uint8_t bytesPerPelDest = CziUtils::BytesPerPel<tDstPixelType>();
 
+        if (resize_info.srcWidth <= 0 || resize_info.srcHeight <= 0)
+        {
+            return; // there are no source pixels
+        }
+
         const int dstXStart = (std::max)(static_cast<int>(resize_info.dstRoiX), 0);
         const int dstXEnd = (std::min)(static_cast<int>(resize_info.dstRoiX + resize_info.dstRoiW), resize_info.dstWidth - 1);
 
-- 
2.43.0


From d83042f6941866086b8289f3d098c4463efa2242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:25 +0000
Subject: [PATCH 72/74] fix: order subblocks by position without overflow when
 checking for duplicates

---
 Src/libCZI/CziSubBlockDirectory.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Src/libCZI/CziSubBlockDirectory.cpp b/Src/libCZI/CziSubBlockDirectory.cpp
index b13d65e..12368e0 100644
--- a/Src/libCZI/CziSubBlockDirectory.cpp
+++ b/Src/libCZI/CziSubBlockDirectory.cpp
@@ -530,22 +530,20 @@ bool CWriterCziSubBlockDirectory::SubBlkEntryCompare::operator()(const SubBlkEnt
     // 4th check: the x-y-position
     if (a.IsMIndexValid() == false && b.IsMIndexValid() == false)
     {
-        int v = a.x - b.x;
-        if (v < 0)
+        if (a.x < b.x)
         {
             return true;
         }
-        if (v > 0)
+        if (a.x > b.x)
         {
             return false;
         }
 
-        v = a.y - b.y;
-        if (v < 0)
+        if (a.y < b.y)
         {
             return true;
         }
-        if (v > 0)
+        if (a.y > b.y)
         {
             return false;
         }
-- 
2.43.0


From d5d09d1daf45e8a3e889e9b306de13905c44d9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:34 +0000
Subject: [PATCH 73/74] fix: fill up with the full number of zeroes, also if
 there are more than 4096

---
 Src/libCZI/CziWriter.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Src/libCZI/CziWriter.cpp b/Src/libCZI/CziWriter.cpp
index 7a259f5..829bf17 100644
--- a/Src/libCZI/CziWriter.cpp
+++ b/Src/libCZI/CziWriter.cpp
@@ -470,12 +470,11 @@ void libCZI::ICziWriter::SyncAddSubBlock(const AddSubBlockInfoStridedBitmap& add
 {
     size_t totalBytesWritten = 0;
     std::uint8_t zeroes[4096] = { 0 };
-    for (std::uint64_t i = 0; i < (count + sizeof(zeroes) - 1) / sizeof(zeroes); ++i)
+    for (std::uint64_t i = 0; i < count; i += sizeof(zeroes))
     {
         uint64_t bytesWritten;
-        const auto bytesToWrite = (std::min)(static_cast<decltype(count)>(sizeof(zeroes)), count);
-        writeFunc(filePos + i * sizeof(zeroes), zeroes, bytesToWrite, &bytesWritten, "AligningWithZeroes");
-        count -= sizeof(zeroes);
+        const auto bytesToWrite = (std::min)(static_cast<decltype(count)>(sizeof(zeroes)), count - i);
+        writeFunc(filePos + i, zeroes, bytesToWrite, &bytesWritten, "AligningWithZeroes");
         totalBytesWritten += (size_t)bytesWritten;
     }
 
-- 
2.43.0


From ec3da5f85d594a359537e33010f7730e9d453b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:37 +0000
Subject: [PATCH 74/74] fix: send the OAuth2 token given for an HTTP stream

---
 Src/libCZI/StreamsLib/curlhttpinputstream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
index 29ba08c..ef71b32 100644
--- a/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
+++ b/Src/libCZI/StreamsLib/curlhttpinputstream.cpp
@@ -171,6 +171,10 @@ CurlHttpInputStream::CurlHttpInputStream(const std::string& url, const std::map<
     {
         return_code = curl_easy_setopt(up_curl_handle.get(), CURLOPT_XOAUTH2_BEARER, property->second.GetAsStringOrThrow().c_str());
         ThrowIfCurlSetOptError(return_code, "CURLOPT_XOAUTH2_BEARER");
+
+        // without allowing this authentication method, the token is not used with HTTP (c.f. https://curl.se/libcurl/c/CURLOPT_HTTPAUTH.html)
+        return_code = curl_easy_setopt(up_curl_handle.get(), CURLOPT_HTTPAUTH, static_cast<long>(CURLAUTH_BEARER));
+        ThrowIfCurlSetOptError(return_code, "CURLOPT_HTTPAUTH");
     }
 
     property = property_bag.find(StreamsFactory::StreamProperties::kCurlHttp_Cookie);
-- 
2.43.0

