From 52582252f752cd6dd5d2ac49f2355f346aee3f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:51 +0000
Subject: [PATCH 01/50] fix: do not let ConversionException escape when
 reporting ignored ID3v2 values

Invalid characters (e.g. a lone UTF-16 surrogate) within additional values of a
text frame of a pre-ID3v2.4 tag made Id3v2Frame::ignoreAdditionalValuesDiagMsg()
throw ConversionException which then left MediaFileInfo::parseTags() and
MediaFileInfo::applyChanges().
---
 id3/id3v2frame.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index df12b8e..30ed7a4 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -465,10 +465,15 @@ void Id3v2Frame::internallyClearFurtherData()
  */
 std::string Id3v2Frame::ignoreAdditionalValuesDiagMsg() const
 {
-    if (m_additionalValues.size() == 1) {
-        return argsToString("Additional value \"", m_additionalValues.front().toString(TagTextEncoding::Utf8), "\" is supposed to be ignored.");
+    try {
+        if (m_additionalValues.size() == 1) {
+            return argsToString("Additional value \"", m_additionalValues.front().toString(TagTextEncoding::Utf8), "\" is supposed to be ignored.");
+        }
+        return argsToString("Additional values ", DiagMessage::formatList(TagValue::toStrings(m_additionalValues)), " are supposed to be ignored.");
+    } catch (const ConversionException &) {
+        // avoid failing just because the ignored values contain invalid characters
+        return argsToString(m_additionalValues.size(), " additional value(s) (which cannot be displayed) are supposed to be ignored.");
     }
-    return argsToString("Additional values ", DiagMessage::formatList(TagValue::toStrings(m_additionalValues)), " are supposed to be ignored.");
 }
 
 /*!
-- 
2.43.0


From 03a12a2432b8da599a48a2f5abe59352b62589ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:44 +0000
Subject: [PATCH 02/50] fix: restore original file when it cannot be re-created
 after moving it to the backup path

If opening the output file failed after createBackupFileCanonical() succeeded the
original file was only left at the backup path (and thus lost from the user's
point of view).
---
 matroska/matroskacontainer.cpp | 8 +++++++-
 mediafileinfo.cpp              | 8 +++++++-
 mp4/mp4container.cpp           | 8 +++++++-
 ogg/oggcontainer.cpp           | 8 +++++++-
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 22b8c3f..c1cc138 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1526,7 +1526,13 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             try {
                 BackupHelper::createBackupFileCanonical(fileInfo().backupDirectory(), originalPath, backupPath, outputStream, backupStream);
                 // recreate original file, define buffer variables
-                outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+                try {
+                    outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+                } catch (const std::ios_base::failure &) {
+                    // move the backup file back so the original file is not lost
+                    BackupHelper::restoreOriginalFileFromBackupFile(originalPath, backupPath, outputStream, backupStream);
+                    throw;
+                }
             } catch (const std::ios_base::failure &failure) {
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index cb56aa9..48d4324 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1790,7 +1790,13 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             try {
                 BackupHelper::createBackupFileCanonical(backupDirectory(), originalPath, backupPath, outputStream, backupStream);
                 // recreate original file, define buffer variables
-                outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+                try {
+                    outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+                } catch (const std::ios_base::failure &) {
+                    // move the backup file back so the original file is not lost
+                    BackupHelper::restoreOriginalFileFromBackupFile(originalPath, backupPath, outputStream, backupStream);
+                    throw;
+                }
             } catch (const std::ios_base::failure &failure) {
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 1cf39d5..c725135 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -547,7 +547,13 @@ calculatePadding:
             try {
                 BackupHelper::createBackupFileCanonical(fileInfo().backupDirectory(), originalPath, backupPath, outputStream, backupStream);
                 // recreate original file, define buffer variables
-                outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+                try {
+                    outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+                } catch (const std::ios_base::failure &) {
+                    // move the backup file back so the original file is not lost
+                    BackupHelper::restoreOriginalFileFromBackupFile(originalPath, backupPath, outputStream, backupStream);
+                    throw;
+                }
             } catch (const std::ios_base::failure &failure) {
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index a8348c4..0716fca 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -434,7 +434,13 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         try {
             BackupHelper::createBackupFileCanonical(fileInfo().backupDirectory(), originalPath, backupPath, fileInfo().stream(), backupStream);
             // recreate original file, define buffer variables
-            fileInfo().stream().open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+            try {
+                fileInfo().stream().open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+            } catch (const std::ios_base::failure &) {
+                // move the backup file back so the original file is not lost
+                BackupHelper::restoreOriginalFileFromBackupFile(originalPath, backupPath, fileInfo().stream(), backupStream);
+                throw;
+            }
         } catch (const std::ios_base::failure &failure) {
             diag.emplace_back(
                 DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
-- 
2.43.0


From e8232803a1af760433c422ca3b6e569c9d00b4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:38 +0000
Subject: [PATCH 03/50] fix: stop when copying media data has been aborted

CopyHelper::callbackCopy() just returns when aborted so applying changes was
reported as successful although the resulting file was truncated.
---
 genericfileelement.h | 2 ++
 mediafileinfo.cpp    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/genericfileelement.h b/genericfileelement.h
index eef3987..d8b89c5 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -954,6 +954,8 @@ void GenericFileElement<ImplementationType>::copyInternal(
     if (progress) {
         copyHelper.callbackCopy(stream, targetStream, bytesToCopy, std::bind(&AbortableProgressFeedback::isAborted, std::ref(progress)),
             std::bind(&AbortableProgressFeedback::updateStepPercentageFromFraction, std::ref(progress), std::placeholders::_1));
+        // handle abortion while copying; otherwise the truncated element would be considered complete
+        progress->stopIfAborted();
     } else {
         copyHelper.copy(stream, targetStream, bytesToCopy);
     }
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 48d4324..0526aa8 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1888,6 +1888,8 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             CopyHelper<0x4000> copyHelper;
             copyHelper.callbackCopy(backupStream, stream(), mediaDataSize, std::bind(&AbortableProgressFeedback::isAborted, std::ref(progress)),
                 std::bind(&AbortableProgressFeedback::updateStepPercentage, std::ref(progress), _1));
+            // handle abortion while copying; otherwise the truncated file would be considered complete
+            progress.stopIfAborted();
         } else {
             // just skip actual stream data
             outputStream.seekp(static_cast<std::streamoff>(mediaDataSize), ios_base::cur);
-- 
2.43.0


From 03460d6f586f30c49d316f340a6ecfdede381ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:19 +0000
Subject: [PATCH 04/50] fix: flush output streams before closing them to notice
 write errors

NativeFileStream::close() does not report errors when writing the remaining
buffer so a full disk could lead to a truncated file although applying changes
was reported as successful.
---
 matroska/matroskacontainer.cpp | 3 +++
 mediafileinfo.cpp              | 2 ++
 mp4/mp4container.cpp           | 3 +++
 ogg/oggcontainer.cpp           | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index c1cc138..a098206 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1841,6 +1841,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             }
 
             // the outputStream needs to be reopened to be able to read again
+            // -> flush explicitly because closing the stream does not necessarily report write errors
+            outputStream.flush();
             outputStream.close();
             outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
             setStream(outputStream);
@@ -1849,6 +1851,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             if (newSize < fileInfo().size()) {
                 // file is smaller after the modification -> truncate
                 // -> close stream before truncating
+                outputStream.flush();
                 outputStream.close();
                 // -> truncate file
                 auto ec = std::error_code();
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 0526aa8..b34f95e 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1916,12 +1916,14 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             }
             // prevent deferring final write operations (to catch and handle possible errors here); stream is useless for further
             // usage anyways because it is write-only
+            outputStream.flush(); // closing the stream does not necessarily report write errors
             outputStream.close();
         } else {
             const auto newSize = static_cast<std::uint64_t>(outputStream.tellp());
             if (newSize < size()) {
                 // file is smaller after the modification -> truncate
                 // -> prevent deferring final write operations
+                outputStream.flush();
                 outputStream.close();
                 // -> truncate file
                 auto ec = std::error_code();
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index c725135..bf08bcd 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -851,6 +851,8 @@ calculatePadding:
                 fileInfo().setSaveFilePath(string());
             }
             // the outputStream needs to be reopened to be able to read again
+            // -> flush explicitly because closing the stream does not necessarily report write errors
+            outputStream.flush();
             outputStream.close();
             outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
             setStream(outputStream);
@@ -859,6 +861,7 @@ calculatePadding:
             if (newSize < fileInfo().size()) {
                 // file is smaller after the modification -> truncate
                 // -> close stream before truncating
+                outputStream.flush();
                 outputStream.close();
                 // -> truncate file
                 auto ec = std::error_code();
diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 0716fca..b16914c 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -706,6 +706,8 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
 
         // close backups stream; reopen new file as readable stream
         auto &stream = fileInfo().stream();
+        // -> flush explicitly because closing the stream does not necessarily report write errors
+        stream.flush();
         backupStream.close();
         fileInfo().close();
         stream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
-- 
2.43.0


From 59af08e2412ec92a6c305bb8e00f120e386563f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:03 +0000
Subject: [PATCH 05/50] fix: support file URLs consistently when
 opening/truncating/moving files

BasicFileInfo::pathForOpen() was not used in some places so e.g. updating an MP4
or Matroska file specified via file:// URL in-place failed.
---
 backuphelper.cpp               | 2 +-
 matroska/matroskacontainer.cpp | 8 ++++----
 mp4/mp4container.cpp           | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/backuphelper.cpp b/backuphelper.cpp
index 3198c9d..f297d31 100644
--- a/backuphelper.cpp
+++ b/backuphelper.cpp
@@ -154,7 +154,7 @@ void createBackupFile(const std::string &backupDir, const std::string &originalP
     }
 
     // rename original file
-    const auto u8originalPath = std::filesystem::path(makeNativePath(originalPath));
+    const auto u8originalPath = std::filesystem::path(makeNativePath(BasicFileInfo::pathForOpen(originalPath)));
     const auto backupPathForOpen = std::filesystem::path(makeNativePath(BasicFileInfo::pathForOpen(backupPath)));
     std::filesystem::rename(u8originalPath, backupPathForOpen, ec);
     if (ec) {
diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index a098206..ab98bbc 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1565,7 +1565,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         // reopen original file to ensure it is opened for writing
         try {
             fileInfo().close();
-            outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
+            outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
         } catch (const std::ios_base::failure &failure) {
             diag.emplace_back(DiagLevel::Critical, argsToString("Opening the file with write permissions failed: ", failure.what()), context);
             throw;
@@ -1844,7 +1844,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             // -> flush explicitly because closing the stream does not necessarily report write errors
             outputStream.flush();
             outputStream.close();
-            outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
+            outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
             setStream(outputStream);
         } else {
             const auto newSize = static_cast<std::uint64_t>(outputStream.tellp());
@@ -1855,14 +1855,14 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 outputStream.close();
                 // -> truncate file
                 auto ec = std::error_code();
-                std::filesystem::resize_file(makeNativePath(fileInfo().path()), newSize, ec);
+                std::filesystem::resize_file(makeNativePath(BasicFileInfo::pathForOpen(fileInfo().path())), newSize, ec);
                 if (!ec) {
                     fileInfo().reportSizeChanged(newSize);
                 } else {
                     diag.emplace_back(DiagLevel::Critical, "Unable to truncate the file: " + ec.message(), context);
                 }
                 // -> reopen the stream again
-                outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
+                outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
             } else {
                 // file is longer after the modification -> just report new size
                 fileInfo().reportSizeChanged(newSize);
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index bf08bcd..68f35aa 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -586,7 +586,7 @@ calculatePadding:
         // reopen original file to ensure it is opened for writing
         try {
             fileInfo().close();
-            outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
+            outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
         } catch (const std::ios_base::failure &failure) {
             diag.emplace_back(DiagLevel::Critical, argsToString("Opening the file with write permissions failed: ", failure.what()), context);
             throw;
-- 
2.43.0


From c8dbd14ec40a6b8604232abc6ef618d6d7f44f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 06/50] fix: do not remove file when existence of its backup
 could not be verified

---
 backuphelper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/backuphelper.cpp b/backuphelper.cpp
index f297d31..25b1b0e 100644
--- a/backuphelper.cpp
+++ b/backuphelper.cpp
@@ -64,8 +64,9 @@ void restoreOriginalFileFromBackupFile(
     const auto originalPathForOpen = std::filesystem::path(makeNativePath(BasicFileInfo::pathForOpen(originalPath)));
     const auto backupPathForOpen = std::filesystem::path(makeNativePath(BasicFileInfo::pathForOpen(backupPath)));
     auto ec = std::error_code();
-    if (!std::filesystem::exists(backupPathForOpen, ec) && !ec) {
-        throw std::ios_base::failure("Backup/temporary file has not been created.");
+    if (!std::filesystem::exists(backupPathForOpen, ec)) {
+        throw std::ios_base::failure(
+            ec ? "Unable to check whether backup/temporary file exists: " + ec.message() : "Backup/temporary file has not been created.");
     }
 
     // remove original file and restore backup
-- 
2.43.0


From 361d407e5aacb22a7342d2874c90c6da139629aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 07/50] fix: reset effective size when clearing parsing results

---
 mediafileinfo.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index b34f95e..ca76f89 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1381,6 +1381,7 @@ void MediaFileInfo::clearParsingResults()
     m_containerFormat = ContainerFormat::Unknown;
     m_containerOffset = 0;
     m_paddingSize = 0;
+    m_effectiveSize = 0;
     m_tracksParsingStatus = ParsingStatus::NotParsedYet;
     m_tagsParsingStatus = ParsingStatus::NotParsedYet;
     m_chaptersParsingStatus = ParsingStatus::NotParsedYet;
-- 
2.43.0


From a0d99250ea1bbedc90109b4f3bb04646705e7c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:19 +0000
Subject: [PATCH 08/50] fix: do not discard ID3v1 tag when opening file to
 write it

---
 mediafileinfo.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index ca76f89..8395f4a 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1686,8 +1686,9 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             // add or update ID3v1 tag
             if (m_fileStructureFlags & MediaFileStructureFlags::ActualExistingId3v1Tag) {
                 progress.updateStep("Updating existing ID3v1 tag ...");
-                // ensure the file is still open / not readonly
-                open();
+                // ensure the file is still open / not readonly (without calling open() which might discard the tag to be written)
+                close();
+                stream().open(BasicFileInfo::pathForOpen(path()).data(), ios_base::in | ios_base::out | ios_base::binary);
                 stream().seekp(-128, ios_base::end);
                 try {
                     m_id3v1Tag->make(stream(), diag);
@@ -1696,8 +1697,9 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                 }
             } else {
                 progress.updateStep("Adding new ID3v1 tag ...");
-                // ensure the file is still open / not readonly
-                open();
+                // ensure the file is still open / not readonly (without calling open() which might discard the tag to be written)
+                close();
+                stream().open(BasicFileInfo::pathForOpen(path()).data(), ios_base::in | ios_base::out | ios_base::binary);
                 stream().seekp(0, ios_base::end);
                 try {
                     m_id3v1Tag->make(stream(), diag);
-- 
2.43.0


From 7aa53b3e649caabafa5f043667ff9e68c79b4293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:37 +0000
Subject: [PATCH 09/50] fix: avoid integer division by zero for MP4 files with
 a time scale of zero

---
 mp4/mp4container.cpp | 8 ++++----
 mp4/mp4track.cpp     | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 68f35aa..25abfde 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -138,15 +138,15 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                             m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
                             m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
                             m_timeScale = reader().readUInt32BE();
-                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()))
-                                / static_cast<TimeSpan::TickType>(m_timeScale);
+                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
+                            m_duration = m_timeScale ? m_duration / static_cast<TimeSpan::TickType>(m_timeScale) : TimeSpan();
                             break;
                         case 1:
                             m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
                             m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
                             m_timeScale = reader().readUInt32BE();
-                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()))
-                                / static_cast<TimeSpan::TickType>(m_timeScale);
+                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
+                            m_duration = m_timeScale ? m_duration / static_cast<TimeSpan::TickType>(m_timeScale) : TimeSpan();
                             break;
                         default:;
                         }
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 8a77edd..8310c84 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1682,7 +1682,8 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     }
     m_creationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdCreationTime));
     m_modificationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdModificationTime));
-    m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdDuration)) / static_cast<TimeSpan::TickType>(m_timeScale);
+    m_duration = m_timeScale ? TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdDuration)) / static_cast<TimeSpan::TickType>(m_timeScale)
+                             : TimeSpan();
 
     std::uint16_t tmp = reader.readUInt16BE();
     if (tmp) {
-- 
2.43.0


From 5466375e118b2c24fd7c1858c8d492c9c2c2fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:37 +0000
Subject: [PATCH 10/50] fix: avoid integer division by zero for WAVE files with
 a chunk size of zero

---
 wav/waveaudiostream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 38c6950..9fa9f7d 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -172,7 +172,7 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
         case 0x64617461u: // data segment
             m_dataOffset = static_cast<std::uint64_t>(m_istream->tellg());
             m_size = restHeaderLen;
-            m_sampleCount = m_size / m_chunkSize;
+            m_sampleCount = m_chunkSize ? m_size / m_chunkSize : 0;
             m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
             break;
         default:;
-- 
2.43.0


From c375e9fb7f722d50f02dabb501944554b7851afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:37 +0000
Subject: [PATCH 11/50] fix: avoid integer division by zero when AVC timing
 info has no time scale

---
 avc/avcinfo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/avc/avcinfo.h b/avc/avcinfo.h
index a1fd385..811746b 100644
--- a/avc/avcinfo.h
+++ b/avc/avcinfo.h
@@ -41,7 +41,7 @@ constexpr TimingInfo::TimingInfo()
 
 constexpr std::int64_t TimingInfo::defaultDuration() const
 {
-    return 1000000000ll * unitsInTick / timeScale;
+    return timeScale ? 1000000000ll * unitsInTick / timeScale : 0;
 }
 
 struct TAG_PARSER_EXPORT HrdParameters {
-- 
2.43.0


From 2b3a2e772895b1ed52c7a9b1c7287da08f26b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:17 +0000
Subject: [PATCH 12/50] fix: avoid dereferencing missing media data atom when
 updating MP4 file without media data

---
 mp4/mp4container.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 25abfde..79df6fd 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -485,7 +485,9 @@ calculatePadding:
             //    min padding: says "at least ... byte should be reserved to prepend further tag info", so the padding at the end
             //                 shouldn't be tanken into account (it can't be used to prepend further tag info)
             //    max padding: says "do not waste more than ... byte", so here all padding should be taken into account
-            newPadding = firstMediaDataAtom->startOffset() - currentOffset;
+            // note: If there's no media data at all, there is no upper limit so just use the preferred padding.
+            newPadding = firstMediaDataAtom ? firstMediaDataAtom->startOffset() - currentOffset
+                                            : (fileInfo().preferredPadding() && fileInfo().preferredPadding() < 8 ? 8 : fileInfo().preferredPadding());
             rewriteRequired = (newPadding > 0 && newPadding < 8) || newPadding < fileInfo().minPadding()
                 || (newPadding + newPaddingEnd) > fileInfo().maxPadding();
         }
-- 
2.43.0


From e1e6444488fafd140d0e25e03640a6206eb72bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:24 +0000
Subject: [PATCH 13/50] fix: avoid dereferencing missing comment when inserting
 the last Vorbis comment of an Ogg file

---
 ogg/oggcontainer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index b16914c..e6bdc63 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -528,6 +528,8 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
             if (currentComment && m_iterator.currentPageIndex() >= currentParams->firstPageIndex
                 && m_iterator.currentPageIndex() <= currentParams->lastPageIndex && !currentPage.segmentSizes().empty()) {
                 // page needs to be rewritten (not just copied)
+                // -> keep the parameters this page is rewritten for; there might be no further comment when all segments have been processed
+                const OggParameter *const pageParams = currentParams;
                 // -> write segments to a buffer first
                 auto buffer = std::stringstream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
                 auto newSegmentSizes = std::vector<std::uint32_t>();
@@ -652,9 +654,9 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                             stream().seekp(-21 - segmentSizesWritten, ios_base::cur);
                             writer().writeInt64LE(-1);
                             stream().seekp(12, ios_base::cur);
-                        } else if (currentParams->lastPageIndex != currentParams->firstPageIndex) {
+                        } else if (pageParams->lastPageIndex != pageParams->firstPageIndex) {
                             // ensure the written absolute granule position matches the one from the last page of the existing file
-                            backupStream.seekg(static_cast<streamoff>(m_iterator.pages()[currentParams->lastPageIndex].startOffset() + 6));
+                            backupStream.seekg(static_cast<streamoff>(m_iterator.pages()[pageParams->lastPageIndex].startOffset() + 6));
                             stream().seekp(-21 - segmentSizesWritten, ios_base::cur);
                             copyHelper.copy(backupStream, stream(), 8);
                             stream().seekp(12, ios_base::cur);
-- 
2.43.0


From a21ac24cbe7059189f7333b2add17cd2fff17281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:35 +0000
Subject: [PATCH 14/50] fix: avoid dereferencing missing track when checking
 for tags of FLAC file not parsed yet

---
 mediafileinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 8395f4a..152a778 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1592,7 +1592,7 @@ vector<Tag *> MediaFileInfo::tags() const
 bool MediaFileInfo::hasAnyTag() const
 {
     return hasId3v1Tag() || hasId3v2Tag() || (m_container && m_container->tagCount())
-        || (m_containerFormat == ContainerFormat::Flac && static_cast<FlacStream *>(m_singleTrack.get())->vorbisComment());
+        || (m_containerFormat == ContainerFormat::Flac && m_singleTrack && static_cast<FlacStream *>(m_singleTrack.get())->vorbisComment());
 }
 
 /*!
-- 
2.43.0


From ae378486d419e8319b631d47f471dc35bcf1429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:46 +0000
Subject: [PATCH 15/50] fix: avoid calling member function of missing Vorbis
 comment when parsing FLAC picture

---
 flac/flacstream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 0b8cfee..3454866 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -2,6 +2,7 @@
 #include "./flacmetadata.h"
 
 #include "../vorbis/vorbiscomment.h"
+#include "../vorbis/vorbiscommentids.h"
 
 #include "../exceptions.h"
 #include "../mediafileinfo.h"
@@ -129,7 +130,7 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
             try {
                 // parse the cover
                 VorbisCommentField coverField;
-                coverField.setId(m_vorbisComment->fieldId(KnownField::Cover));
+                coverField.setId(std::string(VorbisCommentIds::cover()));
                 FlacMetaDataBlockPicture picture(coverField.value());
                 picture.parse(*m_istream, header.dataSize());
                 coverField.setTypeInfo(picture.pictureType());
-- 
2.43.0


From 6272e7482b6e543a1142d70a5e11d279d39ec94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:47 +0000
Subject: [PATCH 16/50] fix: map Vorbis comment field "LANGUAGE" back to the
 generic language field

---
 vorbis/vorbiscomment.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 0a7ac6f..66b6a8e 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -144,6 +144,7 @@ KnownField VorbisComment::internallyGetKnownField(const IdentifierType &id) cons
          { grouping(), KnownField::Grouping },
          { label(), KnownField::RecordLabel },
          { performer(), KnownField::Performers },
+         { language(), KnownField::Language },
          { lyricist(), KnownField::Lyricist },
          { lyrics(), KnownField::Lyrics },
          { albumArtist(), KnownField::AlbumArtist },
-- 
2.43.0


From 61d819d85b7fbf342b075c0e3dbe6163b9f79086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:47 +0000
Subject: [PATCH 17/50] fix: map Matroska tag field "GENRE" back to the generic
 genre field

---
 matroska/matroskatag.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matroska/matroskatag.cpp b/matroska/matroskatag.cpp
index 1c3c20f..d262105 100644
--- a/matroska/matroskatag.cpp
+++ b/matroska/matroskatag.cpp
@@ -218,6 +218,7 @@ KnownField MatroskaTag::internallyGetKnownField(const IdentifierType &id) const
         { dateRecorded(), KnownField::RecordDate },
         { dateRelease(), KnownField::ReleaseDate },
         { title(), KnownField::Title },
+        { genre(), KnownField::Genre },
         { partNumber(), KnownField::PartNumber },
         { totalParts(), KnownField::TotalParts },
         { encoder(), KnownField::Encoder },
-- 
2.43.0


From 781cf1e9e18e16131bbe7b1f93add7e319ae5f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:47 +0000
Subject: [PATCH 18/50] fix: map generic ISRC field to the ID3v2 frame it is
 read from

---
 id3/id3v2tag.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index f90071f..055b5d7 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -202,6 +202,8 @@ Id3v2Tag::IdentifierType Id3v2Tag::internallyGetFieldId(KnownField field) const
             return lOriginalMediaType;
         case KnownField::Mood:
             return lMood;
+        case KnownField::ISRC:
+            return lISRC;
         case KnownField::InitialKey:
             return lKey;
         case KnownField::PublisherWebpage:
@@ -270,6 +272,8 @@ Id3v2Tag::IdentifierType Id3v2Tag::internallyGetFieldId(KnownField field) const
             return sCopyright;
         case KnownField::OriginalMediaType:
             return sOriginalMediaType;
+        case KnownField::ISRC:
+            return sISRC;
         case KnownField::InitialKey:
             return sKey;
         case KnownField::PublisherWebpage:
-- 
2.43.0


From 203fbfb81373c715ebdcb4c41e7351381eed0939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:47 +0000
Subject: [PATCH 19/50] fix: convert all ID3v2 frame IDs which exist in short
 and long form (e.g. composer)

---
 id3/id3v2frameids.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/id3/id3v2frameids.cpp b/id3/id3v2frameids.cpp
index 9afb674..3035feb 100644
--- a/id3/id3v2frameids.cpp
+++ b/id3/id3v2frameids.cpp
@@ -69,12 +69,18 @@ std::uint32_t convertToShortId(std::uint32_t id)
         return sEncoderSettings;
     case lUnsynchronizedLyrics:
         return sUnsynchronizedLyrics;
+    case lSynchronizedLyrics:
+        return sSynchronizedLyrics;
     case lAlbumArtist:
         return sAlbumArtist;
     case lContentGroupDescription:
         return sContentGroupDescription;
     case lRecordLabel:
         return sRecordLabel;
+    case lUniqueFileId:
+        return sUniqueFileId;
+    case lComposer:
+        return sComposer;
     case lUserDefinedText:
         return sUserDefinedText;
     case lRemixedBy:
@@ -159,12 +165,18 @@ std::uint32_t convertToLongId(std::uint32_t id)
         return lEncoderSettings;
     case sUnsynchronizedLyrics:
         return lUnsynchronizedLyrics;
+    case sSynchronizedLyrics:
+        return lSynchronizedLyrics;
     case sAlbumArtist:
         return lAlbumArtist;
     case sContentGroupDescription:
         return lContentGroupDescription;
     case sRecordLabel:
         return lRecordLabel;
+    case sUniqueFileId:
+        return lUniqueFileId;
+    case sComposer:
+        return lComposer;
     case sUserDefinedText:
         return lUserDefinedText;
     case sRemixedBy:
-- 
2.43.0


From d78ee519e87696424a3232680d787ab7f94f1386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:47 +0000
Subject: [PATCH 20/50] fix: report presence of record date in ID3v1 tag

---
 id3/id3v1tag.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 66f40de..d02a968 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -207,6 +207,7 @@ bool Id3v1Tag::hasField(KnownField field) const
         return !m_artist.isEmpty();
     case KnownField::Album:
         return !m_album.isEmpty();
+    case KnownField::RecordDate:
         return !m_year.isEmpty();
     case KnownField::Comment:
         return !m_comment.isEmpty();
-- 
2.43.0


From bbb47f8214b84368545ca9fa1802b0dfa80289c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:47 +0000
Subject: [PATCH 21/50] fix: determine raw data type for all supported MP4 tag
 fields as documented

---
 mp4/mp4tagfield.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index bffd89b..772e42d 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -445,6 +445,18 @@ std::uint32_t Mp4TagField::appropriateRawDataTypeForValue(const TagValue &value)
     case Performers:
     case Lyricist:
     case AlbumArtist:
+    case EncodedBy:
+    case Copyright:
+    case Conductor:
+    case Director:
+    case Publisher:
+    case SoundEngineer:
+    case Producer:
+    case ExecutiveProducer:
+    case ArtDirector:
+    case Arranger:
+    case StoreDescription:
+    case LongDescription:
         switch (value.dataEncoding()) {
         case TagTextEncoding::Utf8:
             return RawDataType::Utf8;
-- 
2.43.0


From ef2ed81256797b08ee1fa20a40dc999ea004bae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:13 +0000
Subject: [PATCH 22/50] fix: read header of IVF frames as little-endian

All multi-byte values of an IVF file are little-endian, including the size
and timestamp in front of each frame.
---
 ivf/ivfframe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ivf/ivfframe.cpp b/ivf/ivfframe.cpp
index cce1104..ace4d6f 100644
--- a/ivf/ivfframe.cpp
+++ b/ivf/ivfframe.cpp
@@ -22,8 +22,8 @@ void IvfFrame::parseHeader(CppUtilities::BinaryReader &reader, Diagnostics &diag
 {
     CPP_UTILITIES_UNUSED(diag)
     startOffset = static_cast<std::uint64_t>(reader.stream()->tellg());
-    size = reader.readUInt32BE();
-    timestamp = reader.readUInt64BE();
+    size = reader.readUInt32LE();
+    timestamp = reader.readUInt64LE();
 }
 
 } // namespace TagParser
-- 
2.43.0


From 50133dae4d0bd1df790d9312e697203c272a7979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:14 +0000
Subject: [PATCH 23/50] fix: copy flags and native data of tag values

Copying a tag value dropped its format-specific native data. The copy
constructor (in contrast to the assignment) also dropped its flags, so that the
copy was not equal to the original.
---
 tagvalue.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index aaa0924..14fbf6b 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -137,10 +137,11 @@ TagValue::TagValue(const TagValue &other)
     , m_desc(other.m_desc)
     , m_mimeType(other.m_mimeType)
     , m_locale(other.m_locale)
+    , m_nativeData(other.m_nativeData)
     , m_type(other.m_type)
     , m_encoding(other.m_encoding)
     , m_descEncoding(other.m_descEncoding)
-    , m_flags(TagValueFlags::None)
+    , m_flags(other.m_flags)
 {
     if (!other.isEmpty()) {
         m_ptr = make_unique<char[]>(m_size);
@@ -295,6 +296,7 @@ TagValue &TagValue::operator=(const TagValue &other)
     m_desc = other.m_desc;
     m_mimeType = other.m_mimeType;
     m_locale = other.m_locale;
+    m_nativeData = other.m_nativeData;
     m_flags = other.m_flags;
     m_encoding = other.m_encoding;
     m_descEncoding = other.m_descEncoding;
-- 
2.43.0


From fe56d81bf9787aefb6df62920a4888b511596847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:14 +0000
Subject: [PATCH 24/50] fix: wipe native data when clearing meta data of tag
 values

---
 tagvalue.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 14fbf6b..4a9b14e 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -495,7 +495,7 @@ bool TagValue::compareTo(const TagValue &other, TagValueComparisionFlags options
 
 /*!
  * \brief Wipes assigned meta data.
- *  - Clears description, mime type, language and flags.
+ *  - Clears description, mime type, language, native data and flags.
  *  - Resets the encoding to TagTextEncoding::Latin1.
  *  - Resets the data type to TagDataType::Undefined.
  */
@@ -504,6 +504,7 @@ void TagValue::clearMetadata()
     m_desc.clear();
     m_mimeType.clear();
     m_locale.clear();
+    m_nativeData.clear();
     m_flags = TagValueFlags::None;
     m_encoding = TagTextEncoding::Latin1;
     m_descEncoding = TagTextEncoding::Latin1;
-- 
2.43.0


From 16c45c9203c58234c3de52f6f1febb8fb3dabe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:14 +0000
Subject: [PATCH 25/50] fix: reset all members when clearing an attachment

The documentation promises the initial state but a cleared attachment still
claimed to stem from a file and was still ignored.
---
 abstractattachment.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstractattachment.cpp b/abstractattachment.cpp
index 9d586dd..149a2ca 100644
--- a/abstractattachment.cpp
+++ b/abstractattachment.cpp
@@ -173,6 +173,8 @@ void AbstractAttachment::clear()
     m_mimeType.clear();
     m_id = 0;
     m_data.reset();
+    m_isDataFromFile = false;
+    m_ignored = false;
 }
 
 /*!
-- 
2.43.0


From c91814026f3b82f2a3f43ef017c7b150afc5cf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:14 +0000
Subject: [PATCH 26/50] fix: do not consider attachments with a MIME-type empty

---
 abstractattachment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstractattachment.h b/abstractattachment.h
index 96a77c9..257fc27 100644
--- a/abstractattachment.h
+++ b/abstractattachment.h
@@ -261,7 +261,7 @@ inline void AbstractAttachment::setIgnored(bool ignored)
  */
 inline bool AbstractAttachment::isEmpty() const
 {
-    return m_description.empty() && m_name.empty() && !m_mimeType.empty() && !m_data;
+    return m_description.empty() && m_name.empty() && m_mimeType.empty() && !m_data;
 }
 
 } // namespace TagParser
-- 
2.43.0


From 9f51cef037f785132cfd358b2458dafb5d0b1074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:14 +0000
Subject: [PATCH 27/50] fix: clear all offsets when clearing the Matroska cue
 position updater

Otherwise parsing another "Cues"-element keeps offsets (and dangling element
pointers) of the previous one.
---
 matroska/matroskacues.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matroska/matroskacues.h b/matroska/matroskacues.h
index 1e08f69..1adac1a 100644
--- a/matroska/matroskacues.h
+++ b/matroska/matroskacues.h
@@ -122,6 +122,9 @@ inline void MatroskaCuePositionUpdater::clear()
 {
     m_cuesElement = nullptr;
     m_offsets.clear();
+    m_cueElementByOriginalOffset.clear();
+    m_relativeOffsets.clear();
+    m_cueRelativePositionElementByOriginalOffsets.clear();
     m_sizes.clear();
 }
 
-- 
2.43.0


From 888130b66fa20d395aa2db3d70f1ae5d995c43c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:12 +0000
Subject: [PATCH 28/50] fix: restore the initial state when clearing tag fields

The default flag was set although the documentation says it becomes false and
nested fields were kept.
---
 generictagfield.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generictagfield.h b/generictagfield.h
index 3ae9367..41a0ff0 100644
--- a/generictagfield.h
+++ b/generictagfield.h
@@ -233,7 +233,7 @@ template <class ImplementationType> inline void TagField<ImplementationType>::se
 }
 
 /*!
- * \brief Clears id, value, type info, sets default flag to false and resets further implementation specific values.
+ * \brief Clears id, value, type info, nested fields, sets default flag to false and resets further implementation specific values.
  */
 template <class ImplementationType> void TagField<ImplementationType>::clear()
 {
@@ -242,7 +242,8 @@ template <class ImplementationType> void TagField<ImplementationType>::clear()
     static_cast<ImplementationType *>(this)->internallyClearFurtherData();
     m_typeInfo = TypeInfoType();
     m_typeInfoAssigned = false;
-    m_default = true;
+    m_default = false;
+    m_nestedFields.clear();
 }
 
 /*!
-- 
2.43.0


From 2a04f0af0000645860b180a6fdaa7bd16560cfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:26 +0000
Subject: [PATCH 29/50] fix: do not treat aborting the parsing of chapters as
 failure or success

---
 matroska/matroskacontainer.cpp | 4 ++++
 mediafileinfo.cpp              | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index ab98bbc..26446f2 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -754,6 +754,8 @@ void MatroskaContainer::internalParseChapters(Diagnostics &diag, AbortableProgre
                         m_editionEntries.back()->parseNested(diag, progress);
                     } catch (const NoDataFoundException &) {
                         m_editionEntries.pop_back();
+                    } catch (const OperationAbortedException &) {
+                        throw;
                     } catch (const Failure &) {
                         diag.emplace_back(DiagLevel::Critical, argsToString("Unable to parse edition entry ", m_editionEntries.size(), '.'), context);
                     }
@@ -766,6 +768,8 @@ void MatroskaContainer::internalParseChapters(Diagnostics &diag, AbortableProgre
                         "\"Chapters\"-element contains unknown child element \"" % subElement->idToString() + "\". It will be ignored.", context);
                 }
             }
+        } catch (const OperationAbortedException &) {
+            throw;
         } catch (const Failure &) {
             diag.emplace_back(DiagLevel::Critical, "Element structure seems to be invalid.", context);
             throw;
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 152a778..915b451 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -536,6 +536,8 @@ void MediaFileInfo::parseChapters(Diagnostics &diag, AbortableProgressFeedback &
     } catch (const NotImplementedException &) {
         m_chaptersParsingStatus = ParsingStatus::NotSupported;
         diag.emplace_back(DiagLevel::Information, "Parsing chapters is not implemented for the container format of the file.", context);
+    } catch (const OperationAbortedException &) {
+        diag.emplace_back(DiagLevel::Information, "Parsing chapters has been aborted.", context);
     } catch (const Failure &) {
         m_chaptersParsingStatus = ParsingStatus::CriticalFailure;
         diag.emplace_back(DiagLevel::Critical, "Unable to parse chapters.", context);
@@ -569,6 +571,8 @@ void MediaFileInfo::parseAttachments(Diagnostics &diag, AbortableProgressFeedbac
     } catch (const NotImplementedException &) {
         m_attachmentsParsingStatus = ParsingStatus::NotSupported;
         diag.emplace_back(DiagLevel::Information, "Parsing attachments is not implemented for the container format of the file.", context);
+    } catch (const OperationAbortedException &) {
+        diag.emplace_back(DiagLevel::Information, "Parsing attachments has been aborted.", context);
     } catch (const Failure &) {
         m_attachmentsParsingStatus = ParsingStatus::CriticalFailure;
         diag.emplace_back(DiagLevel::Critical, "Unable to parse attachments.", context);
-- 
2.43.0


From abba193fa87d39c7c912a0179f930ab92731038f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:05 +0000
Subject: [PATCH 30/50] fix: reset doctype, duration, timestamps and
 applications when resetting a container

---
 abstractcontainer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/abstractcontainer.cpp b/abstractcontainer.cpp
index 4a23a2d..17403a5 100644
--- a/abstractcontainer.cpp
+++ b/abstractcontainer.cpp
@@ -532,10 +532,15 @@ void AbstractContainer::reset()
     m_attachmentsParsed = false;
     m_version = 0;
     m_readVersion = 0;
+    m_doctype.clear();
     m_doctypeVersion = 0;
     m_doctypeReadVersion = 0;
     m_timeScale = 0;
     m_titles.clear();
+    m_duration = TimeSpan();
+    m_creationTime = DateTime();
+    m_modificationTime = DateTime();
+    m_p.reset();
 }
 
 /*!
-- 
2.43.0


From 7cdd512653cde785e5568bfcf9c654cad1fe787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:05 +0000
Subject: [PATCH 31/50] fix: discard all results when resetting an Ogg
 container

---
 ogg/oggcontainer.cpp | 4 +++-
 ogg/oggiterator.cpp  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index e6bdc63..ba2f88a 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -58,7 +58,9 @@ OggContainer::~OggContainer()
 
 void OggContainer::reset()
 {
-    m_iterator.reset();
+    GenericContainer<MediaFileInfo, OggVorbisComment, OggStream, OggPage>::reset();
+    m_streamsBySerialNo.clear();
+    m_iterator.clear(fileInfo().stream(), startOffset(), fileInfo().size());
 }
 
 /*!
diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 7a3cd22..05de163 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -35,6 +35,8 @@ void OggIterator::clear(istream &stream, std::uint64_t startOffset, std::uint64_
     m_startOffset = startOffset;
     m_streamSize = streamSize;
     m_pages.clear();
+    m_page = m_segment = m_offset = m_bytesRead = 0;
+    removeFilter();
 }
 
 /*!
@@ -45,7 +47,7 @@ void OggIterator::clear(istream &stream, std::uint64_t startOffset, std::uint64_
  */
 void OggIterator::reset()
 {
-    for (m_page = m_segment = m_offset = 0; m_page < m_pages.size() || fetchNextPage(); ++m_page) {
+    for (m_page = m_segment = m_offset = m_bytesRead = 0; m_page < m_pages.size() || fetchNextPage(); ++m_page) {
         const OggPage &page = m_pages[m_page];
         if (!page.segmentSizes().empty() && matchesFilter(page)) {
             // page is not empty and matches ID filter if set
-- 
2.43.0


From c83e07165b7937bcb49c8f32a03bb82db144c501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:20 +0000
Subject: [PATCH 32/50] fix: do not add to results of an incomplete previous
 attempt when parsing a container again

---
 matroska/matroskacontainer.cpp | 9 +++++++++
 mp4/mp4container.cpp           | 2 ++
 ogg/oggcontainer.cpp           | 5 +++++
 3 files changed, 16 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 26446f2..0341394 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -409,7 +409,12 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
     m_tracksElements.clear();
     m_segmentInfoElements.clear();
     m_tagsElements.clear();
+    m_chaptersElements.clear();
+    m_attachmentsElements.clear();
     m_seekInfos.clear();
+    m_titles.clear();
+    muxingApplications().clear();
+    writingApplications().clear();
     m_segmentCount = 0;
     std::uint64_t currentOffset = 0;
     vector<MatroskaSeekInfo>::difference_type seekInfosIndex = 0;
@@ -667,6 +672,7 @@ void MatroskaContainer::internalParseTags(Diagnostics &diag, AbortableProgressFe
     CPP_UTILITIES_UNUSED(progress)
 
     static const string context("parsing tags of Matroska container");
+    m_tags.clear(); // discard results of a possible previous attempt which has not been completed
     auto flags = MatroskaTagFlags::None;
     if (fileInfo().fileHandlingFlags() & MediaFileHandlingFlags::NormalizeKnownTagFieldIds) {
         flags += MatroskaTagFlags::NormalizeKnownFieldIds;
@@ -706,6 +712,7 @@ void MatroskaContainer::internalParseTags(Diagnostics &diag, AbortableProgressFe
 void MatroskaContainer::internalParseTracks(Diagnostics &diag, AbortableProgressFeedback &progress)
 {
     static const string context("parsing tracks of Matroska container");
+    m_tracks.clear(); // discard results of a possible previous attempt which has not been completed
     for (EbmlElement *element : m_tracksElements) {
         try {
             element->parse(diag);
@@ -742,6 +749,7 @@ void MatroskaContainer::internalParseTracks(Diagnostics &diag, AbortableProgress
 void MatroskaContainer::internalParseChapters(Diagnostics &diag, AbortableProgressFeedback &progress)
 {
     static const string context("parsing editions/chapters of Matroska container");
+    m_editionEntries.clear(); // discard results of a possible previous attempt which has not been completed
     for (EbmlElement *element : m_chaptersElements) {
         try {
             element->parse(diag);
@@ -782,6 +790,7 @@ void MatroskaContainer::internalParseAttachments(Diagnostics &diag, AbortablePro
     CPP_UTILITIES_UNUSED(progress)
 
     static const string context("parsing attachments of Matroska container");
+    m_attachments.clear(); // discard results of a possible previous attempt which has not been completed
     for (EbmlElement *element : m_attachmentsElements) {
         try {
             element->parse(diag);
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 79df6fd..c546d70 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -94,6 +94,7 @@ void Mp4Container::internalParseTags(Diagnostics &diag, AbortableProgressFeedbac
 {
     CPP_UTILITIES_UNUSED(progress)
     const string context("parsing tags of MP4 container");
+    m_tags.clear(); // discard results of a possible previous attempt which has not been completed
     auto *const udtaAtom = firstElement()->subelementByPath(diag, Mp4AtomIds::Movie, Mp4AtomIds::UserData);
     if (!udtaAtom) {
         return;
@@ -123,6 +124,7 @@ void Mp4Container::internalParseTags(Diagnostics &diag, AbortableProgressFeedbac
 void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedback &progress)
 {
     static const string context("parsing tracks of MP4 container");
+    m_tracks.clear(); // discard results of a possible previous attempt which has not been completed
     try {
         // get moov atom which holds track information
         if (Mp4Atom *moovAtom = firstElement()->siblingByIdIncludingThis(Mp4AtomIds::Movie, diag)) {
diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index ba2f88a..3945bfa 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -194,6 +194,10 @@ void OggContainer::internalParseHeader(Diagnostics &diag, AbortableProgressFeedb
     static const auto context = std::string("parsing Ogg bitstream header");
     auto pagesSkipped = false, continueFromHere = false;
 
+    // discard results of a possible previous attempt which has not been completed
+    m_tracks.clear();
+    m_streamsBySerialNo.clear();
+
     // iterate through pages using OggIterator helper class
     try {
         // ensure iterator is setup properly
@@ -362,6 +366,7 @@ void OggContainer::announceComment(std::size_t pageIndex, std::size_t segmentInd
 void OggContainer::internalParseTracks(Diagnostics &diag, AbortableProgressFeedback &progress)
 {
     static const string context("parsing Ogg stream");
+    m_tags.clear(); // discard results of a possible previous attempt which has not been completed
     for (auto &stream : m_tracks) {
         if (progress.isAborted()) {
             throw OperationAbortedException();
-- 
2.43.0


From 9bf2d0ea779a9d5cbd28243ebe549b998b07f0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:20 +0000
Subject: [PATCH 33/50] fix: discard buffered data and unknown size when
 clearing an element

---
 genericfileelement.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genericfileelement.h b/genericfileelement.h
index d8b89c5..218f7aa 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -759,7 +759,9 @@ template <class ImplementationType> void GenericFileElement<ImplementationType>:
     m_sizeLength = 0;
     m_nextSibling = nullptr;
     m_firstChild = nullptr;
+    m_buffer.reset();
     m_parsed = false;
+    m_sizeUnknown = false;
 }
 
 /*!
-- 
2.43.0


From a0f7f46b3fc2131eb72610e081ed1ea67edc3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:20 +0000
Subject: [PATCH 34/50] fix: discard previous contents when reparsing a tag
 field

---
 matroska/matroskatagfield.cpp | 1 +
 mp4/mp4tagfield.cpp           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index 581e35d..0bdd31b 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -47,6 +47,7 @@ MatroskaTagField::MatroskaTagField(const string &id, const TagValue &value)
 void MatroskaTagField::reparse(EbmlElement &simpleTagElement, Diagnostics &diag, bool parseNestedFields)
 {
     string context("parsing Matroska tag field");
+    clear();
     simpleTagElement.parse(diag);
     bool tagDefaultFound = false, tagLanguageFound = false, tagLanguageIETFFound = false;
     for (EbmlElement *child = simpleTagElement.firstChild(); child; child = child->nextSibling()) {
diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 772e42d..e51407f 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -104,6 +104,7 @@ static bool assignSpecialInteger(const Mp4Atom &ilstChild, int source, TagValue
 void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
 {
     // prepare reparsing
+    clear();
     using namespace Mp4AtomIds;
     using namespace Mp4TagAtomIds;
     string context("parsing MP4 tag field");
-- 
2.43.0


From 61b4764494537c6d7e041f23075f798cbc389647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:20 +0000
Subject: [PATCH 35/50] fix: reset flag for unconcluded segment when parsing an
 Ogg page header

---
 ogg/oggpage.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ogg/oggpage.cpp b/ogg/oggpage.cpp
index 3cf92b8..f604b3e 100644
--- a/ogg/oggpage.cpp
+++ b/ogg/oggpage.cpp
@@ -47,6 +47,7 @@ void OggPage::parseHeader(istream &stream, std::uint64_t startOffset, std::int32
     m_checksum = reader.readUInt32LE();
     m_segmentCount = reader.readByte();
     m_segmentSizes.clear();
+    m_lastSegmentUnconcluded = false;
     if (m_segmentCount > 0) {
         if (maxSize < m_segmentCount) {
             throw TruncatedDataException();
-- 
2.43.0


From adea5d0b68342d00f12bfde56cacf2f3fd9156cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:25 +0000
Subject: [PATCH 36/50] fix: do not accumulate ID3v2 offsets and padding when
 parsing is attempted again

---
 mediafileinfo.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 915b451..739e9a3 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -155,6 +155,7 @@ void MediaFileInfo::parseContainerFormat(Diagnostics &diag, AbortableProgressFee
     m_containerOffset = 0;
     std::size_t bytesSkippedBeforeContainer = 0;
     std::streamoff id3v2Size = 0;
+    m_actualId3v2TagOffsets.clear();
 
     // read signatrue
     char buff[16];
@@ -454,12 +455,13 @@ void MediaFileInfo::parseTags(Diagnostics &diag, AbortableProgressFeedback &prog
 
     // check for ID3v2 tags: the offsets of the ID3v2 tags have already been parsed when parsing the container format
     m_id3v2Tags.clear();
+    auto id3v2PaddingSize = std::uint64_t();
     for (const auto offset : m_actualId3v2TagOffsets) {
         auto id3v2Tag = make_unique<Id3v2Tag>();
         stream().seekg(offset, ios_base::beg);
         try {
             id3v2Tag->parse(stream(), size() - static_cast<std::uint64_t>(offset), diag);
-            m_paddingSize += id3v2Tag->paddingSize();
+            id3v2PaddingSize += id3v2Tag->paddingSize();
         } catch (const NoDataFoundException &) {
             continue;
         } catch (const OperationAbortedException &) {
@@ -482,6 +484,9 @@ void MediaFileInfo::parseTags(Diagnostics &diag, AbortableProgressFeedback &prog
             if (m_tagsParsingStatus == ParsingStatus::NotParsedYet) {
                 m_tagsParsingStatus = m_tracksParsingStatus;
             }
+            if (m_tagsParsingStatus != ParsingStatus::NotParsedYet) {
+                m_paddingSize += id3v2PaddingSize;
+            }
             return;
         } else if (m_container) {
             m_container->parseTags(diag, progress);
@@ -507,6 +512,9 @@ void MediaFileInfo::parseTags(Diagnostics &diag, AbortableProgressFeedback &prog
         m_tagsParsingStatus = ParsingStatus::CriticalFailure;
         diag.emplace_back(DiagLevel::Critical, "Unable to parse tag.", context);
     }
+
+    // take padding into account only once, also if parsing is attempted again after it has been aborted
+    m_paddingSize += id3v2PaddingSize;
 }
 
 /*!
-- 
2.43.0


From 760c4861f960e9c6c10c8a92c6855eba167b9ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:41 +0000
Subject: [PATCH 37/50] fix: initialize flags and description encoding of
 TagValue made from C-string

---
 tagvalue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 4a9b14e..0506952 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -190,6 +190,8 @@ TagValue::TagValue(const char *text, std::size_t textSize, TagTextEncoding textE
  * \remarks Strips the BOM of the specified \a text.
  */
 TagValue::TagValue(const char *text, TagTextEncoding textEncoding, TagTextEncoding convertTo)
+    : m_descEncoding(TagTextEncoding::Latin1)
+    , m_flags(TagValueFlags::None)
 {
     assignText(text, std::strlen(text), textEncoding, convertTo);
 }
-- 
2.43.0


From 6c1e3bc38ec507b711ca426601bbce4d0b883203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:50 +0000
Subject: [PATCH 38/50] fix: initialize chunk size of tracks

---
 abstracttrack.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abstracttrack.cpp b/abstracttrack.cpp
index 800877c..e2af24a 100644
--- a/abstracttrack.cpp
+++ b/abstracttrack.cpp
@@ -52,6 +52,7 @@ AbstractTrack::AbstractTrack(istream &inputStream, ostream &outputStream, std::u
     , m_channelCount(0)
     , m_channelConfig(0)
     , m_extensionChannelConfig(0)
+    , m_chunkSize(0)
     , m_sampleCount(0)
     , m_quality(0)
     , m_depth(0)
-- 
2.43.0


From 01dac345d457b56b63fcb84a4549d357c333d361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:39 +0000
Subject: [PATCH 39/50] fix: do not parse an ID3v2 frame over and over again if
 its total size is zero

The total size of a frame is computed from the denoted size which might
overflow. When parsing such a frame failed the same frame was parsed again
endlessly.
---
 id3/id3v2tag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 055b5d7..9a3cadc 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -630,7 +630,7 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
         }
 
         // calculate next frame offset
-        if (frame.totalSize() <= bytesRemaining) {
+        if (frame.totalSize() && frame.totalSize() <= bytesRemaining) {
             pos += frame.totalSize();
             bytesRemaining -= frame.totalSize();
         } else {
-- 
2.43.0


From 2dc87790a0d92b1a7bdc02b34990127ca63025ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:39 +0000
Subject: [PATCH 40/50] fix: treat ID3v2 frames as truncated if computing their
 total size overflows

Otherwise the check for truncation passes and up to 4 GiB are allocated for the
denoted data.
---
 id3/id3v2frame.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 30ed7a4..d1b2dce 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -199,7 +199,7 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
         // -> read size, check whether frame is truncated
         m_dataSize = version >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
         m_totalSize = m_dataSize + 10;
-        if (m_totalSize > maximalSize) {
+        if (m_totalSize > maximalSize || m_totalSize < m_dataSize) {
             diag.emplace_back(DiagLevel::Warning, "The frame is truncated and will be ignored.", context);
             throw TruncatedDataException();
         }
-- 
2.43.0


From 71ed2e656c5b23faed1748e2f203c7c516d6317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:39 +0000
Subject: [PATCH 41/50] fix: do not try writing the same cover to a FLAC stream
 over and over again

If computing the required size of the picture block failed the iterator was not
advanced and hence the same cover was tried again endlessly.
---
 flac/flacstream.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 3454866..8726789 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -262,13 +262,15 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
     const auto coverFields = m_vorbisComment->fields().equal_range(coverId);
     for (auto i = coverFields.first; i != coverFields.second;) {
         const auto lastCoverStartOffset = outputStream.tellp();
+        auto &coverField = i->second;
+        ++i; // continue with the next cover in any case, also if the current one can not be written
 
         try {
             // write the structure
-            FlacMetaDataBlockPicture pictureBlock(i->second.value());
-            pictureBlock.setPictureType(i->second.typeInfo());
+            FlacMetaDataBlockPicture pictureBlock(coverField.value());
+            pictureBlock.setPictureType(coverField.typeInfo());
             header.setDataSize(pictureBlock.requiredSize());
-            header.setLast(++i == coverFields.second);
+            header.setLast(i == coverFields.second);
             header.makeHeader(outputStream);
             pictureBlock.make(outputStream);
 
-- 
2.43.0


From 159fbcadae1f85bda2e75c97373aff5cef89b85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:46 +0000
Subject: [PATCH 42/50] fix: compare sampling frequency index against number of
 table entries

sizeof() of the table is its size in bytes so the indexes 13 and 14 (which are
reserved) lead to reading past its end.
---
 aac/aacframe.cpp           | 6 +++---
 adts/adtsstream.cpp        | 2 +-
 matroska/matroskatrack.cpp | 4 ++--
 mp4/mp4track.cpp           | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/aac/aacframe.cpp b/aac/aacframe.cpp
index 62120b0..6913225 100644
--- a/aac/aacframe.cpp
+++ b/aac/aacframe.cpp
@@ -1297,12 +1297,12 @@ void AacFrameElementParser::parseSbrChannelPairElement(std::shared_ptr<AacSbrInf
 
 shared_ptr<AacSbrInfo> AacFrameElementParser::makeSbrInfo(std::uint8_t sbrElement, bool isDrm)
 {
-    if (m_mpeg4ExtensionSamplingFrequencyIndex >= sizeof(mpeg4SamplingFrequencyTable)
-        && m_mpeg4SamplingFrequencyIndex >= sizeof(mpeg4SamplingFrequencyTable)) {
+    if (m_mpeg4ExtensionSamplingFrequencyIndex >= sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable)
+        && m_mpeg4SamplingFrequencyIndex >= sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable)) {
         throw InvalidDataException(); // sampling frequency index is invalid
     }
     return make_shared<AacSbrInfo>(m_elementId[sbrElement],
-        m_mpeg4ExtensionSamplingFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)
+        m_mpeg4ExtensionSamplingFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable)
             ? mpeg4SamplingFrequencyTable[m_mpeg4ExtensionSamplingFrequencyIndex]
             : mpeg4SamplingFrequencyTable[m_mpeg4SamplingFrequencyIndex] * 2,
         m_frameLength, isDrm);
diff --git a/adts/adtsstream.cpp b/adts/adtsstream.cpp
index 405fbda..c9c6466 100644
--- a/adts/adtsstream.cpp
+++ b/adts/adtsstream.cpp
@@ -30,7 +30,7 @@ void AdtsStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
     m_format = Mpeg4AudioObjectIds::idToMediaFormat(m_firstFrame.mpeg4AudioObjectId());
     m_channelCount = Mpeg4ChannelConfigs::channelCount(m_channelConfig = m_firstFrame.mpeg4ChannelConfig());
     std::uint8_t sampleRateIndex = m_firstFrame.mpeg4SamplingFrequencyIndex();
-    m_samplingFrequency = sampleRateIndex < sizeof(mpeg4SamplingFrequencyTable) ? mpeg4SamplingFrequencyTable[sampleRateIndex] : 0;
+    m_samplingFrequency = sampleRateIndex < sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable) ? mpeg4SamplingFrequencyTable[sampleRateIndex] : 0;
 }
 
 } // namespace TagParser
diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 74beeb4..30571df 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -491,14 +491,14 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                 audioSpecificConfig->audioObjectType, audioSpecificConfig->sbrPresent, audioSpecificConfig->psPresent);
             if (audioSpecificConfig->sampleFrequencyIndex == 0xF) {
                 //m_samplingFrequency = audioSpecificConfig->sampleFrequency;
-            } else if (audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+            } else if (audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable)) {
                 //m_samplingFrequency = mpeg4SamplingFrequencyTable[audioSpecificConfig->sampleFrequencyIndex];
             } else {
                 diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid sample frequency index.", context);
             }
             if (audioSpecificConfig->extensionSampleFrequencyIndex == 0xF) {
                 //m_extensionSamplingFrequency = audioSpecificConfig->extensionSampleFrequency;
-            } else if (audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+            } else if (audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable)) {
                 //m_extensionSamplingFrequency = mpeg4SamplingFrequencyTable[audioSpecificConfig->extensionSampleFrequencyIndex];
             } else {
                 diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid extension sample frequency index.", context);
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 8310c84..a82e1f0 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1893,14 +1893,14 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                                     m_esInfo->audioSpecificConfig->sbrPresent, m_esInfo->audioSpecificConfig->psPresent);
                                 if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex == 0xF) {
                                     m_samplingFrequency = m_esInfo->audioSpecificConfig->sampleFrequency;
-                                } else if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+                                } else if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable)) {
                                     m_samplingFrequency = mpeg4SamplingFrequencyTable[m_esInfo->audioSpecificConfig->sampleFrequencyIndex];
                                 } else {
                                     diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid sample frequency index.", context);
                                 }
                                 if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex == 0xF) {
                                     m_extensionSamplingFrequency = m_esInfo->audioSpecificConfig->extensionSampleFrequency;
-                                } else if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+                                } else if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable) / sizeof(*mpeg4SamplingFrequencyTable)) {
                                     m_extensionSamplingFrequency
                                         = mpeg4SamplingFrequencyTable[m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex];
                                 } else {
-- 
2.43.0


From dd25201597334860257d871b4ba26eda5adf2454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:11 +0000
Subject: [PATCH 43/50] fix: do not read past end of ID3v2 frame when looking
 for string terminator

The character is checked before checking whether the end of the buffer has
been reached. So an unterminated string leads to reading one character past
the end of the frame data (and a wide string with an odd number of bytes to
returning a substring which exceeds the buffer).
---
 id3/id3v2frame.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index d1b2dce..30c98af 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -937,16 +937,18 @@ tuple<const char *, size_t, const char *> Id3v2Frame::parseSubstring(
             get<0>(res) += 3;
         }
         const char *pos = get<0>(res);
-        for (; *pos != 0x00; ++pos) {
-            if (pos < get<2>(res)) {
-                ++get<1>(res);
-            } else {
+        for (;; ++pos) {
+            if (pos >= get<2>(res)) {
                 if (addWarnings) {
                     diag.emplace_back(
                         DiagLevel::Warning, "String in frame is not terminated properly.", "parsing termination of frame " + idToString());
                 }
                 break;
             }
+            if (*pos == 0x00) {
+                break;
+            }
+            ++get<1>(res);
         }
         get<2>(res) = pos + 1;
         break;
@@ -970,16 +972,18 @@ tuple<const char *, size_t, const char *> Id3v2Frame::parseSubstring(
             }
         }
         const std::uint16_t *pos = reinterpret_cast<const std::uint16_t *>(get<0>(res));
-        for (; *pos != 0x0000; ++pos) {
-            if (pos < reinterpret_cast<const std::uint16_t *>(get<2>(res))) {
-                get<1>(res) += 2;
-            } else {
+        for (;; ++pos) {
+            if (static_cast<std::size_t>(get<2>(res) - reinterpret_cast<const char *>(pos)) < sizeof(*pos)) {
                 if (addWarnings) {
                     diag.emplace_back(
                         DiagLevel::Warning, "Wide string in frame is not terminated properly.", "parsing termination of frame " + idToString());
                 }
                 break;
             }
+            if (*pos == 0x0000) {
+                break;
+            }
+            get<1>(res) += 2;
         }
         get<2>(res) = reinterpret_cast<const char *>(pos + 1);
         break;
-- 
2.43.0


From df1612a2a5184d12862d7a69de6808a2ae8cf0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:11 +0000
Subject: [PATCH 44/50] fix: do not read past end of too small ID3v2 picture
 frames

The size passed to parseSubstring() wraps around if the frame is empty.
---
 id3/id3v2frame.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 30c98af..6e1746e 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1076,6 +1076,10 @@ void Id3v2Frame::parseLegacyPicture(const char *buffer, std::size_t maxSize, Tag
 void Id3v2Frame::parsePicture(const char *buffer, std::size_t maxSize, TagValue &tagValue, std::uint8_t &typeInfo, Diagnostics &diag)
 {
     static const string context("parsing ID3v2.3 picture frame");
+    if (maxSize < 2) {
+        diag.emplace_back(DiagLevel::Critical, "Picture frame is incomplete.", context);
+        throw TruncatedDataException();
+    }
     const char *end = buffer + maxSize;
     auto dataEncoding = parseTextEncodingByte(static_cast<std::uint8_t>(*buffer), diag); // the first byte stores the encoding
     auto mimeTypeEncoding = TagTextEncoding::Latin1;
-- 
2.43.0


From 91fa14bf6b7dbd6d4455986d3c86212cf59da0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:11 +0000
Subject: [PATCH 45/50] fix: do not read before begin of ID3v1 fields when
 trimming padding

The first character is checked after skipping the padding of an empty field
although it is not part of the field anymore. This also preserves values which
consist only of one character.
---
 id3/id3v1tag.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index d02a968..d5027f8 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -278,12 +278,10 @@ void Id3v1Tag::ensureTextValuesAreProperlyEncoded()
  */
 void Id3v1Tag::readValue(TagValue &value, size_t maxLength, const char *buffer)
 {
-    const char *end = buffer + maxLength - 1;
-    while ((*end == 0x0 || *end == ' ') && end >= buffer) {
-        --end;
+    while (maxLength && (buffer[maxLength - 1] == 0x0 || buffer[maxLength - 1] == ' ')) {
         --maxLength;
     }
-    if (buffer == end) {
+    if (!maxLength) {
         return;
     }
     if (maxLength >= 3 && BE::toUInt24(buffer) == 0x00EFBBBF) {
-- 
2.43.0


From 4418b982492fdf7ae7c1eecf64d7f3b044012e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:17 +0000
Subject: [PATCH 46/50] fix: do not read past end of bitrate table for invalid
 MPEG audio frames

The bitrate index is a 4-bit number but there were only 15 entries.
---
 mpegaudio/mpegaudioframe.cpp | 2 +-
 mpegaudio/mpegaudioframe.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpegaudio/mpegaudioframe.cpp b/mpegaudio/mpegaudioframe.cpp
index df8a99d..33dcd46 100644
--- a/mpegaudio/mpegaudioframe.cpp
+++ b/mpegaudio/mpegaudioframe.cpp
@@ -35,7 +35,7 @@ std::string_view mpegChannelModeString(MpegChannelMode channelMode)
  * \brief The MpegAudioFrame class is used to parse MPEG audio frames.
  */
 
-const std::uint16_t MpegAudioFrame::s_bitrateTable[0x2][0x3][0xF] = { { { 0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448 },
+const std::uint16_t MpegAudioFrame::s_bitrateTable[0x2][0x3][0x10] = { { { 0, 32, 64, 96, 128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448 },
                                                                           { 0, 32, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320, 384 },
                                                                           { 0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320 } },
     { { 0, 32, 48, 56, 64, 80, 96, 112, 128, 144, 160, 176, 192, 224, 256 }, { 0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160 },
diff --git a/mpegaudio/mpegaudioframe.h b/mpegaudio/mpegaudioframe.h
index 7f95a0d..34ff7f8 100644
--- a/mpegaudio/mpegaudioframe.h
+++ b/mpegaudio/mpegaudioframe.h
@@ -65,7 +65,7 @@ public:
 private:
     static constexpr std::uint64_t s_xingHeaderOffset = 0x24;
     static constexpr std::uint32_t s_sync = 0xFFE00000u;
-    static const std::uint16_t s_bitrateTable[0x2][0x3][0xF];
+    static const std::uint16_t s_bitrateTable[0x2][0x3][0x10];
     std::uint32_t m_header;
     std::uint64_t m_xingHeader;
     XingHeaderFlags m_xingHeaderFlags;
-- 
2.43.0


From 1f8078d597c881250c3307767d4d7ea896f9ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:17 +0000
Subject: [PATCH 47/50] fix: do not read past end of an empty tkhd atom

When there's only the header of the atom the byte after the buffer is used as
version.
---
 mp4/mp4track.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index a82e1f0..cb844ce 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -440,7 +440,7 @@ const TrackHeaderInfo &Mp4Track::verifyPresentTrackHeader() const
     }
 
     // check the version of the existing tkhd atom to determine where additional data starts
-    switch (info.version = static_cast<std::uint8_t>(m_tkhdAtom->buffer()[m_tkhdAtom->headerSize()])) {
+    switch (info.version = m_tkhdAtom->dataSize() ? static_cast<std::uint8_t>(m_tkhdAtom->buffer()[m_tkhdAtom->headerSize()]) : 0) {
     case 0:
         info.additionalDataOffset = 32;
         break;
-- 
2.43.0


From fa6e5f6bc6179fbab3cdbff1a1e880ffde995b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:26 +0000
Subject: [PATCH 48/50] fix: convert whole string in TagValue::toWString()
 instead of using size of output

---
 tagvalue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 0506952..ffb8db9 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -1195,8 +1195,8 @@ void TagValue::toWString(std::u16string &result, TagTextEncoding encoding) const
         throw ConversionException(argsToString("Can not convert ", tagDataTypeString(m_type), " to string."));
     }
     if (encoding == TagTextEncoding::Utf16LittleEndian || encoding == TagTextEncoding::Utf16BigEndian) {
-        auto encodedData = encoding == TagTextEncoding::Utf16LittleEndian ? convertUtf8ToUtf16LE(regularStrRes.data(), result.size())
-                                                                          : convertUtf8ToUtf16BE(regularStrRes.data(), result.size());
+        auto encodedData = encoding == TagTextEncoding::Utf16LittleEndian ? convertUtf8ToUtf16LE(regularStrRes.data(), regularStrRes.size())
+                                                                          : convertUtf8ToUtf16BE(regularStrRes.data(), regularStrRes.size());
         result.assign(reinterpret_cast<const char16_t *>(encodedData.first.get()), encodedData.second / sizeof(const char16_t));
     }
 }
-- 
2.43.0


From 68727c7aab19bed48de68f238fe6ae3baf66d835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:12 +0000
Subject: [PATCH 49/50] fix: do not use invalidated reference to page after
 re-syncing Ogg pages

---
 ogg/oggcontainer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 3945bfa..ce8e25d 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -239,6 +239,7 @@ void OggContainer::internalParseHeader(Diagnostics &diag, AbortableProgressFeedb
             // skip pages in the middle of a big file (still more than 100 MiB to parse) if no new track has been seen since the last 20 MiB
             if (!fileInfo().isForcingFullParse() && (fileInfo().size() - page.startOffset()) > (100 * 0x100000)
                 && (page.startOffset() - lastNewStreamOffset) > (20 * 0x100000)) {
+                const auto pageStartOffset = page.startOffset(); // resyncAt() adds a page and thus invalidates the reference
                 if (m_iterator.resyncAt(fileInfo().size() - (20 * 0x100000))) {
                     const OggPage &resyncedPage = m_iterator.currentPage();
                     // prevent warning about missing pages by resetting the sequence number of all streams and invalidate the stream size
@@ -248,7 +249,7 @@ void OggContainer::internalParseHeader(Diagnostics &diag, AbortableProgressFeedb
                     }
                     pagesSkipped = continueFromHere = true;
                     diag.emplace_back(DiagLevel::Information,
-                        argsToString("Pages in the middle of the file (", dataSizeToString(resyncedPage.startOffset() - page.startOffset()),
+                        argsToString("Pages in the middle of the file (", dataSizeToString(resyncedPage.startOffset() - pageStartOffset),
                             ") have been skipped to improve parsing speed. Hence track sizes can not be computed. Maybe not even all tracks could be "
                             "detected. Force a full parse to prevent this."),
                         context);
-- 
2.43.0


From 13f969b1a93969077a51f934325ae107a020c298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:12 +0000
Subject: [PATCH 50/50] fix: do not use invalidated iterators when removing
 track

---
 genericcontainer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/genericcontainer.h b/genericcontainer.h
index 07cace4..bf99579 100644
--- a/genericcontainer.h
+++ b/genericcontainer.h
@@ -339,13 +339,13 @@ bool GenericContainer<FileInfoType, TagType, TrackType, ElementType>::removeTrac
         return false;
     }
     auto removed = false;
-    for (auto i = m_tracks.end() - 1, begin = m_tracks.begin();; --i) {
+    for (auto i = m_tracks.end() - 1;; --i) {
         if (static_cast<AbstractTrack *>(i->get()) == track) {
             i->release();
-            m_tracks.erase(i);
+            i = m_tracks.erase(i);
             removed = true;
         }
-        if (i == begin) {
+        if (i == m_tracks.begin()) {
             break;
         }
     }
-- 
2.43.0

