From 260e36769e8dd33681a9ac32298a6a9ab013d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:50 +0000
Subject: [PATCH 01/30] verif hook: let NANOLOG_VERIF_BUFFERS builds choose the
 buffer sizes

---
 runtime/Config.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtime/Config.h b/runtime/Config.h
index 3ee6d87..aaed54d 100644
--- a/runtime/Config.h
+++ b/runtime/Config.h
@@ -33,12 +33,22 @@ namespace NanoLogConfig {
     // Determines the byte size of the per-thread StagingBuffer that decouples
     // the producer logging thread from the consumer background compression
     // thread. This value should be large enough to handle bursts of activity.
+#ifdef NANOLOG_VERIF_BUFFERS
+    // Verification builds choose small buffers so that wrap-around and
+    // buffer-full paths are reached quickly (see NANOLOG_VERIF_OUTPUT_SIZE).
+    static const uint32_t STAGING_BUFFER_SIZE = NANOLOG_VERIF_STAGING_SIZE;
+#else
     static const uint32_t STAGING_BUFFER_SIZE = 1<<20;
+#endif
 
     // Determines the size of the output buffer used to store compressed log
     // messages. It should be at least 8MB large to amortize disk seeks and
     // shall not be smaller than STAGING_BUFFER_SIZE.
+#ifdef NANOLOG_VERIF_BUFFERS
+    static const uint32_t OUTPUT_BUFFER_SIZE = NANOLOG_VERIF_OUTPUT_SIZE;
+#else
     static const uint32_t OUTPUT_BUFFER_SIZE = 1<<26;
+#endif
 
     // This invariant must be true so that we can output at least one full
     // StagingBuffer per output buffer.
-- 
2.43.0


From f623271050d7a8d1a239db9c227ae4439f6c27be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:22 +0000
Subject: [PATCH 02/30] fix: sync() returned on a spurious condition-variable
 wakeup

sync() waited on hintSyncCompleted without a predicate, so a spurious
wakeup (or a notification meant for an earlier, concurrent sync()) made it
return before the messages were written.
---
 runtime/RuntimeLogger.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 56b7c0f..796abbf 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -725,7 +725,8 @@ RuntimeLogger::sync() {
     std::unique_lock<std::mutex> lock(nanoLogSingleton.condMutex);
     nanoLogSingleton.syncStatus = SYNC_REQUESTED;
     nanoLogSingleton.workAdded.notify_all();
-    nanoLogSingleton.hintSyncCompleted.wait(lock);
+    while (nanoLogSingleton.syncStatus != SYNC_COMPLETED)
+        nanoLogSingleton.hintSyncCompleted.wait(lock);
 }
 
 /**
-- 
2.43.0


From 20c610c220aa4b110d891277a2c0bf2d2b7d50b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:22 +0000
Subject: [PATCH 03/30] fix: deleting the first StagingBuffer of a scan pass
 cut the pass short

When the buffer a pass started from was deleted, the pass ended before the
remaining buffers were checked (all of them if it was at index 0). A sync()
or shutdown relying on that pass then missed other threads' messages.
---
 runtime/RuntimeLogger.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 796abbf..ae82f98 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -485,10 +485,18 @@ RuntimeLogger::compressionThreadMain() {
                         }
 
                         // Back up the indexes so that we ensure we wont skip
-                        // a buffer in our pass (and it's okay to redo one)
-                        if (lastStagingBufferChecked >= i &&
-                            lastStagingBufferChecked > 0) {
+                        // a buffer in our pass
+                        if (lastStagingBufferChecked > i) {
                             --lastStagingBufferChecked;
+                        } else if (lastStagingBufferChecked == i) {
+                            // The pass started at the deleted buffer, so it
+                            // has to cover all the remaining ones.
+                            if (i == threadBuffers.size()) {
+                                i = 0;
+                                wrapAround = true;
+                            }
+                            lastStagingBufferChecked = i;
+                            continue;
                         }
                         --i;
                     }
-- 
2.43.0


From 617e1c08b2ce7917fd4ca6e1d53265574c7d11b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:10 +0000
Subject: [PATCH 04/30] fix: a signal during aio_suspend() made the logger
 reuse a buffer being written

aio_suspend() fails with EINTR when a signal handler runs in the background
thread. The write was then treated as finished, so its control block and
buffer were reused while the write was still in flight.
---
 runtime/RuntimeLogger.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index ae82f98..1625a6f 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -321,7 +321,10 @@ RuntimeLogger::waitForAIO() {
     if (hasOutstandingOperation) {
         if (aio_error(&aioCb) == EINPROGRESS) {
             const struct aiocb *const aiocb_list[] = {&aioCb};
-            int err = aio_suspend(aiocb_list, 1, NULL);
+            int err;
+            do {
+                err = aio_suspend(aiocb_list, 1, NULL);
+            } while (err != 0 && errno == EINTR);
 
             if (err != 0)
                 perror("LogCompressor's Posix AIO suspend operation failed");
@@ -549,7 +552,10 @@ RuntimeLogger::compressionThreadMain() {
                     // If the output buffer is full and we're not done,
                     // wait for completion
                     cyclesActive += PerfUtils::Cycles::rdtsc() - cyclesAwakeStart;
-                    int err = aio_suspend(aiocb_list, 1, NULL);
+                    int err;
+                    do {
+                        err = aio_suspend(aiocb_list, 1, NULL);
+                    } while (err != 0 && errno == EINTR);
                     cyclesAwakeStart = PerfUtils::Cycles::rdtsc();
                     if (err != 0)
                         perror("LogCompressor's Posix AIO "
-- 
2.43.0


From 0af4439b9f95f7e612f0d1fc3d0849359a8e4ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:44 +0000
Subject: [PATCH 05/30] fix: Decoder: discard the old dictionary before reading
 the new one

readDictionary() read the new dictionary behind the old one and then reset
the position to the start of the storage, so the old bytes were parsed
instead of the new ones. Logs to which a second preprocessor-built
execution was appended were decoded with the first execution's dictionary
or rejected, and so was the second file opened with the same Decoder.
---
 runtime/Log.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index d941041..43b8944 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -651,6 +651,14 @@ Log::Decoder::readDictionary(FILE *fd, bool flushOldDictionary) {
         return false;
     }
 
+    // The flush has to come first, since it determines where the new
+    // dictionary is stored.
+    if (flushOldDictionary) {
+        endOfRawMetadata = rawMetadata;
+        fmtId2metadata.clear();
+        fmtId2fmtString.clear();
+    }
+
     size_t bytesRead = fread(endOfRawMetadata, 1, checkpoint.newMetadataBytes,
                              fd);
     if (bytesRead != checkpoint.newMetadataBytes) {
@@ -658,12 +666,6 @@ Log::Decoder::readDictionary(FILE *fd, bool flushOldDictionary) {
         return false;
     }
 
-    if (flushOldDictionary) {
-        endOfRawMetadata = rawMetadata;
-        fmtId2metadata.clear();
-        fmtId2fmtString.clear();
-    }
-
     // Build an index of format id to metadata
     const char *start = endOfRawMetadata;
     const char *newEnd = endOfRawMetadata + bytesRead;
-- 
2.43.0


From a5ed9c6aafcba6ab4e1dd694ed0aae42f2443aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:18 +0000
Subject: [PATCH 06/30] fix: Decoder::open(): forget the previous file

An extent that getNextLogStatement() had only partially consumed survived
open(), so that the next file's messages were preceded by stale ones
rendered with the wrong dictionary. Also closes the previous file.
---
 runtime/Log.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 43b8944..d774422 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1086,6 +1086,11 @@ Log::Decoder::readDictionaryFragment(FILE *fd) {
  */
 bool
 Log::Decoder::open(const char *filename) {
+    // Nothing may be left over from a previously opened file
+    if (inputFd)
+        fclose(inputFd);
+    bufferFragment->reset();
+
     inputFd = fopen(filename, "rb");
     good = false;
 
-- 
2.43.0


From bb4f38039138afa658241fed058cdd1805af34ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:18 +0000
Subject: [PATCH 07/30] fix: decompressTo(): print all buffered logs before a
 new execution

Only the oldest stage was checked, so messages buffered in later stages
were printed after the next execution's dictionary and checkpoint had
replaced the ones they belong to.
---
 runtime/Log.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index d774422..5e8dd34 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1872,11 +1872,14 @@ Log::Decoder::decompressTo(FILE* outputFd)
                     // New logical start to the logs detected, at this point
                     // we should make sure we've printed all the buffered logs
                     // before continuing to parse the next logical start.
-                    if (!stages[0].empty()) {
-                        mustDepleteAllStages = true;
-                        break;
+                    for (auto &stage : stages) {
+                        if (!stage.empty())
+                            mustDepleteAllStages = true;
                     }
 
+                    if (mustDepleteAllStages)
+                        break;
+
                     // We're safe, all the stages are empty
                     good = readDictionary(inputFd, true);
 
-- 
2.43.0


From de9e0c1161c1ec30ab904f441e3ed0314c536b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:18 +0000
Subject: [PATCH 08/30] fix: decompressTo(): do not merge extents that contain
 no messages

They were sorted by the timestamp of whichever message the recycled
BufferFragment last held, so that a stage was considered finished (or
unfinished) at the wrong time.
---
 runtime/Log.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 5e8dd34..dab13fc 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1863,8 +1863,11 @@ Log::Decoder::decompressTo(FILE* outputFd)
                     good = bf->readBufferExtent(inputFd, &newStage);
                     ++numBufferFragmentsRead;
 
-                    if (good)
+                    // Extents without messages only mark new stages
+                    if (good && bf->hasNext())
                         stages[stagesBuffered].push_back(bf);
+                    else
+                        freeBufferFragment(bf);
 
                     break;
                 }
-- 
2.43.0


From 352e9459d15721375b4250a172e561e5018ba531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:09 +0000
Subject: [PATCH 09/30] fix: decompressTo(): attribute extents to the scan pass
 they belong to

The runtime marks the first extent of a scan pass, but decompressTo()
treated the marked extent as the last one of the previous stage, and it
noticed that the oldest stage was empty only after another message had
been printed. Both shorten the window in which messages are sorted, so
that logs the runtime can produce were printed out of order.
---
 runtime/Log.cc | 50 ++++++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index dab13fc..b3bfff6 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1836,9 +1836,11 @@ Log::Decoder::decompressTo(FILE* outputFd)
     // return all the data and at least 2 peek()'s are needed to deplete a
     // buffer.
     static const uint32_t stagesToBuffer = 3;
-    std::vector<BufferFragment*> stages[stagesToBuffer];
 
-    // Running number of stages being kept in stages
+    // The complete stages, followed by the one that's still being read in
+    std::vector<BufferFragment*> stages[stagesToBuffer + 1];
+
+    // Running number of complete stages being kept in stages
     uint32_t stagesBuffered = 0;
 
     // Indicates that all stages must be depleted before continuing
@@ -1863,6 +1865,10 @@ Log::Decoder::decompressTo(FILE* outputFd)
                     good = bf->readBufferExtent(inputFd, &newStage);
                     ++numBufferFragmentsRead;
 
+                    // The marked extent is the first one of the new stage
+                    if (good && newStage)
+                        ++stagesBuffered;
+
                     // Extents without messages only mark new stages
                     if (good && bf->hasNext())
                         stages[stagesBuffered].push_back(bf);
@@ -1908,7 +1914,7 @@ Log::Decoder::decompressTo(FILE* outputFd)
             // If we reach a logical end to the current stage,
             // make the current stage available for consumption
             bool needFlush = (mustDepleteAllStages || !good);
-            if (newStage || (needFlush && !stages[stagesBuffered].empty()))
+            if (needFlush && !stages[stagesBuffered].empty())
                 ++stagesBuffered;
 
             if (stagesBuffered == stagesToBuffer)
@@ -1922,8 +1928,22 @@ Log::Decoder::decompressTo(FILE* outputFd)
         }
 
         // Step 3: Deplete the first stage
-        while (true) {
-            // Step 3a: Find the minimum amongst the stages
+        while (stagesBuffered > 0) {
+            // Step 3a: Check for exit condition
+            if (stages[0].empty()) {
+                for (uint32_t i = 0; i < stagesBuffered; ++i) {
+                    stages[i] = stages[i+1];
+                }
+                stages[stagesBuffered].clear();
+
+                --stagesBuffered;
+                if (!mustDepleteAllStages)
+                    break;
+
+                continue;
+            }
+
+            // Step 3b: Find the minimum amongst the stages
             std::vector<BufferFragment*> *minStage = nullptr;
             for (uint32_t i = 0; i < stagesBuffered; ++i) {
                 if (stages[i].empty())
@@ -1936,13 +1956,7 @@ Log::Decoder::decompressTo(FILE* outputFd)
                 }
             }
 
-            // If nothing was found, we're done
-            if (minStage == nullptr) {
-                stagesBuffered = 0; // All the stages we know about are clear
-                break;
-            }
-
-            // Step 3b: Output the log message
+            // Step 3c: Output the log message
             BufferFragment *bf = minStage->front();
             bf->decompressNextLogStatement(outputFd, logMsgsPrinted,
                                            logArguments, checkpoint,
@@ -1961,18 +1975,6 @@ Log::Decoder::decompressTo(FILE* outputFd)
                 minStage->pop_back();
                 freeBufferFragment(bf);
             }
-
-            // Step 3c: Check for exit condition
-            if (stages[0].empty()) {
-                for (uint32_t i = 0; i < stagesBuffered - 1; ++i) {
-                    stages[i] = stages[i+1];
-                }
-                stages[stagesBuffered - 1].clear();
-
-                --stagesBuffered;
-                if (!mustDepleteAllStages)
-                    break;
-            }
         }
     }
 
-- 
2.43.0


From 29f8e612ebcd39ecfde9e3b2c4124c9672a2f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:09 +0000
Subject: [PATCH 10/30] fix: decompressTo(): keep a thread's messages in order
 when timestamps tie

Messages of one thread that carry the same timestamp but are stored in
different extents of a stage were printed in heap order.
---
 runtime/Log.cc | 9 ++++++++-
 runtime/Log.h  | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index b3bfff6..25ecb36 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1168,6 +1168,7 @@ Log::Decoder::BufferFragment::BufferFragment()
     , hasMoreLogs(false)
     , nextLogId(-1)
     , nextLogTimestamp(0)
+    , position(0)
 {
 }
 
@@ -1793,7 +1794,9 @@ Log::Decoder::internalDecompressUnordered(FILE* outputFd,
 /**
  * Compares two BufferFragments (a, b) based on the timestamps of
  * their next decompress-able log statements. Returns true if
- * a's timestamp chronologically occurs after b's timestamp.
+ * a's timestamp chronologically occurs after b's timestamp. Equal timestamps
+ * are ordered by the BufferFragments' positions in the log file, so that the
+ * log messages of one thread stay in order.
  *
  * \param a
  *      First BufferFragment to compare
@@ -1807,6 +1810,9 @@ bool
 Log::Decoder::compareBufferFragments(const BufferFragment *a,
                                      const BufferFragment *b)
 {
+    if (a->getNextLogTimestamp() == b->getNextLogTimestamp())
+        return a->position > b->position;
+
     return a->getNextLogTimestamp() > b->getNextLogTimestamp();
 };
 
@@ -1863,6 +1869,7 @@ Log::Decoder::decompressTo(FILE* outputFd)
                 {
                     BufferFragment *bf = allocateBufferFragment();
                     good = bf->readBufferExtent(inputFd, &newStage);
+                    bf->position = numBufferFragmentsRead;
                     ++numBufferFragmentsRead;
 
                     // The marked extent is the first one of the new stage
diff --git a/runtime/Log.h b/runtime/Log.h
index abf2873..b6eab2a 100644
--- a/runtime/Log.h
+++ b/runtime/Log.h
@@ -908,6 +908,10 @@ namespace Log {
             uint32_t nextLogId;
             uint64_t nextLogTimestamp;
 
+            // For sorting, the position of the extent relative to the others
+            // in the log file.
+            uint64_t position;
+
             BufferFragment();
             void reset();
             bool hasNext();
-- 
2.43.0


From 8aa44535d1d1cd2ac0375e8d6c108bbe2747f613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:48 +0000
Subject: [PATCH 11/30] fix: carry into the seconds when the nanoseconds of a
 timestamp round up to a full second

---
 runtime/Log.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 25ecb36..8a5b900 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -14,6 +14,7 @@
  */
 
 #include <algorithm>
+#include <cmath>
 
 #include <bits/algorithmfwd.h>
 #include <regex>
@@ -1369,6 +1370,13 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
             nanos += 1.0e9;
         }
 
+        // Rounding to whole nanoseconds may complete the second.
+        nanos = std::rint(nanos);
+        if (nanos >= 1.0e9) {
+            wholeSeconds++;
+            nanos -= 1.0e9;
+        }
+
         std::time_t absTime = wholeSeconds + checkpoint.unixTime;
         std::tm *tm = localtime(&absTime);
         strftime(timeString, sizeof(timeString), "%Y-%m-%d %H:%M:%S", tm);
-- 
2.43.0


From 1546c7a89732388ce3ec6255cedccad7fb634b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:26 +0000
Subject: [PATCH 12/30] fix: do not skip the character after a backslash when
 parsing a format string

The dictionary holds the format as the program sees it, not as source text: a backslash is an ordinary character, and a conversion following it was not recognised.
---
 runtime/Log.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 8a5b900..30e8717 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -869,12 +869,6 @@ Log::Decoder::createMicroCode(char **microCode,
     while (i < formatStringLength) {
         char c = formatString[i];
 
-        // Skip the next character if there's an escape
-        if (c == '\\') {
-            i += 2;
-            continue;
-        }
-
         if (c != '%') {
             ++i;
             consecutivePercents = 0;
-- 
2.43.0


From 62e314f4b58681f07935358544b2fcf1531ccf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:29 +0000
Subject: [PATCH 13/30] fix: accept a period without digits as a precision of
 zero

"%.f" and "%.s" are valid conversions; the decompressor did not recognise them and the preprocessor refused them.
---
 preprocessor/FunctionGenerator.py | 5 ++++-
 runtime/Log.cc                    | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 45e8892..2c5a8df 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -763,7 +763,7 @@ def splitAndParseTypesInFmtString(fmtString):
                 match = re.match("^%"
                                  "(?P<flags>[-+ #0]+)?"
                                  "(?P<width>[\\d]+|\\*)?"
-                                 "(\\.(?P<precision>\\d+|\\*))?"
+                                 "(?P<dot>\\.(?P<precision>\\d+|\\*)?)?"
                                  "(?P<length>hh|h|l|ll|j|z|Z|t|L)?"
                                  "(?P<specifier>[diuoxXfFeEgGaAcspn])",
                                  fmtString[charIndex:])
@@ -796,6 +796,9 @@ def splitAndParseTypesInFmtString(fmtString):
         length = fmt.group('length')
         specifier = fmt.group('specifier')
         precision = fmt.group("precision")
+        if fmt.group("dot") and not precision:
+            # A period without a number means a precision of zero
+            precision = "0"
         if precision and precision != '*':
             precision = int(float(precision))
         width = fmt.group('width')
diff --git a/runtime/Log.cc b/runtime/Log.cc
index 30e8717..632d5d8 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -850,7 +850,7 @@ Log::Decoder::createMicroCode(char **microCode,
     std::regex regex("^%"
                      "([-+ #0]+)?" // Flags (Position 1)
                      "([\\d]+|\\*)?" // Width (Position 2)
-                     "(\\.(\\d+|\\*))?"// Precision (Position 4; 3 includes '.')
+                     "(\\.(\\d+|\\*)?)?"// Precision (Position 4; 3 includes '.')
                      "(hh|h|l|ll|j|z|Z|t|L)?" // Length (Position 5)
                      "([diuoxXfFeEgGaAcspn])"// Specifier (Position 6)
                      );
-- 
2.43.0


From 4cf82a413f614fe16af99a789c050b5d405ab3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:04 +0000
Subject: [PATCH 14/30] fix: honour negative dynamic widths and precisions

The decoder used -1 as a marker for 'no dynamic width/precision', so
that a negative value passed for a '*' was dropped from the fprintf()
call and the following arguments were misread.
---
 runtime/Log.cc | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/runtime/Log.cc b/runtime/Log.cc
index 632d5d8..1e5d4e9 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1252,9 +1252,9 @@ Log::Decoder::BufferFragment::readBufferExtent(FILE *fd, bool *wrapAround) {
  * \param arg
  *      Argument to pass in with the format string
  * \param width
- *      Width parameter of a printf-specifier, a value of -1 specifies none
+ *      Width parameter of a printf-specifier, nullptr specifies none
  * \param precision
- *      precision parameter of a printf-specifier, a value of -1 specifies none
+ *      precision parameter of a printf-specifier, nullptr specifies none
  */
 template<typename T>
 static inline void
@@ -1262,8 +1262,8 @@ printSingleArg(FILE *outputFd,
                NanoLogInternal::Log::LogMessage &logArguments,
                const char* formatString,
                T arg,
-               int width = -1,
-               int precision = -1)
+               const int *width = nullptr,
+               const int *precision = nullptr)
 {
     logArguments.push(arg);
 
@@ -1274,14 +1274,14 @@ printSingleArg(FILE *outputFd,
 #pragma GCC diagnostic ignored "-Wformat-security"
 #pragma GCC diagnostic ignored "-Wformat-nonliteral"
 
-    if (width < 0 && precision < 0) {
+    if (!width && !precision) {
         fprintf(outputFd, formatString, arg);
-    } else if (width >= 0 && precision < 0)
-        fprintf(outputFd, formatString, width, arg);
-    else if (width >= 0 && precision >= 0)
-        fprintf(outputFd, formatString, width, precision, arg);
+    } else if (width && !precision)
+        fprintf(outputFd, formatString, *width, arg);
+    else if (width && precision)
+        fprintf(outputFd, formatString, *width, *precision, arg);
     else
-        fprintf(outputFd, formatString, precision, arg);
+        fprintf(outputFd, formatString, *precision, arg);
 
 #pragma GCC diagnostic pop
 }
@@ -1446,13 +1446,21 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
         for (int i = 0; i < metadata->numPrintFragments; ++i) {
             const wchar_t *wstrArg;
 
-            int width = -1;
-            if (pf->hasDynamicWidth)
-                width = nb.getNext<int>();
+            // The values themselves may be negative (a negative width means
+            // left-justify, a negative precision is as if it were omitted).
+            int widthValue = 0;
+            const int *width = nullptr;
+            if (pf->hasDynamicWidth) {
+                widthValue = nb.getNext<int>();
+                width = &widthValue;
+            }
 
-            int precision = -1;
-            if (pf->hasDynamicPrecision)
-                precision = nb.getNext<int>();
+            int precisionValue = 0;
+            const int *precision = nullptr;
+            if (pf->hasDynamicPrecision) {
+                precisionValue = nb.getNext<int>();
+                precision = &precisionValue;
+            }
 
             switch(pf->argType) {
                 case NONE:
-- 
2.43.0


From 1f228a1bea03c95e83dc1fcf91a3da6b13e382f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:01 +0000
Subject: [PATCH 15/30] fix: copy wide strings to aligned memory before
 printing them

A wide string in a log file can be at any position (e.g. after a narrow
string of odd length), but wcslen() and printf() require aligned
pointers; the decompressor aborted in wcsrtombs() or crashed.
---
 preprocessor/FunctionGenerator.py | 17 ++++++++++---
 runtime/Log.cc                    | 41 ++++++-------------------------
 runtime/Log.h                     |  8 ++++++
 runtime/Packer.h                  | 28 +++++++++++++++++++++
 4 files changed, 57 insertions(+), 37 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 2c5a8df..6eafd3e 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -38,6 +38,7 @@ FINISH_ALLOC_FN = "NanoLogInternal::RuntimeLogger::finishAlloc"
 
 PACK_FN = "BufferUtils::pack"
 UNPACK_FN = "BufferUtils::unpack"
+UNPACK_WIDE_STRING_FN = "BufferUtils::unpackWideString"
 
 GENERATED_CODE_NAMESPACE = "GeneratedFunctions"
 
@@ -581,12 +582,22 @@ inline ssize_t
         for idx in stringArgsIdx:
             type = argList[idx]
 
-            strlenFn = "strlen" if not isWideString(type) else "wcslen"
+            # The argument may be at any position in the input, but wide
+            # strings have to be aligned.
+            if isWideString(type):
+                readbackStringCode += \
+            """
+                const std::wstring wstr{idx} = {unpackWideStringFn}(in);
+                {type} arg{idx} = wstr{idx}.c_str();
+            """.format(idx=idx, type=type,
+                       unpackWideStringFn=UNPACK_WIDE_STRING_FN)
+                continue
+
             readbackStringCode += \
             """
                 {type} arg{idx} = reinterpret_cast<{type}>(*in);
-                (*in) += ({strlenFn}(arg{idx}) + 1)*sizeof(*arg{idx}); // +1 for null terminator
-            """.format(idx=idx, type=type, strlenFn=strlenFn)
+                (*in) += (strlen(arg{idx}) + 1)*sizeof(*arg{idx}); // +1 for null terminator
+            """.format(idx=idx, type=type)
 
 
         decompressFnName = "decompressPrintArgs" + logId
diff --git a/runtime/Log.cc b/runtime/Log.cc
index 1e5d4e9..e64424d 100644
--- a/runtime/Log.cc
+++ b/runtime/Log.cc
@@ -1164,6 +1164,7 @@ Log::Decoder::BufferFragment::BufferFragment()
     , nextLogId(-1)
     , nextLogTimestamp(0)
     , position(0)
+    , wideStrings()
 {
 }
 
@@ -1420,6 +1421,7 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
         const char *logLevel = logLevelNames[metadata->logLevel];
 
         logArgs.reset(metadata, nextLogId, nextLogTimestamp);
+        wideStrings.clear();
 
         // Output the context
         if (outputFd) {
@@ -1444,8 +1446,6 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
         // TODO(syang0) We can probably skip processing the log message at
         // if we (a) aren't printing and (b) aren't aggregating
         for (int i = 0; i < metadata->numPrintFragments; ++i) {
-            const wchar_t *wstrArg;
-
             // The values themselves may be negative (a negative width means
             // left-justify, a negative precision is as if it were omitted).
             int widthValue = 0;
@@ -1629,42 +1629,15 @@ Log::Decoder::BufferFragment::decompressNextLogStatement(FILE *outputFd,
                     break;
 
                 case const_wchar_t_ptr_t:
-
-                    /**
-                     * I've occasionally encountered the following assertion:
-                     * __wcsrtombs: Assertion `data.__outbuf[-1] == '\0'' failed
-                     *
-                     * I don't know why this occurs, but it appears to be caused
-                     * by a wcslen() call deep inside printf returning the wrong
-                     * value when called on the dynamic buffer. I've found
-                     * that copying the data into a stack buffer first fixes
-                     * the problem (not implemented here).
-                     *
-                     * I don't know why this is the case and I'm inclined to
-                     * believe it's a problem with the library because I've...
-                     *  (1) verified byte by byte that the copied wchar_t
-                     *      strings and the surrounding bytes are exactly the
-                     *      same in the dynamic and stack allocated buffers.
-                     *  (2) copied the wcslen code from the glib sources into
-                     *      to this file and calling it on the dynamic buffer
-                     *      works, but the public wcslen() API still returns an
-                     *      incorrect value.
-                     *  (3) verified that no corruption occurs in the buffers
-                     *      before and after the wcslen() returns the wrong val
-                     *
-                     * If wide character support becomes important and this
-                     * assertion keeps erroring out, I would work around it
-                     * by copying the wide string into a stack buffer before
-                     * passing it to printf.
-                     */
-                    wstrArg = reinterpret_cast<const wchar_t *>(nextStringArg);
+                    // The string may be at any position in the buffer, but
+                    // printf() and the wide string functions require aligned
+                    // pointers, so make a copy.
+                    wideStrings.push_back(unpackWideString(&nextStringArg));
                     printSingleArg(outputFd,
                                    logArgs,
                                    pf->formatFragment,
-                                   wstrArg,
+                                   wideStrings.back().c_str(),
                                    width, precision);
-                    // +1 for NULL
-                    nextStringArg += (wcslen(wstrArg) + 1) * sizeof(wchar_t);
                     break;
 
                 case MAX_FORMAT_TYPE:
diff --git a/runtime/Log.h b/runtime/Log.h
index b6eab2a..6163981 100644
--- a/runtime/Log.h
+++ b/runtime/Log.h
@@ -14,6 +14,8 @@
  */
 
 #include <ctime>
+#include <deque>
+#include <string>
 #include <vector>
 
 #include <cassert>
@@ -912,6 +914,10 @@ namespace Log {
             // in the log file.
             uint64_t position;
 
+            // Aligned copies of the wide strings of the last log message that
+            // was decompressed; LogMessage refers to them.
+            std::deque<std::wstring> wideStrings;
+
             BufferFragment();
             void reset();
             bool hasNext();
@@ -924,6 +930,8 @@ namespace Log {
                                  long aggregationFilterId=-1,
                                  void (*aggregationFn)(const char*, ...)=NULL);
             uint64_t getNextLogTimestamp() const;
+
+            DISALLOW_COPY_AND_ASSIGN(BufferFragment);
         };
 
         static bool compareBufferFragments(const BufferFragment *a,
diff --git a/runtime/Packer.h b/runtime/Packer.h
index b936afa..27d4948 100644
--- a/runtime/Packer.h
+++ b/runtime/Packer.h
@@ -18,6 +18,7 @@
 #include <cstddef>
 #include <cstring>
 #include <cstdint>
+#include <string>
 
 #include "Common.h"
 #include "Portability.h"
@@ -289,6 +290,33 @@ unpack(const char **in, uint8_t packNibble) {
     return result;
 }
 
+/**
+ * Read back a null-terminated wide string that was copied to an arbitrary (and
+ * thus possibly unaligned) position of a byte stream. The wide string functions
+ * of the C library (and the printf family) do not accept such pointers.
+ *
+ * \param[in/out] in
+ *      Stream to read the wide string from; it is advanced past the string
+ *      and its null terminator
+ *
+ * \return
+ *      An aligned copy of the wide string
+ */
+inline std::wstring
+unpackWideString(const char **in)
+{
+    std::wstring result;
+    wchar_t c;
+
+    while (true) {
+        std::memcpy(&c, *in, sizeof(wchar_t));
+        *in += sizeof(wchar_t);
+        if (c == L'\0')
+            return result;
+        result.push_back(c);
+    }
+}
+
 /**
  * Given a stream of nibbles, return the total number of bytes used to represent
  * the values encoded with the nibbles.
-- 
2.43.0


From 642d92ba6081a50526679634d60d7c4323f30f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:43 +0000
Subject: [PATCH 16/30] fix: use the existing function wcsnlen in generated
 code

wcsnlen_s does not exist in the C library; statements with a precision on
a wide string (%.3ls) did not compile.
---
 preprocessor/FunctionGenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 6eafd3e..3ac8605 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -419,10 +419,10 @@ size_t numLogIds = {count};
                     strlenToAdd += "(1 + wcslen(arg{0}))*sizeof(wchar_t);"\
                                         .format(argNum)
                 elif precision == '*':
-                    strlenToAdd += "(1 + wcsnlen_s(arg{0}, arg{1}))*sizeof(wchar_t);"\
+                    strlenToAdd += "(1 + wcsnlen(arg{0}, arg{1}))*sizeof(wchar_t);"\
                                         .format(argNum,argNum - 1)
                 else:
-                    strlenToAdd += "(1 + wcsnlen_s(arg{0}, {1}))*sizeof(wchar_t);"\
+                    strlenToAdd += "(1 + wcsnlen(arg{0}, {1}))*sizeof(wchar_t);"\
                                         .format(argNum, precision)
             else:
                 if not precision:
-- 
2.43.0


From 900727a2d62a09207d6cd9f8f11f9231bc950c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:44 +0000
Subject: [PATCH 17/30] fix: accept format strings that end with an escaped
 backslash

extractCString() took the quote after an escaped backslash for an escaped
quote and rejected the statement.
---
 preprocessor/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index ff03dba..7a1a4c2 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -121,7 +121,7 @@ def extractCString(source):
         isInQuotes = not isInQuotes
       elif isInQuotes:
         returnString += c
-        prevWasEscape = c == "\\"
+        prevWasEscape = c == "\\" and not prevWasEscape
       else:
         if not (c.isspace()):
           return None
-- 
2.43.0


From 070034059c7c4f32f783673745562d882ef9cbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:44 +0000
Subject: [PATCH 18/30] fix: keep characters that are invalid in identifiers
 out of generated names

A format string (or file name) with e.g. a superscript two led to
generated code that does not compile.
---
 preprocessor/FunctionGenerator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 3ac8605..17e2dba 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -907,6 +907,9 @@ def generateIdVariableNameFromLogId(logId):
 
 def generateLogIdStr(fmtString, filename, linenum):
     def encode(string):
-        return "".join([c if c.isalnum() else str(ord(c)) for c in string])
+        # Some characters that isalnum() accepts (ex: a superscript two) may
+        # not be part of a C++ identifier, so only keep the ASCII ones.
+        return "".join([c if c.isalnum() and ord(c) < 128 else str(ord(c))
+                        for c in string])
 
     return "__%s__%s__%d__" % (encode(fmtString), encode(filename), linenum)
-- 
2.43.0


From fd8f4adc38fc90bbf61783f51e485555188fcd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:44 +0000
Subject: [PATCH 19/30] fix: count the bytes of a file name in the generated
 dictionary

The length of the file name in the dictionary was the number of source
characters, which differs from what is stored for names with escapes or
non-ASCII characters, and misaligned the dictionary entry.
---
 preprocessor/FunctionGenerator.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index 17e2dba..b6d49a8 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -662,7 +662,7 @@ inline void
            numPrintFragments=len(fmtSpecifiers),
            logLevel=logLevel,
            linenum=linenum,
-           filenameLength=len(filename) + 1,
+           filenameLength=cStringSize(filename),
            filename=filename,
            fmtString=fmtString
            )
@@ -905,6 +905,16 @@ def isWideString(typeStr):
 def generateIdVariableNameFromLogId(logId):
     return "__fmtId" + logId
 
+# Returns the number of bytes (including the NULL terminator) that the contents
+# of a C string literal occupy at runtime, where each escape sequence stands for
+# one byte and everything else is encoded in UTF-8.
+#
+# \param contents
+#           Source text between the quotes, as in a preprocessor line marker
+def cStringSize(contents):
+    unescaped = re.sub(r"\\([0-7]{1,3}|.)", "x", contents)
+    return len(unescaped.encode("utf-8")) + 1
+
 def generateLogIdStr(fmtString, filename, linenum):
     def encode(string):
         # Some characters that isalnum() accepts (ex: a superscript two) may
-- 
2.43.0


From 2f0dc7a655599fd03b340a6c1f783ab6f6543756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:13 +0000
Subject: [PATCH 20/30] fix: distinguish statements on one line whose generated
 ids are equal

Two statements on the same line with the same format string but different
log levels (or different formats that are encoded alike) shared the code
of the first one.
---
 preprocessor/FunctionGenerator.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/preprocessor/FunctionGenerator.py b/preprocessor/FunctionGenerator.py
index b6d49a8..36e1f08 100644
--- a/preprocessor/FunctionGenerator.py
+++ b/preprocessor/FunctionGenerator.py
@@ -347,9 +347,19 @@ size_t numLogIds = {count};
         logId = generateLogIdStr(fmtString, filename, linenum)
 
         # If we've already generated code for this invocation, don't do it again
-        if self.logId2Code.get(logId):
+        # unless it's a different statement (e.g. one with another log level)
+        # on the same line that just happens to be encoded the same way.
+        baseLogId = logId
+        duplicates = 0
+        while self.logId2Code.get(logId):
             code = self.logId2Code.get(logId)
-            return (code.get('recordFnDecl'), code.get('recordFnName'))
+            if code.get('fmtString') == fmtString \
+                    and code.get('filename') == filename \
+                    and code.get('logLevel') == logLevel:
+                return (code.get('recordFnDecl'), code.get('recordFnName'))
+
+            duplicates += 1
+            logId = "%s%d__" % (baseLogId, duplicates)
 
         # Get a preprocessed list of the format specifiers in a format string
         fmtSpecifiers = splitAndParseTypesInFmtString(fmtString)
-- 
2.43.0


From c72d4b0eee0154079ea3a5c414160bc35475bf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:56 +0000
Subject: [PATCH 21/30] fix: keep character literals and raw strings from
 confusing the preprocessor

A quote, comma or parenthesis in a character literal made the parser lose
track of strings and arguments (e.g. a log statement after '"' on the same
line was not instrumented), and text in a multi-line raw string could be
taken for a log statement.
---
 preprocessor/parser.py | 54 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index 7a1a4c2..d91b42b 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -62,6 +62,8 @@ Options:
 
 from docopt import docopt
 from collections import namedtuple
+import io
+import re
 import sys
 
 from FunctionGenerator import *
@@ -307,6 +309,49 @@ def peekNextMeaningfulChar(lines, filePos):
 
   return None
 
+# Matches what has to be told apart to find character literals and raw strings:
+# preprocessor lines, (raw) strings, identifiers, numbers (which may contain '
+# as a separator of digits) and character literals.
+TOKEN_REGEX = re.compile(
+    r"^\#[^\n]*"
+    r"|(?P<raw>\b(?:u8|[uUL])?R\"(?P<delim>[^()\\\s]{0,16})\(.*?\)(?P=delim)\")"
+    r"|\"(?:\\.|[^\"\\\n])*\""
+    r"|(?P<char>\b(?:u8|[uUL])'(?:\\.|[^'\\\n])+'|'(?:\\.|[^'\\\n])+')"
+    r"|[^\W\d]\w*"
+    r"|\.?\d(?:[eEpP][-+]|'?[\w.])*",
+    re.MULTILINE | re.DOTALL)
+
+# The scanner below only knows about ordinary strings. To keep it from being
+# confused by quotes, parentheses or log statements in character literals and
+# raw strings, replace each of them with a placeholder that has as many lines.
+#
+# \param source
+#         preprocessed source of a file
+#
+# \return
+#         tuple of the source with placeholders and the list of replaced literals
+def hideLiterals(source):
+  hidden = []
+
+  def replace(match):
+    literal = match.group("raw") or match.group("char")
+    if not literal:
+      return match.group(0)
+
+    hidden.append(literal)
+    return "__nanolog_literal_%d__" % (len(hidden) - 1) \
+                + "\n" * literal.count("\n")
+
+  return (TOKEN_REGEX.sub(replace, source), hidden)
+
+# Reverses hideLiterals
+def restoreLiterals(source, hidden):
+  def replace(match):
+    literal = hidden[int(match.group(1))]
+    return literal + match.group(2)[literal.count("\n"):]
+
+  return re.sub("__nanolog_literal_(\\d+)__(\n*)", replace, source)
+
 # Given a C/C++ source file that have been preprocessed by the GNU
 # preprocessor with the -E option, identify all the NanoLog log statements
 # and inject code in place of the statements to interface with the NanoLog
@@ -326,7 +371,8 @@ def processFile(inputFile, mapOutputFilename):
 
   with open(inputFile) as f, open(inputFile + "i", 'w') as output:
     try:
-      lines = f.readlines()
+      source, hiddenLiterals = hideLiterals(f.read())
+      lines = io.StringIO(source).readlines()
       lineIndex = -1
 
       lastChar = '\0'
@@ -553,7 +599,8 @@ def processFile(inputFile, mapOutputFilename):
           lastChar = c
     except ValueError as e:
         print("\r\n%s:%d: Error - %s\r\n\r\n%s\r\n" % (
-            ppFileName, ppLineNum, e.args[0], "".join(e.args[1])))
+            ppFileName, ppLineNum, e.args[0],
+            restoreLiterals("".join(e.args[1]), hiddenLiterals)))
         sys.exit(1)
 
     # Last step, retrieve the generated code and insert it at the end
@@ -568,8 +615,7 @@ def processFile(inputFile, mapOutputFilename):
       lines.insert(inlineCodeInjectionLineIndex + 1, codeToInject)
 
     # Output all the lines
-    for line in lines:
-      output.write(line)
+    output.write(restoreLiterals("".join(lines), hiddenLiterals))
 
     output.close()
     functionGenerator.outputMappingFile(mapOutputFilename)
-- 
2.43.0


From d53ec27a37068cd5c768dc702612a8964c57f984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:56 +0000
Subject: [PATCH 22/30] fix: do not take NNANO_LOG for a log statement

The parser did not remember an N that does not start NANO_LOG as the
previous character, and so missed that NANO_LOG continued an identifier.
---
 preprocessor/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index d91b42b..9848b28 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -465,6 +465,7 @@ def processFile(inputFile, mapOutputFilename):
                 break
 
             if not found:
+              lastChar = c
               continue
 
             # Valid identifier characters are [a-zA-Z_][a-zA-Z0-9_]*
-- 
2.43.0


From bcd1a2d7dd1a6c5714b5aef00f31f50a1a205c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:26 +0000
Subject: [PATCH 23/30] fix: handle line markers inside a log statement

The GNU preprocessor replaces eight or more consecutive empty lines by a
line marker. Within the arguments of a log statement the marker was taken
for a part of the program: it ended up in the arguments, or hid the end of
the statement, and shifted the line numbers of what follows.
---
 preprocessor/parser.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/preprocessor/parser.py b/preprocessor/parser.py
index 9848b28..55c010b 100644
--- a/preprocessor/parser.py
+++ b/preprocessor/parser.py
@@ -76,6 +76,9 @@ from FunctionGenerator import *
 # and stripping of format strings.
 LOG_FUNCTION = "NANO_LOG"
 
+# Line markers that the GNU preprocessor outputs: # lineNumber "filename" flags
+LINE_MARKER_REGEX = re.compile("^# (\\d+) \"(.*)\"(.*)")
+
 # A special C++ line at the end of NanoLog.h that marks where the parser
 # can start injecting inline function definitions. The key to it being at the
 # end of NanoLog.h is that it ensures all required #includes have been
@@ -163,6 +166,12 @@ def parseArgumentStartingAt(lines, startPos):
   for lineNum in range(startPos.lineNum, len(lines)):
     line = lines[lineNum]
 
+    # The preprocessor replaces long runs of empty lines with a line marker,
+    # which is not a part of the argument.
+    if not inQuotes and LINE_MARKER_REGEX.match(line):
+      offset = 0
+      continue
+
     prevWasEscape = False
     for i in range(offset, len(line)):
       c = line[i]
@@ -299,6 +308,11 @@ def peekNextMeaningfulChar(lines, filePos):
 
   while lineNum < len(lines):
     line = lines[lineNum]
+
+    # Line markers can occur anywhere and are not a part of the program.
+    if LINE_MARKER_REGEX.match(line):
+      offset = len(line)
+
     while offset < len(line):
       c = line[offset]
       if not c.isspace():
@@ -367,7 +381,6 @@ def restoreLiterals(source, hidden):
 #
 def processFile(inputFile, mapOutputFilename):
   functionGenerator = FunctionGenerator()
-  directiveRegex = re.compile("^# (\d+) \"(.*)\"(.*)")
 
   with open(inputFile) as f, open(inputFile + "i", 'w') as output:
     try:
@@ -405,7 +418,7 @@ def processFile(inputFile, mapOutputFilename):
         # Parse special preprocessor directives that follows the format
         # '# lineNumber "filename" flags'
         if line[0] == "#":
-          directive = directiveRegex.match(line)
+          directive = LINE_MARKER_REGEX.match(line)
           if directive:
               # -1 since the line num describes the line after it, not the
               # current one, so we decrement it here before looping
@@ -553,7 +566,11 @@ def processFile(inputFile, mapOutputFilename):
             scLine = lines[scLineNum]
 
             # Extrapolate the symbolic line number
-            scPPLineNum = ppLineNum + (scLineNum - lineIndex)
+            scPPLineNum = ppLineNum
+            for ii in range(lineIndex + 1, scLineNum + 1):
+              marker = LINE_MARKER_REGEX.match(lines[ii])
+              scPPLineNum = int(marker.group(1)) - 1 if marker \
+                                                      else scPPLineNum + 1
 
             # Split the line
             scHeadLine = scLine[:scOffset + 1] + "\r\n"
-- 
2.43.0


From beb6207762e14ab1b47ce904688241e05625f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:25 +0000
Subject: [PATCH 24/30] fix: include the smallest latency in the mean that
 rcdfTime reports

---
 runtime/LogDecompressor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/LogDecompressor.cc b/runtime/LogDecompressor.cc
index 5ac00a4..5f33471 100644
--- a/runtime/LogDecompressor.cc
+++ b/runtime/LogDecompressor.cc
@@ -84,7 +84,7 @@ void runRCDF(std::vector<uint64_t> timeDeltas, double cyclesPerSecond) {
     printf("# Done; printing rcdf\r\n");
     printf("#   Latency     Percentage of Operations\r\n");
 
-    uint64_t sum = 0;
+    uint64_t sum = timeDeltas.front();
     double boundary = 1.0e-10; // 1 decimal points into nanoseconds
     uint64_t bound = PerfUtils::Cycles::fromSeconds(boundary, cyclesPerSecond);
     double size = double(timeDeltas.size());
-- 
2.43.0


From ed51bb40ddac292798bccc891cb5e34833d1a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:25 +0000
Subject: [PATCH 25/30] fix: do not crash in rcdfTime on logs with less than
 two messages

---
 runtime/LogDecompressor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/LogDecompressor.cc b/runtime/LogDecompressor.cc
index 5f33471..5db66dc 100644
--- a/runtime/LogDecompressor.cc
+++ b/runtime/LogDecompressor.cc
@@ -244,6 +244,12 @@ int main(int argc, char** argv) {
         stop = PerfUtils::Cycles::rdtsc();
         double decodeTime = PerfUtils::Cycles::toSeconds(stop - start);
 
+        if (interLogTimes.empty()) {
+            printf("# There are less than two log messages in %s\r\n",
+                   logFileName);
+            return 0;
+        }
+
         start = PerfUtils::Cycles::rdtsc();
         runRCDF(interLogTimes, PerfUtils::Cycles::getCyclesPerSec());
         stop = PerfUtils::Cycles::rdtsc();
-- 
2.43.0


From 7c41fb5f20a7ac5099c25f4e5cfcec45b200862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:25 +0000
Subject: [PATCH 26/30] fix: do not crash in minMaxMean when no message matches
 or the logId is unknown

---
 runtime/LogDecompressor.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/runtime/LogDecompressor.cc b/runtime/LogDecompressor.cc
index 5db66dc..291194d 100644
--- a/runtime/LogDecompressor.cc
+++ b/runtime/LogDecompressor.cc
@@ -197,6 +197,11 @@ int main(int argc, char** argv) {
             printf("The logId must be positive: %s\r\n", argv[3]);
             exit(-1);
         }
+
+        if (static_cast<size_t>(filterId) >= GeneratedFunctions::numLogIds) {
+            printf("There is no log message with the logId %s\r\n", argv[3]);
+            exit(-1);
+        }
     } else if (strcmp(command, "find") == 0) {
         if (argc < 4) {
             printHelp(argv[0]);
@@ -329,7 +334,12 @@ int main(int argc, char** argv) {
 #endif // PREPROCESSOR_NANOLOG
     printf("Logs Encountered: %lu\r\n", numLogs);
     printf("Matching Logs: %ld (%0.2lf%%)\r\n", count,
-            (100.0*(double)count)/(double)numLogs);
+            (numLogs == 0) ? 0.0 : (100.0*(double)count)/(double)numLogs);
+
+    // Without a matching message there is nothing to aggregate
+    if (count == 0)
+        return 0;
+
     printf("Min: %ld\r\n", min);
     printf("Max: %ld\r\n", max);
     printf("Mean: %ld\r\n", total/count);
-- 
2.43.0


From e7bdf080463345344aa916365762c510425047ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:25 +0000
Subject: [PATCH 27/30] fix: pad the end of the output buffer, not its start,
 with O_DIRECT

---
 runtime/RuntimeLogger.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 1625a6f..0574fb8 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -614,7 +614,8 @@ RuntimeLogger::compressionThreadMain() {
             ssize_t bytesOver = bytesToWrite % 512;
 
             if (bytesOver != 0) {
-                memset(compressingBuffer, 0, 512 - bytesOver);
+                memset(compressingBuffer + bytesToWrite, 0,
+                                                            512 - bytesOver);
                 bytesToWrite = bytesToWrite + 512 - bytesOver;
                 padBytesWritten += (512 - bytesOver);
             }
-- 
2.43.0


From 8f91f7a26a27d1c8fcec33bae06099bd8bfd090c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:25 +0000
Subject: [PATCH 28/30] fix: detailed producer statistics crashed for threads
 that never blocked and lost their first lines

---
 runtime/RuntimeLogger.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/RuntimeLogger.cc b/runtime/RuntimeLogger.cc
index 0574fb8..989c80f 100644
--- a/runtime/RuntimeLogger.cc
+++ b/runtime/RuntimeLogger.cc
@@ -275,12 +275,15 @@ RuntimeLogger::getHistograms()
                 out << buffer;
 
 #ifdef RECORD_PRODUCER_STATS
-                uint64_t averageBlockNs = PerfUtils::Cycles::toNanoseconds(
+                uint64_t averageBlockNs = 0;
+                if (sb->numTimesProducerBlocked > 0)
+                    averageBlockNs = PerfUtils::Cycles::toNanoseconds(
                         sb->cyclesProducerBlocked)/sb->numTimesProducerBlocked;
                 snprintf(buffer, 1024,
                                  "\tAvgBlock (ns) : %lu\r\n"
                                  "\tBlock Dist\r\n",
                          averageBlockNs);
+                out << buffer;
                 for (size_t i = 0; i < Util::arraySize(
                         sb->cyclesProducerBlockedDist); ++i)
                 {
-- 
2.43.0


From 4ebed9965e19d7394bb1df033ca1654458aa5115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:26 +0000
Subject: [PATCH 29/30] fix: TimeTrace did not count its active readers, so
 events recorded while printing corrupted the trace

---
 runtime/TimeTrace.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/TimeTrace.cc b/runtime/TimeTrace.cc
index 4e8fa97..0414fae 100644
--- a/runtime/TimeTrace.cc
+++ b/runtime/TimeTrace.cc
@@ -215,7 +215,7 @@ TimeTrace::printInternal(std::vector<TimeTrace::Buffer*>* buffers, string* s)
 {
     bool printedAnything = false;
     for (uint32_t i = 0; i < buffers->size(); i++) {
-        buffers->at(i)->activeReaders.fetch_and(1);
+        buffers->at(i)->activeReaders.fetch_add(1);
     }
 
     // Initialize file for writing
@@ -331,7 +331,7 @@ TimeTrace::printInternal(std::vector<TimeTrace::Buffer*>* buffers, string* s)
     }
 
     for (uint32_t i = 0; i < buffers->size(); i++) {
-        buffers->at(i)->activeReaders.fetch_and(-1);
+        buffers->at(i)->activeReaders.fetch_sub(1);
     }
     if (output && output != stdout)
         fclose(output);
-- 
2.43.0


From dbd2a4aa0395613e1818c6dda7682eb390e7c45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:26 +0000
Subject: [PATCH 30/30] fix: TimeTrace crashed when its output file could not
 be opened

---
 runtime/TimeTrace.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/runtime/TimeTrace.cc b/runtime/TimeTrace.cc
index 0414fae..c1dfdff 100644
--- a/runtime/TimeTrace.cc
+++ b/runtime/TimeTrace.cc
@@ -13,6 +13,8 @@
  * CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
  */
 
+#include <cerrno>
+#include <cstring>
 #include <vector>
 
 #include "TimeTrace.h"
@@ -213,16 +215,22 @@ TimeTrace::reset()
 void
 TimeTrace::printInternal(std::vector<TimeTrace::Buffer*>* buffers, string* s)
 {
+    // Initialize file for writing
+    FILE* output = NULL;
+    if (s == NULL) {
+        output = filename ? fopen(filename, "a") : stdout;
+        if (output == NULL) {
+            fprintf(stderr, "TimeTrace could not open '%s': %s\n", filename,
+                    strerror(errno));
+            return;
+        }
+    }
+
     bool printedAnything = false;
     for (uint32_t i = 0; i < buffers->size(); i++) {
         buffers->at(i)->activeReaders.fetch_add(1);
     }
 
-    // Initialize file for writing
-    FILE* output = NULL;
-    if (s == NULL)
-        output = filename ? fopen(filename, "a") : stdout;
-
     // Holds the index of the next event to consider from each trace.
     std::vector<int> current;
 
-- 
2.43.0

