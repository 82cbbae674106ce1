From 65e6221f3529a8a3c26892b37e5624c923064216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:06 +0000
Subject: [PATCH 01/48] fix: reject RESP requests with a non-positive element
 count or a negative element size

---
 src/RedisParser.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/RedisParser.cc b/src/RedisParser.cc
index 8883b21..00a6ba0 100644
--- a/src/RedisParser.cc
+++ b/src/RedisParser.cc
@@ -54,6 +54,11 @@ int RedisParser::fetch(RedisRequest &req, bool authenticated) {
     int retcode = readInteger('*', request_size);
     if(retcode <= 0) return retcode;
 
+    if(request_size <= 0) {
+      qdb_warn("Redis protocol error, received request with " << request_size << " elements");
+      return -1;
+    }
+
     element_size = -1;
     current_element = 0;
 
@@ -106,7 +111,7 @@ int RedisParser::readInteger(char prefix, int &retval) {
 
   char *endptr;
   long num = strtol(current_integer.c_str()+1, &endptr, 10);
-  if(*endptr != '\0' || num == LONG_MIN || num == LONG_MAX) {
+  if(*endptr != '\0' || num < INT_MIN || num > INT_MAX - 2) {
     qdb_warn("Redis protocol error, received an invalid integer");
     return -1;
   }
@@ -120,6 +125,12 @@ int RedisParser::readElement(PinnedBuffer &str, bool authenticated) {
   if(element_size == -1) {
     int retcode = readInteger('$', element_size);
     if(retcode <= 0) return retcode;
+
+    if(element_size < 0) {
+      qdb_warn("Redis protocol error, received element with size " << element_size);
+      return -1;
+    }
+
     if(element_size == 0) encounteredZeroSize = true;
   }
 
-- 
2.43.0


From fe7eb979ba7868c486eafd09b0af08922ec6a846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:07 +0000
Subject: [PATCH 02/48] fix: SmartBuffer::expand reused and freed its buffer
 when it was exactly full

---
 src/utils/SmartBuffer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/SmartBuffer.hh b/src/utils/SmartBuffer.hh
index f5bc06d..1d777b7 100644
--- a/src/utils/SmartBuffer.hh
+++ b/src/utils/SmartBuffer.hh
@@ -63,7 +63,7 @@ public:
   void expand(size_t size) {
     qdb_assert(realSize <= size);
 
-    if(size < containerSize()) {
+    if(size <= containerSize()) {
       // Easy path, no copying necessary
       realSize = size;
       return;
-- 
2.43.0


From e5e58eea4302f1483fd98b819d8d26dd835e1085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:33 +0000
Subject: [PATCH 03/48] fix: stringmatchlen read past the end of the pattern
 and of an empty string

---
 deps/StringMatchLen.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/deps/StringMatchLen.h b/deps/StringMatchLen.h
index 47f2c5f..6699d28 100644
--- a/deps/StringMatchLen.h
+++ b/deps/StringMatchLen.h
@@ -47,7 +47,7 @@ inline int stringmatchlen(const char *pattern, int patternLen,
     while(patternLen) {
         switch(pattern[0]) {
         case '*':
-            while (pattern[1] == '*') {
+            while (patternLen >= 2 && pattern[1] == '*') {
                 pattern++;
                 patternLen--;
             }
@@ -72,27 +72,29 @@ inline int stringmatchlen(const char *pattern, int patternLen,
         {
             int negation, match;
 
+            if (stringLen == 0)
+                return 0; /* no match */
             pattern++;
             patternLen--;
-            negation = pattern[0] == '^';
+            negation = patternLen && pattern[0] == '^';
             if (negation) {
                 pattern++;
                 patternLen--;
             }
             match = 0;
             while(1) {
-                if (pattern[0] == '\\') {
+                if (patternLen >= 2 && pattern[0] == '\\') {
                     pattern++;
                     patternLen--;
                     if (pattern[0] == string[0])
                         match = 1;
-                } else if (pattern[0] == ']') {
-                    break;
                 } else if (patternLen == 0) {
                     pattern--;
                     patternLen++;
                     break;
-                } else if (pattern[1] == '-' && patternLen >= 3) {
+                } else if (pattern[0] == ']') {
+                    break;
+                } else if (patternLen >= 3 && pattern[1] == '-') {
                     int start = pattern[0];
                     int end = pattern[2];
                     int c = string[0];
@@ -137,6 +139,8 @@ inline int stringmatchlen(const char *pattern, int patternLen,
             }
             /* fall through */
         default:
+            if (stringLen == 0)
+                return 0; /* no match */
             if (!nocase) {
                 if (pattern[0] != string[0])
                     return 0; /* no match */
@@ -151,7 +155,7 @@ inline int stringmatchlen(const char *pattern, int patternLen,
         pattern++;
         patternLen--;
         if (stringLen == 0) {
-            while(*pattern == '*') {
+            while(patternLen && *pattern == '*') {
                 pattern++;
                 patternLen--;
             }
-- 
2.43.0


From 6eddf346b9b88c3d4ba7441473316cf9f84c9adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:30 +0000
Subject: [PATCH 04/48] fix: SISMEMBER inside a transaction that also writes

A read-write staging area has no snapshot, so SISMEMBER dereferenced a null
pointer and took the server down. Read through the staging area, like every
other read, which also makes earlier writes of the same transaction visible.
---
 src/StateMachine.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 491d64d..108db10 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -904,8 +904,7 @@ rocksdb::Status StateMachine::sismember(StagingArea &stagingArea, std::string_vi
   if(!assertKeyType(stagingArea, key, KeyType::kSet)) return wrong_type();
   FieldLocator locator(KeyType::kSet, key, element);
 
-  std::string tmp;
-  return db->Get(stagingArea.snapshot->opts(), locator.toView(), &tmp);
+  return stagingArea.exists(locator.toView());
 }
 
 rocksdb::Status StateMachine::srem(StagingArea &stagingArea, std::string_view key, const ReqIterator &start, const ReqIterator &end, int64_t &removed) {
-- 
2.43.0


From 626abceb0cc5da1c878e03c115b1a69d668f75c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:30 +0000
Subject: [PATCH 05/48] fix: SET with an empty value loses the key descriptor

The key could be read with GET but did not exist for EXISTS, TYPE, KEYS or
DEL, and could be given a second value of another type.
---
 src/StateMachine.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 108db10..c6d7b4d 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1165,7 +1165,7 @@ rocksdb::Status StateMachine::WriteOperation::finalize(int64_t newsize, bool for
 
   if(newsize < 0) qdb_throw("invalid newsize: " << newsize);
 
-  if(newsize == 0 && keyinfo.getKeyType() != KeyType::kVersionedHash) {
+  if(newsize == 0 && keyinfo.getKeyType() != KeyType::kVersionedHash && keyinfo.getKeyType() != KeyType::kString) {
     stagingArea.del(dlocator.toView());
   }
   else if(keyinfo.getSize() != newsize || forceUpdate) {
@@ -1226,8 +1226,9 @@ rocksdb::Status StateMachine::set(StagingArea &stagingArea, std::string_view key
   WriteOperation operation(stagingArea, key, KeyType::kString);
   if(!operation.valid()) return wrong_type();
 
+  // An empty string is still an existing key, make sure its descriptor is stored.
   operation.write(value);
-  return operation.finalize(value.size());
+  return operation.finalize(value.size(), !operation.keyExists());
 }
 
 rocksdb::Status StateMachine::dequePush(StagingArea &stagingArea, Direction direction, std::string_view key, const ReqIterator &start, const ReqIterator &end, int64_t &length) {
-- 
2.43.0


From 58df4beaefe74d9eacc938d7f1a9cffcde3b3e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:30 +0000
Subject: [PATCH 06/48] fix: SMOVE with the same source and destination
 corrupts the set size

Two write operations edited the same key descriptor: the element count no
longer matched the elements, and a later DEL of the key threw.
---
 src/StateMachine.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index c6d7b4d..f71e047 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -924,6 +924,12 @@ rocksdb::Status StateMachine::smove(StagingArea &stagingArea, std::string_view s
   WriteOperation operation1(stagingArea, source, KeyType::kSet);
   if(!operation1.valid()) return wrong_type();
 
+  if(source == destination) {
+    // Nothing to move, and both operations would be editing the same descriptor.
+    outcome = operation1.fieldExists(element);
+    return operation1.finalize(operation1.keySize());
+  }
+
   WriteOperation operation2(stagingArea, destination, KeyType::kSet);
   if(!operation2.valid()) {
     operation1.finalize(operation1.keySize());
-- 
2.43.0


From 4f0842f10e099b7e02dfa30241651b70fd374040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:03 +0000
Subject: [PATCH 07/48] fix: VHDEL of fields that do not exist touches the key
 and publishes a revision

---
 src/StateMachine.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index f71e047..968553a 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1410,11 +1410,13 @@ rocksdb::Status StateMachine::vhdel(StagingArea &stagingArea, std::string_view k
   WriteOperation operation(stagingArea, key, KeyType::kVersionedHash);
   if(!operation.valid()) return wrong_type();
 
-  VersionedHashRevision &revision = stagingArea.getRevisionTracker().forKey(key);
+  std::vector<std::string_view> removedFields;
 
   for(ReqIterator it = start; it != end; it++) {
-    removed += operation.deleteField(*it);
-    revision.addUpdate(*it, "");
+    if(operation.deleteField(*it)) {
+      removed++;
+      removedFields.emplace_back(*it);
+    }
   }
 
   // Have we modified this key in the same write batch already?
@@ -1431,10 +1433,17 @@ rocksdb::Status StateMachine::vhdel(StagingArea &stagingArea, std::string_view k
     descriptor.setStartIndex(version);
   }
 
-  revision.setRevisionNumber(version);
+  if(removed != 0) {
+    VersionedHashRevision &revision = stagingArea.getRevisionTracker().forKey(key);
+    revision.setRevisionNumber(version);
+
+    for(size_t i = 0; i < removedFields.size(); i++) {
+      revision.addUpdate(removedFields[i], "");
+    }
+  }
 
   int64_t newsize = operation.keySize() - removed;
-  return operation.finalize(newsize, true);
+  return operation.finalize(newsize, removed != 0);
 }
 
 rocksdb::Status StateMachine::vhlen(StagingArea &stagingArea, std::string_view key, size_t &len) {
-- 
2.43.0


From 29f7183e8f3f04ef2226cbe55273833085465abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:03 +0000
Subject: [PATCH 08/48] fix: HVALS on a key of another type replies with an
 empty list

---
 src/Dispatcher.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index c3b73d3..b014b61 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -576,6 +576,7 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
       if(request.size() != 2) return errArgs(request);
       std::vector<std::string> values;
       rocksdb::Status st = store.hvals(stagingArea, request[1], values);
+      if(!st.ok()) return Formatter::fromStatus(st);
       return Formatter::vector(values);
     }
     case RedisCommand::HSCAN: {
-- 
2.43.0


From 85091d747994d9e513eb781683dfee389ee492f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:03 +0000
Subject: [PATCH 09/48] fix: LEASE_GET on a key of another type throws while
 applying the entry

---
 src/Dispatcher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index b014b61..17e6ded 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -420,7 +420,7 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
         return Formatter::null();
       }
 
-      qdb_assert(st.ok());
+      if(!st.ok()) return Formatter::fromStatus(st);
 
       std::vector<std::string> reply;
       reply.emplace_back(SSTR("HOLDER: " << leaseInfo.getValue()));
-- 
2.43.0


From 196b14d63d0d46ed97bd0dc8036c4596392bd34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:03 +0000
Subject: [PATCH 10/48] fix: LEASE_ACQUIRE with an empty holder throws while
 applying the entry

---
 src/Dispatcher.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index 17e6ded..e07cd2e 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -387,6 +387,10 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
         return Formatter::err("value is not an integer or out of range");
       }
 
+      if(request[2].empty()) {
+        return Formatter::err("lease holder cannot be empty");
+      }
+
       qdb_assert(request[4].size() == 8u);
 
       ClockValue timestamp = binaryStringToUnsignedInt(request[4]);
-- 
2.43.0


From 681639bfe8c30d705607d9fad3b6ac609d56d6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:03 +0000
Subject: [PATCH 11/48] fix: updating, deleting, and recreating a versioned
 hash in one transaction throws while applying the entry

---
 src/StateMachine.cc                         | 2 ++
 src/storage/VersionedHashRevisionTracker.cc | 8 ++++++++
 src/storage/VersionedHashRevisionTracker.hh | 7 +++++++
 3 files changed, 17 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 968553a..6ac8b91 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -1774,6 +1774,7 @@ rocksdb::Status StateMachine::del(StagingArea &stagingArea, const ReqIterator &s
       int64_t count = 0;
       remove_all_with_prefix(locator.toView(), count, stagingArea);
       if(count != keyInfo.getSize()) qdb_throw("mismatch between keyInfo counter and number of elements deleted by remove_all_with_prefix: " << count << " vs " << keyInfo.getSize());
+      if(keyInfo.getKeyType() == KeyType::kVersionedHash) stagingArea.getRevisionTracker().forget(*it);
     }
     else if(keyInfo.getKeyType() == KeyType::kLocalityHash) {
       // wipe out fields
@@ -1889,6 +1890,7 @@ rocksdb::Status StateMachine::flushall(StagingArea &stagingArea) {
   int64_t tmp;
   remove_all_with_prefix("", tmp, stagingArea);
   mExpirationCache.clear();
+  stagingArea.getRevisionTracker().forgetAll();
   return rocksdb::Status::OK();
 }
 
diff --git a/src/storage/VersionedHashRevisionTracker.cc b/src/storage/VersionedHashRevisionTracker.cc
index 8edbf9f..e7242b8 100644
--- a/src/storage/VersionedHashRevisionTracker.cc
+++ b/src/storage/VersionedHashRevisionTracker.cc
@@ -64,6 +64,14 @@ VersionedHashRevision& VersionedHashRevisionTracker::forKey(std::string_view key
 //------------------------------------------------------------------------------
 // Iterate through contents
 //------------------------------------------------------------------------------
+void VersionedHashRevisionTracker::forget(std::string_view key) {
+  contents.erase(std::string(key));
+}
+
+void VersionedHashRevisionTracker::forgetAll() {
+  contents.clear();
+}
+
 std::map<std::string, VersionedHashRevision>::iterator VersionedHashRevisionTracker::begin() {
   return contents.begin();
 }
diff --git a/src/storage/VersionedHashRevisionTracker.hh b/src/storage/VersionedHashRevisionTracker.hh
index 605b62c..a157be8 100644
--- a/src/storage/VersionedHashRevisionTracker.hh
+++ b/src/storage/VersionedHashRevisionTracker.hh
@@ -67,6 +67,13 @@ public:
   //----------------------------------------------------------------------------
   VersionedHashRevision& forKey(std::string_view key);
 
+  //----------------------------------------------------------------------------
+  // Forget all updates towards a specific key, or towards any key - to be
+  // called when the key is deleted, as its revisions start over from scratch.
+  //----------------------------------------------------------------------------
+  void forget(std::string_view key);
+  void forgetAll();
+
   //----------------------------------------------------------------------------
   // Is it empty?
   //----------------------------------------------------------------------------
-- 
2.43.0


From 4da7fbdedf705b47002b1ae77778509530c609c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:03 +0000
Subject: [PATCH 12/48] fix: revisions of versioned hashes hold on to buffers
 freed before they are published

---
 src/storage/VersionedHashRevisionTracker.cc | 3 ++-
 src/storage/VersionedHashRevisionTracker.hh | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/storage/VersionedHashRevisionTracker.cc b/src/storage/VersionedHashRevisionTracker.cc
index e7242b8..f7a600c 100644
--- a/src/storage/VersionedHashRevisionTracker.cc
+++ b/src/storage/VersionedHashRevisionTracker.cc
@@ -51,7 +51,8 @@ void VersionedHashRevision::addUpdate(std::string_view field, std::string_view v
 // Serialize contents
 //------------------------------------------------------------------------------
 std::string VersionedHashRevision::serialize() const {
-  return Formatter::vhashRevision(currentRevision, updateBatch).val;
+  std::vector<std::pair<std::string_view, std::string_view>> batch(updateBatch.begin(), updateBatch.end());
+  return Formatter::vhashRevision(currentRevision, batch).val;
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/storage/VersionedHashRevisionTracker.hh b/src/storage/VersionedHashRevisionTracker.hh
index a157be8..cc29d3d 100644
--- a/src/storage/VersionedHashRevisionTracker.hh
+++ b/src/storage/VersionedHashRevisionTracker.hh
@@ -24,9 +24,10 @@
 #ifndef QUARKDB_VERSIONED_HASH_REVISION_TRACKER_HH
 #define QUARKDB_VERSIONED_HASH_REVISION_TRACKER_HH
 
-#include <vector>
-#include <string_view>
 #include <map>
+#include <string>
+#include <string_view>
+#include <vector>
 
 namespace quarkdb {
 
@@ -53,7 +54,7 @@ public:
 
 private:
   uint64_t currentRevision = 0;
-  std::vector<std::pair<std::string_view, std::string_view>> updateBatch;
+  std::vector<std::pair<std::string, std::string>> updateBatch;
 };
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 559b475e71ffa1f6350dfb884d56261fb8533265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:37 +0000
Subject: [PATCH 13/48] fix: LHSCAN with MATCHLOC stops early when continuing
 from a cursor, or when the hint contains a hash sign

---
 src/StateMachine.cc | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 6ac8b91..bc9708f 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -722,6 +722,14 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
   // Any rocksdb keys we touch must have this prefix.
   size_t keyPrefixSize = locator.toView().size();
   std::string requiredPrefix(locator.toView());
+
+  if(!patternPrefix.empty()) {
+    // .. followed by the escaped pattern prefix, without the field separator.
+    locator.resetHint(patternPrefix);
+    requiredPrefix = locator.toView();
+    requiredPrefix.resize(requiredPrefix.size() - 2);
+  }
+
   std::string_view scanStart = requiredPrefix;
 
   if(!cursor.empty()) {
@@ -734,25 +742,15 @@ rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view
     cursorHint = extractor.getOriginalPrefix();
     cursorField = extractor.getRawSuffix();
 
-    // We start from the given hint + field.
-    locator.resetHint(cursorHint);
-
-    if(!patternPrefix.empty()) {
-      requiredPrefix = locator.toView();
+    if(cursorHint.empty()) {
+      return malformed("invalid cursor");
     }
 
+    // We start from the given hint + field.
+    locator.resetHint(cursorHint);
     locator.resetField(cursorField);
     scanStart = locator.toView();
   }
-  else if(!patternPrefix.empty()) {
-    locator.resetHint(patternPrefix);
-    requiredPrefix += patternPrefix;
-    scanStart = locator.toView();
-
-    if(patternPrefix.size() != matchloc.size()) {
-      scanStart.remove_suffix(2);
-    }
-  }
 
   newCursor = "";
   IteratorPtr iter(stagingArea.getIterator());
-- 
2.43.0


From 0e011fd5dcbbf87cbdbdfe4ecd6c6cc461043617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:37 +0000
Subject: [PATCH 14/48] fix: LHGET_WITH_FALLBACK with too few arguments reads
 past the end of the request

---
 src/Dispatcher.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index e07cd2e..5ddac60 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -707,6 +707,8 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
       return Formatter::scan(newcursor, vec);
     }
     case RedisCommand::LHGET_WITH_FALLBACK: {
+      if(request.size() != 4 && request.size() != 5) return errArgs(request);
+
       // First, try LHGET...
       RedisEncodedResponse resp;
       if(request.size() == 4) {
-- 
2.43.0


From 0e9558c761c71b6bf6146a3de587a47097be0c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:37 +0000
Subject: [PATCH 15/48] fix: HINCRBY overflows silently

---
 src/StateMachine.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index bc9708f..5dd9309 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -562,7 +562,10 @@ rocksdb::Status StateMachine::hincrby(StagingArea &stagingArea, std::string_view
     return malformed("hash value is not an integer");
   }
 
-  result += incrbyInt64;
+  if(__builtin_add_overflow(result, incrbyInt64, &result)) {
+    operation.finalize(operation.keySize());
+    return malformed("increment or decrement would overflow");
+  }
 
   operation.writeField(field, std::to_string(result));
   return operation.finalize(operation.keySize() + !exists);
-- 
2.43.0


From 27b832ede90892ce77c9cc3738ab8b741a949084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:37 +0000
Subject: [PATCH 16/48] fix: scan commands accept a COUNT of zero when spelled
 as 00

---
 src/utils/CommandParsing.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/CommandParsing.hh b/src/utils/CommandParsing.hh
index 284f805..f4855da 100644
--- a/src/utils/CommandParsing.hh
+++ b/src/utils/CommandParsing.hh
@@ -79,6 +79,11 @@ inline ScanCommandArguments parseScanCommand(const RedisRequest::const_iterator
         args.error = "value is not an integer or out of range";
         return args;
       }
+
+      if(args.count <= 0) {
+        args.error = "syntax error";
+        return args;
+      }
     }
     else if(caseInsensitiveEquals(*pos, "match") && supportMatch) {
       args.match = *(pos+1);
-- 
2.43.0


From daf8de2900457049aac8710fbfa18633f6b3dbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:40 +0000
Subject: [PATCH 17/48] fix: locality hash commands with an empty key, field,
 or hint throw while applying the entry

---
 src/StateMachine.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index 5dd9309..b87e287 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -403,6 +403,10 @@ void StateMachine::lhsetInternal(WriteOperation &operation, std::string_view key
 rocksdb::Status StateMachine::lhmset(StagingArea &stagingArea, std::string_view key, const ReqIterator &start, const ReqIterator &end) {
   if((end - start) % 3 != 0) qdb_throw("lhmset: distance between start and end iterators must be a multiple of three");
 
+  for(auto it = start; it != end; it += 3) {
+    if(key.empty() || it->empty() || (it+1)->empty()) return malformed("locality hashes need non-empty key, field, and locality hint");
+  }
+
   WriteOperation operation(stagingArea, key, KeyType::kLocalityHash);
   if(!operation.valid()) return wrong_type();
 
@@ -417,6 +421,8 @@ rocksdb::Status StateMachine::lhmset(StagingArea &stagingArea, std::string_view
 }
 
 rocksdb::Status StateMachine::lhset(StagingArea &stagingArea, std::string_view key, std::string_view field, std::string_view hint, std::string_view value, bool &fieldcreated) {
+  if(key.empty() || field.empty() || hint.empty()) return malformed("locality hashes need non-empty key, field, and locality hint");
+
   WriteOperation operation(stagingArea, key, KeyType::kLocalityHash);
   if(!operation.valid()) return wrong_type();
 
@@ -426,7 +432,9 @@ rocksdb::Status StateMachine::lhset(StagingArea &stagingArea, std::string_view k
 }
 
 rocksdb::Status StateMachine::lhlocdel(StagingArea &stagingArea, std::string_view key, std::string_view field, std::string_view hint, int64_t &removed) {
+  removed = 0;
   if(!assertKeyType(stagingArea, key, KeyType::kLocalityHash)) return wrong_type();
+  if(key.empty() || field.empty() || hint.empty()) return rocksdb::Status::OK();
 
   LocalityFieldLocator locator(key, hint, field);
 
@@ -442,7 +450,6 @@ rocksdb::Status StateMachine::lhlocdel(StagingArea &stagingArea, std::string_vie
     return st;
   }
 
-  removed = 0;
   return rocksdb::Status::OK();
 }
 
@@ -453,6 +460,8 @@ rocksdb::Status StateMachine::lhdel(StagingArea &stagingArea, std::string_view k
   if(!operation.valid()) return wrong_type();
 
   for(ReqIterator it = start; it != end; it++) {
+    if(key.empty() || it->empty()) continue;
+
     std::string hint;
     bool exists = operation.getAndDeleteLocalityIndex(*it, hint);
     if(exists) {
@@ -467,6 +476,7 @@ rocksdb::Status StateMachine::lhdel(StagingArea &stagingArea, std::string_view k
 
 rocksdb::Status StateMachine::lhget(StagingArea &stagingArea, std::string_view key, std::string_view field, std::string_view hint, std::string &value) {
   if(!assertKeyType(stagingArea, key, KeyType::kLocalityHash)) return wrong_type();
+  if(key.empty() || field.empty()) return rocksdb::Status::NotFound();
 
   if(!hint.empty()) {
     // We were given a hint, whooo. Fast path.
@@ -713,11 +723,14 @@ rocksdb::Status StateMachine::hscan(StagingArea &stagingArea, std::string_view k
 rocksdb::Status StateMachine::lhscan(StagingArea &stagingArea, std::string_view key, std::string_view cursor, std::string_view matchloc, size_t count, std::string &newCursor, std::vector<std::string> &results) {
   if(!assertKeyType(stagingArea, key, KeyType::kLocalityHash)) return wrong_type();
 
+  results.clear();
+  newCursor = "";
+  if(key.empty()) return rocksdb::Status::OK();
+
   std::string_view cursorHint;
   std::string_view cursorField;
 
   LocalityFieldLocator locator(key);
-  results.clear();
 
   std::string patternPrefix = extractPatternPrefix(matchloc);
   bool emptyPattern = (matchloc.empty() || matchloc == "*");
-- 
2.43.0


From 64bb5717727c72626bb614f32c625dec7528252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:15 +0000
Subject: [PATCH 18/48] fix: numbers are parsed past the end of the argument,
 and an empty argument counts as zero

---
 src/Utils.cc            | 7 +++++--
 src/utils/ParseUtils.hh | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Utils.cc b/src/Utils.cc
index 7d5f400..1475f0d 100644
--- a/src/Utils.cc
+++ b/src/Utils.cc
@@ -62,9 +62,12 @@ bool caseInsensitiveEquals(std::string_view str1, std::string_view str2) {
 }
 
 bool my_strtod(std::string_view str, double &ret) {
+  // strtod needs a null-terminated string, which a view is not.
+  std::string terminated(str);
+
   char *endptr = NULL;
-  ret = strtod(str.data(), &endptr);
-  if(endptr != str.data() + str.size() || ret == HUGE_VAL || ret == -HUGE_VAL) {
+  ret = strtod(terminated.c_str(), &endptr);
+  if(terminated.empty() || endptr != terminated.c_str() + terminated.size() || ret == HUGE_VAL || ret == -HUGE_VAL) {
     return false;
   }
   return true;
diff --git a/src/utils/ParseUtils.hh b/src/utils/ParseUtils.hh
index 3d9e036..f475abb 100644
--- a/src/utils/ParseUtils.hh
+++ b/src/utils/ParseUtils.hh
@@ -44,9 +44,12 @@ inline std::vector<std::string> split(std::string data, const std::string &token
 }
 
 inline bool parseInt64(std::string_view str, int64_t &ret) {
+  // strtoll needs a null-terminated string, which a view is not.
+  std::string terminated(str);
+
   char *endptr = NULL;
-  ret = strtoll(str.data(), &endptr, 10);
-  if(endptr != str.data() + str.size() || ret == LLONG_MIN || ret == LONG_LONG_MAX) {
+  ret = strtoll(terminated.c_str(), &endptr, 10);
+  if(terminated.empty() || endptr != terminated.c_str() + terminated.size() || ret == LLONG_MIN || ret == LONG_LONG_MAX) {
     return false;
   }
   return true;
-- 
2.43.0


From 533ab59111c53f13b2b5e940a27239eee9060cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:27 +0000
Subject: [PATCH 19/48] fix: CLIENT without a subcommand reads past the end of
 the request

---
 src/QuarkDBNode.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/QuarkDBNode.cc b/src/QuarkDBNode.cc
index 2b0d07a..487250b 100644
--- a/src/QuarkDBNode.cc
+++ b/src/QuarkDBNode.cc
@@ -105,6 +105,8 @@ LinkStatus QuarkDBNode::dispatch(Connection *conn, RedisRequest &req) {
       return conn->raw(handlePing(req));
     }
     case RedisCommand::CLIENT: {
+      if(req.size() < 2) return conn->errArgs(req[0]);
+
       if(caseInsensitiveEquals(req[1], "setname")) {
         if(req.size() != 3) return conn->errArgs(req[0]);
 
-- 
2.43.0


From bbad989ede0e7f62dff77f431c2d9d55b66f4028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:19 +0000
Subject: [PATCH 20/48] fix: unpacking a serialized transaction reads out of
 bounds, and asserts, on malformed contents

---
 src/Formatter.cc         |  2 +-
 src/RedisRequest.cc      |  3 +-
 src/redis/Transaction.cc | 65 ++++++++++++++++++++++++++--------------
 3 files changed, 45 insertions(+), 25 deletions(-)

diff --git a/src/Formatter.cc b/src/Formatter.cc
index ee493f3..138bb45 100644
--- a/src/Formatter.cc
+++ b/src/Formatter.cc
@@ -144,7 +144,7 @@ RedisEncodedResponse Formatter::simpleRedisRequest(const RedisRequest &req) {
 RedisEncodedResponse Formatter::redisRequest(const RedisRequest &req) {
   if(req.getCommand() == RedisCommand::TX_READWRITE || req.getCommand() == RedisCommand::TX_READONLY) {
     Transaction transaction;
-    transaction.deserialize(req[1]);
+    if(!transaction.deserialize(req)) return simpleRedisRequest(req);
 
     ArrayResponseBuilder builder(transaction.size() + 1);
     builder.push_back(Formatter::string(req[0]));
diff --git a/src/RedisRequest.cc b/src/RedisRequest.cc
index 7b2eacc..e7e4bc5 100644
--- a/src/RedisRequest.cc
+++ b/src/RedisRequest.cc
@@ -47,8 +47,7 @@ void RedisRequest::parseCommand() {
 std::string RedisRequest::toPrintableString() const {
   if(this->getCommand() == RedisCommand::TX_READONLY || this->getCommand() == RedisCommand::TX_READWRITE) {
     Transaction transaction;
-    transaction.fromRedisRequest(*this);
-    return transaction.toPrintableString();
+    if(transaction.deserialize(*this)) return transaction.toPrintableString();
   }
 
   std::stringstream ss;
diff --git a/src/redis/Transaction.cc b/src/redis/Transaction.cc
index 8bc55c3..8cf7b99 100644
--- a/src/redis/Transaction.cc
+++ b/src/redis/Transaction.cc
@@ -92,45 +92,66 @@ bool Transaction::deserialize(const RedisRequest &req) {
 
   if(!this->deserialize(req[1])) return false;
 
-  if(req.getCommand() == RedisCommand::TX_READONLY) {
-    qdb_assert(!this->containsWrites());
-  }
-  else {
-    qdb_assert(this->containsWrites());
+  // Does the content match what the command promises?
+  if(this->containsWrites() != (req.getCommand() == RedisCommand::TX_READWRITE)) {
+    this->clear();
+    return false;
   }
 
   this->setPhantom(phantom);
   return true;
 }
 
+// Extract an integer describing the size of something which comes next in the
+// buffer, and occupies at least "unit" bytes for each step. Never trust it to
+// actually fit, the contents might have been sent by a client.
+static bool extractSize(const PinnedBuffer &src, size_t &bytesConsumed, size_t unit, int64_t &out) {
+  if(src.size() - bytesConsumed < sizeof(int64_t)) return false;
+
+  out = binaryStringToInt(src.data() + bytesConsumed);
+  bytesConsumed += sizeof(int64_t);
+
+  return out >= 0 && out <= (int64_t) ((src.size() - bytesConsumed) / unit);
+}
+
+static bool extractRequest(const PinnedBuffer &src, size_t &bytesConsumed, RedisRequest &req) {
+  int64_t totalParts;
+  if(!extractSize(src, bytesConsumed, sizeof(int64_t), totalParts)) return false;
+
+  for(int64_t part = 0; part < totalParts; part++) {
+    int64_t length;
+    if(!extractSize(src, bytesConsumed, sizeof(char), length)) return false;
+
+    req.push_back(src.substr(bytesConsumed, length));
+    bytesConsumed += length;
+  }
+
+  return req.getCommandType() == CommandType::READ || req.getCommandType() == CommandType::WRITE;
+}
+
 bool Transaction::deserialize(const PinnedBuffer &src) {
   qdb_assert(requests.empty());
-  if(src.empty()) return false;
 
-  const char *pos = src.data();
-  int64_t totalRequests = binaryStringToInt(pos);
-  pos += sizeof(int64_t);
-  size_t bytesConsumed = sizeof(int64_t);
+  size_t bytesConsumed = 0;
+  int64_t totalRequests;
+  if(!extractSize(src, bytesConsumed, sizeof(int64_t), totalRequests)) return false;
 
   requests.resize(totalRequests);
 
   for(int64_t i = 0; i < totalRequests; i++) {
-    int64_t totalParts = binaryStringToInt(pos);
-    pos += sizeof(int64_t);
-    bytesConsumed += sizeof(int64_t);
-
-    for(int64_t part = 0; part < totalParts; part++) {
-      int64_t length = binaryStringToInt(pos);
-      pos += sizeof(int64_t);
-      bytesConsumed += sizeof(int64_t);
-
-      requests[i].push_back(src.substr(bytesConsumed, length));
-      pos += (length * sizeof(char));
-      bytesConsumed += (length * sizeof(char));
+    if(!extractRequest(src, bytesConsumed, requests[i])) {
+      this->clear();
+      return false;
     }
+
     checkNthCommandForWrites(i);
   }
 
+  if(bytesConsumed != src.size()) {
+    this->clear();
+    return false;
+  }
+
   return true;
 }
 
-- 
2.43.0


From 19c3f418f540ae8214124a0be09ee5f5d006ea39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:19 +0000
Subject: [PATCH 21/48] fix: EXEC without MULTI, pipelined after a write,
 reaches the dispatcher and brings down a raft node

---
 src/Connection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 5cef8d0..70cc1de 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -304,7 +304,8 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
     }
 
     // EXEC without MULTI?
-    if(currentRequest.getCommand() == RedisCommand::EXEC && !multiHandler.active()) {
+    if(currentRequest.getCommand() == RedisCommand::EXEC && (!multiHandler.active() || multiHandler.isPhantom())) {
+      multiHandler.finalizePhantomTransaction(dispatcher, this);
       this->err("EXEC without MULTI");
       continue;
     }
-- 
2.43.0


From 397ce96342295ff8492caf38673ab639b2e9ecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:19 +0000
Subject: [PATCH 22/48] fix: serialized transactions sent by a client are not
 checked, and bypass the internal and lease filters

---
 src/Connection.cc | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 70cc1de..944d524 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -269,6 +269,23 @@ LinkStatus Connection::noauth(std::string_view msg) {
   return pendingQueue->appendResponse(Formatter::noauth(msg));
 }
 
+//------------------------------------------------------------------------------
+// The contents of a serialized transaction come straight from the client: No
+// internal commands, nor further transactions allowed in there.
+//------------------------------------------------------------------------------
+static bool unpackClientTransaction(const RedisRequest &req, Transaction &tx) {
+  if(!tx.deserialize(req) || tx.empty()) return false;
+
+  for(size_t i = 0; i < tx.size(); i++) {
+    InternalFilter::process(tx[i]);
+
+    if(tx[i].getCommandType() != CommandType::READ && tx[i].getCommandType() != CommandType::WRITE) return false;
+    if(tx[i].getCommand() == RedisCommand::TX_READWRITE || tx[i].getCommand() == RedisCommand::TX_READONLY) return false;
+  }
+
+  return true;
+}
+
 LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTracker &inFlightTracker) {
   FlushGuard guard(this);
 
@@ -310,9 +327,22 @@ LinkStatus Connection::processRequests(Dispatcher *dispatcher, const InFlightTra
       continue;
     }
 
-    if(currentRequest.getCommand() == RedisCommand::TX_READWRITE) {
+    // Transaction sent in serialized form?
+    if(currentRequest.getCommand() == RedisCommand::TX_READWRITE || currentRequest.getCommand() == RedisCommand::TX_READONLY) {
       multiHandler.finalizePhantomTransaction(dispatcher, this);
-      dispatcher->dispatch(this, currentRequest);
+
+      if(multiHandler.active()) {
+        this->err("Only reads and writes allowed within MULTI/EXEC blocks.");
+        continue;
+      }
+
+      Transaction tx;
+      if(!unpackClientTransaction(currentRequest, tx)) {
+        this->err("malformed transaction");
+        continue;
+      }
+
+      dispatcher->dispatch(this, tx);
       continue;
     }
 
-- 
2.43.0


From f2e547a6617100270d7c96c8cc60ce168fdc450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:28 +0000
Subject: [PATCH 23/48] fix: only one NOAUTH reply for many pipelined writes of
 an unauthenticated client

---
 src/QuarkDBNode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QuarkDBNode.cc b/src/QuarkDBNode.cc
index 487250b..e593200 100644
--- a/src/QuarkDBNode.cc
+++ b/src/QuarkDBNode.cc
@@ -82,7 +82,7 @@ bool QuarkDBNode::isAuthenticated(Connection *conn) const {
 LinkStatus QuarkDBNode::dispatch(Connection *conn, Transaction &transaction) {
   // We need to be authenticated past this point. Are we?
   if(!isAuthenticated(conn)) {
-    return conn->noauth("Authentication required.");
+    return conn->raw(Formatter::multiply(Formatter::noauth("Authentication required."), transaction.expectedResponses()));
   }
 
   return shard->dispatch(conn, transaction);
-- 
2.43.0


From 945c4e127a19dffc9d7670378e17a13d4b9595af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:28 +0000
Subject: [PATCH 24/48] fix: a write sent to the recovery server brings it down

---
 src/recovery/RecoveryDispatcher.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/recovery/RecoveryDispatcher.cc b/src/recovery/RecoveryDispatcher.cc
index 8f4012b..5fb9b6e 100644
--- a/src/recovery/RecoveryDispatcher.cc
+++ b/src/recovery/RecoveryDispatcher.cc
@@ -27,6 +27,7 @@
 #include "utils/IntToBinaryString.hh"
 #include "storage/KeyConstants.hh"
 #include "raft/RaftMembers.hh"
+#include "redis/Transaction.hh"
 #include "utils/CommandParsing.hh"
 using namespace quarkdb;
 
@@ -34,7 +35,10 @@ RecoveryDispatcher::RecoveryDispatcher(RecoveryEditor &ed) : editor(ed) {
 }
 
 LinkStatus RecoveryDispatcher::dispatch(Connection *conn, Transaction &tx) {
-  qdb_throw("Transactions not supported in RecoveryDispatcher");
+  // Plain writes end up here as well, the connection batches them.
+  std::string msg = "unable to dispatch transactions - remember we're running in recovery mode, not all operations are available";
+  qdb_warn(msg);
+  return conn->raw(Formatter::multiply(Formatter::err(msg), tx.expectedResponses()));
 }
 
 LinkStatus RecoveryDispatcher::dispatch(Connection *conn, RedisRequest &req) {
-- 
2.43.0


From 813c2b64d01432da9b750e28c5838521fea767c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:45 +0000
Subject: [PATCH 25/48] fix: line breaks in an error message, such as an
 unknown command, corrupt the reply stream

---
 src/Formatter.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Formatter.cc b/src/Formatter.cc
index 138bb45..ae5cdaa 100644
--- a/src/Formatter.cc
+++ b/src/Formatter.cc
@@ -28,6 +28,7 @@
 #include "redis/ArrayResponseBuilder.hh"
 #include "redis/Transaction.hh"
 #include "utils/Statistics.hh"
+#include <algorithm>
 using namespace quarkdb;
 
 RedisEncodedResponse Formatter::moved(int64_t shardId, const RaftServer &location) {
@@ -35,7 +36,12 @@ RedisEncodedResponse Formatter::moved(int64_t shardId, const RaftServer &locatio
 }
 
 RedisEncodedResponse Formatter::err(std::string_view err) {
-  return RedisEncodedResponse(SSTR("-ERR " << err << "\r\n"));
+  // An error extends until the end of the line. The message might contain text
+  // provided by the client, don't let it break the reply into several.
+  std::string line(err);
+  std::replace(line.begin(), line.end(), '\r', ' ');
+  std::replace(line.begin(), line.end(), '\n', ' ');
+  return RedisEncodedResponse(SSTR("-ERR " << line << "\r\n"));
 }
 
 RedisEncodedResponse Formatter::errArgs(std::string_view cmd) {
-- 
2.43.0


From f75cebc3037b1d2e92f763771669456f240caba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:44 +0000
Subject: [PATCH 26/48] fix: membership update while the replicator is not
 active dereferences a null snapshot

---
 src/raft/RaftReplicator.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/raft/RaftReplicator.cc b/src/raft/RaftReplicator.cc
index 416a630..f57aff8 100644
--- a/src/raft/RaftReplicator.cc
+++ b/src/raft/RaftReplicator.cc
@@ -666,6 +666,14 @@ static std::vector<RaftServer> all_servers_except_myself(const std::vector<RaftS
 }
 
 void RaftReplicator::reconfigure() {
+  std::scoped_lock lock(mtx);
+
+  if(!snapshot) {
+    // Not active (yet, or anymore): The membership in effect upon activation
+    // will be picked up then.
+    return;
+  }
+
   RaftMembership membership = journal.getMembership();
   qdb_info("Reconfiguring replicator for membership epoch " << membership.epoch);
 
-- 
2.43.0


From e01e2513a1112956976db95e383dd1241ecc3708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:28 +0000
Subject: [PATCH 27/48] fix: promoting a server which is not an observer brings
 down the leader

---
 src/raft/RaftDispatcher.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index efc2d76..e4443ae 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -287,6 +287,10 @@ LinkStatus RaftDispatcher::dispatch(Connection *conn, RedisRequest &req) {
       }
       else if(req.getCommand() == RedisCommand::RAFT_PROMOTE_OBSERVER) {
         ReplicationStatus replicationStatus = replicator.getStatus();
+        if(!replicationStatus.contains(srv)) {
+          return conn->err(SSTR("membership update blocked, not replicating to " << srv.toString() << " - is it an observer?"));
+        }
+
         if(!replicationStatus.getReplicaStatus(srv).upToDate(journal.getLogSize())) {
           return conn->err("membership update blocked, observer is not up-to-date");
         }
-- 
2.43.0


From 5a8fc330802cf9f4e2329fb0f8ebebe88f10eecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:00 +0000
Subject: [PATCH 28/48] fix: iterating over all subscriptions loops forever if
 a key is removed meanwhile

---
 src/pubsub/ThreadSafeMultiMap.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pubsub/ThreadSafeMultiMap.hh b/src/pubsub/ThreadSafeMultiMap.hh
index 21b095d..14e88e2 100644
--- a/src/pubsub/ThreadSafeMultiMap.hh
+++ b/src/pubsub/ThreadSafeMultiMap.hh
@@ -361,6 +361,9 @@ public:
           // Found valid position
           return;
         }
+
+        // Key was removed in the meantime, move on
+        keyIter.next();
       }
 
       isValid = false;
-- 
2.43.0


From bc59d86e11f7d8f55d5cb19289bc2a920ffd1150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:40 +0000
Subject: [PATCH 29/48] fix: subscription count of a connection goes wrong once
 its subscriptions were purged

---
 src/Connection.cc                 |  5 +++++
 src/Connection.hh                 |  2 +-
 src/pubsub/Publisher.cc           | 18 ++++++++++--------
 src/pubsub/SubscriptionTracker.hh |  7 +++++++
 4 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/Connection.cc b/src/Connection.cc
index 944d524..bfe9f69 100644
--- a/src/Connection.cc
+++ b/src/Connection.cc
@@ -66,6 +66,11 @@ void PendingQueue::punsubscribe(const std::string &item) {
   subscriptionTracker.removePattern(item);
 }
 
+size_t PendingQueue::countSubscriptions() {
+  std::scoped_lock lock(mtx);
+  return subscriptionTracker.size();
+}
+
 bool PendingQueue::addMessageIfAttached(const std::string &channel, std::string_view payload) {
   std::scoped_lock lock(mtx);
   if(!conn) return false;
diff --git a/src/Connection.hh b/src/Connection.hh
index 5a1bfb6..d1cb1a9 100644
--- a/src/Connection.hh
+++ b/src/Connection.hh
@@ -68,7 +68,7 @@ public:
   LogIndex dispatchPending(RedisDispatcher *dispatcher, LogIndex commitIndex);
   bool appendIfAttached(RedisEncodedResponse &&raw);
   bool appendIfAttachedNoLock(RedisEncodedResponse &&raw);
-  size_t subscriptions = 0u;
+  size_t countSubscriptions();
 
   void subscribe(const std::string &item);
   void psubscribe(const std::string &item);
diff --git a/src/pubsub/Publisher.cc b/src/pubsub/Publisher.cc
index b9737b8..1cccc83 100644
--- a/src/pubsub/Publisher.cc
+++ b/src/pubsub/Publisher.cc
@@ -58,11 +58,13 @@ Publisher::~Publisher() {
 
 void Publisher::purgeListeners(RedisEncodedResponse resp) {
   for(auto it = channelSubscriptions.getFullIterator(); it.valid(); it.next()) {
+    it.getValue()->unsubscribe(it.getKey());
     it.getValue()->appendIfAttached(RedisEncodedResponse(resp));
     it.erase();
   }
 
   for(auto it = patternMatcher.getFullIterator(); it.valid(); it.next()) {
+    it.getValue()->punsubscribe(it.getKey());
     it.getValue()->appendIfAttached(RedisEncodedResponse(resp));
     it.erase();
   }
@@ -137,10 +139,10 @@ LinkStatus Publisher::dispatch(Connection *conn, RedisRequest &req) {
 
       int retval = 1;
       for(size_t i = 1; i < req.size(); i++) {
-        conn->getQueue()->subscriptions += subscribe(conn->getQueue(), req[i]);
+        subscribe(conn->getQueue(), req[i]);
 
         if(retval >= 0) {
-          retval = conn->raw(Formatter::subscribe(pushTypes, req[i], conn->getQueue()->subscriptions));
+          retval = conn->raw(Formatter::subscribe(pushTypes, req[i], conn->getQueue()->countSubscriptions()));
         }
       }
 
@@ -155,10 +157,10 @@ LinkStatus Publisher::dispatch(Connection *conn, RedisRequest &req) {
 
       int retval = 1;
       for(size_t i = 1; i < req.size(); i++) {
-        conn->getQueue()->subscriptions += psubscribe(conn->getQueue(), req[i]);
+        psubscribe(conn->getQueue(), req[i]);
 
         if(retval >= 0) {
-          retval = conn->raw(Formatter::psubscribe(pushTypes, req[i], conn->getQueue()->subscriptions));
+          retval = conn->raw(Formatter::psubscribe(pushTypes, req[i], conn->getQueue()->countSubscriptions()));
         }
       }
 
@@ -173,10 +175,10 @@ LinkStatus Publisher::dispatch(Connection *conn, RedisRequest &req) {
 
       int retval = 1;
       for(size_t i = 1; i < req.size(); i++) {
-        conn->getQueue()->subscriptions -= unsubscribe(conn->getQueue(), req[i]);
+        unsubscribe(conn->getQueue(), req[i]);
 
         if(retval >= 0) {
-          retval = conn->raw(Formatter::unsubscribe(pushTypes, req[i], conn->getQueue()->subscriptions));
+          retval = conn->raw(Formatter::unsubscribe(pushTypes, req[i], conn->getQueue()->countSubscriptions()));
         }
       }
 
@@ -191,10 +193,10 @@ LinkStatus Publisher::dispatch(Connection *conn, RedisRequest &req) {
 
       int retval = 1;
       for(size_t i = 1; i < req.size(); i++) {
-        conn->getQueue()->subscriptions -= punsubscribe(conn->getQueue(), req[i]);
+        punsubscribe(conn->getQueue(), req[i]);
 
         if(retval >= 0) {
-          retval = conn->raw(Formatter::punsubscribe(pushTypes, req[i], conn->getQueue()->subscriptions));
+          retval = conn->raw(Formatter::punsubscribe(pushTypes, req[i], conn->getQueue()->countSubscriptions()));
         }
       }
 
diff --git a/src/pubsub/SubscriptionTracker.hh b/src/pubsub/SubscriptionTracker.hh
index 1004f5d..f32f063 100644
--- a/src/pubsub/SubscriptionTracker.hh
+++ b/src/pubsub/SubscriptionTracker.hh
@@ -70,6 +70,13 @@ public:
   //----------------------------------------------------------------------------
   bool hasPattern(const std::string &item) const;
 
+  //----------------------------------------------------------------------------
+  // Number of channels and patterns tracked
+  //----------------------------------------------------------------------------
+  size_t size() const {
+    return channels.size() + patterns.size();
+  }
+
 private:
   std::set<std::string> channels;
   std::set<std::string> patterns;
-- 
2.43.0


From d9382d7e42c0a61965fd085799e50f6bd1c1e3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:30 +0000
Subject: [PATCH 30/48] fix: server names and ports which cannot be stored in
 the membership are accepted

---
 src/Utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utils.cc b/src/Utils.cc
index 1475f0d..ba79ace 100644
--- a/src/Utils.cc
+++ b/src/Utils.cc
@@ -102,6 +102,10 @@ bool parseServer(std::string_view str, RaftServer &srv) {
 
   int64_t port;
   if(!ParseUtils::parseInt64(parts[1], port)) return false;
+  if(port < INT_MIN || port > INT_MAX) return false;
+
+  // A list of servers could not be read back with such a name in it.
+  if(parts[0].empty() || parts[0].find_first_of(",|") != std::string::npos) return false;
 
   srv = RaftServer{ parts[0], (int) port };
   return true;
-- 
2.43.0


From 91fb917a7ae4fe164af9a4bc0115f9fcbeab690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:30 +0000
Subject: [PATCH 31/48] fix: configuration options are matched by prefix, so
 that redis.certificate_key is never recognized

---
 src/Configuration.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Configuration.cc b/src/Configuration.cc
index e8cbb92..552b549 100644
--- a/src/Configuration.cc
+++ b/src/Configuration.cc
@@ -135,34 +135,34 @@ bool Configuration::fromReader(ConfigurationReader &reader, Configuration &out)
     bool success = false;
     std::string buffer;
 
-    if(StringUtils::startsWith("mode", current)) {
+    if(current == "mode") {
       success = fetchSingle(reader, buffer) && parseMode(buffer, out.mode);
     }
-    else if(StringUtils::startsWith(current, "database")) {
+    else if(current == "database") {
       success = fetchSingle(reader, out.database);
     }
-    else if(StringUtils::startsWith(current, "myself")) {
+    else if(current == "myself") {
       success = fetchSingle(reader, buffer) && parseServer(buffer, out.myself);
     }
-    else if(StringUtils::startsWith(current, "trace")) {
+    else if(current == "trace") {
       success = fetchSingle(reader, buffer) && parseTraceLevel(buffer, out.trace);
     }
-    else if(StringUtils::startsWith(current, "certificate")) {
+    else if(current == "certificate") {
       success = fetchSingle(reader, out.certificatePath);
     }
-    else if(StringUtils::startsWith(current, "certificate_key")) {
+    else if(current == "certificate_key") {
       success = fetchSingle(reader, out.certificateKeyPath);
     }
-    else if(StringUtils::startsWith(current, "write_ahead_log")) {
+    else if(current == "write_ahead_log") {
       success = fetchSingle(reader, buffer) && parseBool(buffer, out.writeAheadLog);
     }
-    else if(StringUtils::startsWith(current, "password_file")) {
+    else if(current == "password_file") {
       success = fetchSingle(reader, out.passwordFilePath);
     }
-    else if(StringUtils::startsWith(current, "password")) {
+    else if(current == "password") {
       success = fetchSingle(reader, out.password);
     }
-    else if(StringUtils::startsWith(current, "require_password_for_localhost")) {
+    else if(current == "require_password_for_localhost") {
       success = fetchSingle(reader, buffer) && parseBool(buffer, out.requirePasswordForLocalhost);
     }
     else {
-- 
2.43.0


From 8e8eebf3bb57a80c6e42cd969d0c0ee6804ae172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:30 +0000
Subject: [PATCH 32/48] fix: mode is uninitialized if the configuration does
 not specify one

---
 src/Configuration.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Configuration.hh b/src/Configuration.hh
index 6bf5391..917c41e 100644
--- a/src/Configuration.hh
+++ b/src/Configuration.hh
@@ -75,7 +75,7 @@ public:
 
   std::string extractPasswordOrDie() const;
 private:
-  Mode mode;
+  Mode mode = Mode::standalone;
   std::string database;
   TraceLevel trace = TraceLevel::info;
   std::string certificatePath;
-- 
2.43.0


From 2a9b0c85ecc800f1e52d81f3b3a297188439429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:30 +0000
Subject: [PATCH 33/48] fix: a configuration option without value takes the
 next line as its value

---
 src/Configuration.cc              |  4 ++++
 src/config/ConfigurationReader.cc | 16 ++++++++++++++++
 src/config/ConfigurationReader.hh |  5 +++++
 3 files changed, 25 insertions(+)

diff --git a/src/Configuration.cc b/src/Configuration.cc
index 552b549..209132e 100644
--- a/src/Configuration.cc
+++ b/src/Configuration.cc
@@ -48,6 +48,10 @@ bool Configuration::fromFile(const std::string &filename, Configuration &out) {
 }
 
 static bool fetchSingle(ConfigurationReader &reader, std::string &dest) {
+  if(reader.isLastWordInLine()) {
+    return false;
+  }
+
   reader.advanceWord();
 
   if(reader.eof()) {
diff --git a/src/config/ConfigurationReader.cc b/src/config/ConfigurationReader.cc
index 1151a44..5a990cc 100644
--- a/src/config/ConfigurationReader.cc
+++ b/src/config/ConfigurationReader.cc
@@ -74,6 +74,22 @@ void ConfigurationReader::advanceWord() {
   mPosition = findNextNonWhitespace();
 }
 
+//------------------------------------------------------------------------------
+// Is this the last word in the current line?
+//------------------------------------------------------------------------------
+bool ConfigurationReader::isLastWordInLine() const {
+  size_t pos = findNextWhitespace();
+  while(pos < mContents.size() && isspace(mContents[pos])) {
+    if(mContents[pos] == '\n') {
+      return true;
+    }
+
+    pos++;
+  }
+
+  return pos >= mContents.size();
+}
+
 //------------------------------------------------------------------------------
 // Advance to next line
 //------------------------------------------------------------------------------
diff --git a/src/config/ConfigurationReader.hh b/src/config/ConfigurationReader.hh
index 10368b5..7519634 100644
--- a/src/config/ConfigurationReader.hh
+++ b/src/config/ConfigurationReader.hh
@@ -48,6 +48,11 @@ public:
   //----------------------------------------------------------------------------
   void advanceWord();
 
+  //----------------------------------------------------------------------------
+  // Is this the last word in the current line?
+  //----------------------------------------------------------------------------
+  bool isLastWordInLine() const;
+
   //----------------------------------------------------------------------------
   // Advance to next line
   //----------------------------------------------------------------------------
-- 
2.43.0


From 9088f699874d5ed492be69cde8071e4d0edd8365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:14 +0000
Subject: [PATCH 34/48] fix: partial writes of a file pass for success, and
 writing an empty file for failure

---
 src/utils/FileUtils.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils/FileUtils.cc b/src/utils/FileUtils.cc
index ff1631c..33bc64d 100644
--- a/src/utils/FileUtils.cc
+++ b/src/utils/FileUtils.cc
@@ -192,8 +192,13 @@ bool write_file(std::string_view path, std::string_view contents, std::string &e
     return false;
   }
 
-  retvalue = fwrite(contents.data(), sizeof(char), contents.size(), out);
-  fclose(out);
+  retvalue = fwrite(contents.data(), sizeof(char), contents.size(), out) == contents.size();
+  if(fclose(out) != 0) retvalue = false;
+
+  if(!retvalue) {
+    err = SSTR("Unable to write to path: " << path << ", errno: " << errno);
+  }
+
   return retvalue;
 }
 
-- 
2.43.0


From d26e65228f2465c53b7917efb541052e32bd414c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:14 +0000
Subject: [PATCH 35/48] fix: a resilvering event whose id contains the
 separator cannot be read back

---
 src/utils/Resilvering.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utils/Resilvering.cc b/src/utils/Resilvering.cc
index c1d391a..c1dce2d 100644
--- a/src/utils/Resilvering.cc
+++ b/src/utils/Resilvering.cc
@@ -40,15 +40,16 @@ std::string ResilveringEvent::serialize() const {
 }
 
 bool ResilveringEvent::deserialize(const std::string &str, ResilveringEvent &ret) {
-  std::vector<std::string> parts = split(str, " - ");
-  if(parts.size() != 2) return false;
+  // The event ID could contain the separator, too
+  size_t pos = str.rfind(" - ");
+  if(pos == std::string::npos) return false;
 
   // Parse event ID
-  ret.id = parts[0];
+  ret.id = str.substr(0, pos);
 
   // Parse time
   int64_t t;
-  if(!ParseUtils::parseInt64(parts[1], t)) return false;
+  if(!ParseUtils::parseInt64(str.substr(pos + 3), t)) return false;
   ret.startTime = (time_t) t;
 
   return true;
-- 
2.43.0


From 41639ac56282d582bee82353f60dc64a1d3d61b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:14 +0000
Subject: [PATCH 36/48] fix: creating a standalone shard leaves its state
 machine locked by a leaked object

---
 src/ShardDirectory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index 1016959..564d4bf 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -250,7 +250,7 @@ ShardDirectory* ShardDirectory::create(const std::string &path, RaftClusterID cl
 
   // Standalone shard, we start from LogIndex 0
   shardDirectory->initializeStateMachine(std::move(sm), 0);
-  return new ShardDirectory(path);
+  return shardDirectory;
 }
 
 ShardDirectory* ShardDirectory::create(const std::string &path, RaftClusterID clusterID, ShardID shardID, const std::vector<RaftServer> &nodes, LogIndex startIndex, FsyncPolicy fsyncPolicy, std::unique_ptr<StateMachine> sm, Status &st) {
-- 
2.43.0


From 1492e46d22445778d6325507039487c04b9240b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:14 +0000
Subject: [PATCH 37/48] fix: null dereference when creating an empty shard
 which starts at a non-zero index

---
 src/ShardDirectory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index 564d4bf..fa8b2ee 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -171,6 +171,7 @@ void ShardDirectory::initializeStateMachine(std::unique_ptr<StateMachine> sm, Lo
     //--------------------------------------------------------------------------
     wipeoutStateMachineContents();
     getStateMachine()->forceResetLastApplied(initialLastApplied);
+    return;
   }
 
   //----------------------------------------------------------------------------
-- 
2.43.0


From 6f0b033f783db4ca2c7ef7e07abc295aa8848045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:14 +0000
Subject: [PATCH 38/48] fix: removing a snapshot removes other things if the
 path contains characters special to the shell

---
 src/ShardDirectory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ShardDirectory.cc b/src/ShardDirectory.cc
index fa8b2ee..4940f35 100644
--- a/src/ShardDirectory.cc
+++ b/src/ShardDirectory.cc
@@ -34,7 +34,7 @@ ShardSnapshot::ShardSnapshot(const std::string &path_)
 : path(path_) { }
 
 ShardSnapshot::~ShardSnapshot() {
-  system(SSTR("rm -rf " << path).c_str());
+  system(SSTR("rm -rf '" << path << "'").c_str());
 }
 
 std::string ShardSnapshot::getPath() {
-- 
2.43.0


From 95bd64de7dbb12b7d559d0e00d1689a3859a1713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:21 +0000
Subject: [PATCH 39/48] fix: a file which cannot be read is sent as an empty
 one while resilvering

---
 src/raft/RaftResilverer.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/raft/RaftResilverer.cc b/src/raft/RaftResilverer.cc
index 321a277..9bc9403 100644
--- a/src/raft/RaftResilverer.cc
+++ b/src/raft/RaftResilverer.cc
@@ -115,11 +115,13 @@ void RaftResilverer::cancel(const std::string &reason) {
 }
 
 bool RaftResilverer::copyFile(const std::string &path, const std::string &prefix, std::string &err) {
-  std::ifstream t(path);
-  std::stringstream buffer;
-  buffer << t.rdbuf();
+  std::string contents;
+  if(!readFile(path, contents)) {
+    err = SSTR("Could not read " << path);
+    return false;
+  }
 
-  OkResponseVerifier verifier(talker.resilveringCopy(resilveringID, prefix, buffer.str()));
+  OkResponseVerifier verifier(talker.resilveringCopy(resilveringID, prefix, contents));
   if(!verifier.ok()) {
     err = SSTR("Error when coping " << path << ": " << verifier.err());
   }
-- 
2.43.0


From 8164aace87cb2ed995549eb94ba9e13cacdee008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:16 +0000
Subject: [PATCH 40/48] fix: reject senseless trimming configuration, and
 survive invalid values

---
 src/raft/RaftConfig.cc | 29 +++++++++++++++++++++++------
 src/raft/RaftConfig.hh |  1 +
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/raft/RaftConfig.cc b/src/raft/RaftConfig.cc
index 92f573b..8e5faf2 100644
--- a/src/raft/RaftConfig.cc
+++ b/src/raft/RaftConfig.cc
@@ -26,6 +26,7 @@
 #include "Connection.hh"
 #include "StateMachine.hh"
 #include "utils/ParseUtils.hh"
+#include <limits>
 
 using namespace quarkdb;
 
@@ -42,11 +43,20 @@ bool TrimmingConfig::parse(const std::string &str) {
     return false;
   }
 
-  keepAtLeast = parts[0];
-  step = parts[1];
+  TrimmingConfig parsed { parts[0], parts[1] };
+  if(!parsed.valid()) {
+    return false;
+  }
+
+  *this = parsed;
   return true;
 }
 
+bool TrimmingConfig::valid() const {
+  return keepAtLeast >= 0 && step > 0 &&
+    keepAtLeast <= std::numeric_limits<int64_t>::max() - step;
+}
+
 std::string TrimmingConfig::toString() const {
   return SSTR(keepAtLeast << ":" << step);
 }
@@ -75,7 +85,8 @@ bool RaftConfig::getResilveringEnabled() {
     return false;
   }
 
-  qdb_throw("Invalid value for raft resilvering flag: " << value);
+  qdb_misconfig("Invalid value for raft resilvering flag: " << kResilveringEnabledKey << " => " << value);
+  return true;
 }
 
 EncodedConfigChange RaftConfig::setResilveringEnabled(bool value) {
@@ -87,15 +98,16 @@ TrimmingConfig RaftConfig::getTrimmingConfig() {
   std::string trimConfig;
   rocksdb::Status st = stateMachine.configGet(kTrimConfigKey, trimConfig);
 
+  TrimmingConfig ret { 50000000, 200000 }; // default values
+
   if(st.IsNotFound()) {
-    // Return default values
-    return { 50000000, 200000 };
+    return ret;
   }
   else if(!st.ok()) {
     qdb_throw("Error when retrieving journal trim limit: " << st.ToString());
   }
 
-  TrimmingConfig ret;
+  // An invalid value leaves the defaults in place.
   if(!ret.parse(trimConfig)) {
     qdb_misconfig("Unable to parse trimming configuration key: " << kTrimConfigKey << " => " << trimConfig);
   }
@@ -117,6 +129,11 @@ EncodedConfigChange RaftConfig::setTrimmingConfig(const TrimmingConfig &trimConf
     return { SSTR("new 'step' too small: " << trimConfig.step), {} };
   }
 
+  // Values which make no sense at all cannot be forced.
+  if(!trimConfig.valid()) {
+    return { SSTR("invalid trimming configuration: " << trimConfig.toString()), {} };
+  }
+
   RedisRequest req { "CONFIG_SET", kTrimConfigKey, trimConfig.toString() };
   return { "", req};
 }
diff --git a/src/raft/RaftConfig.hh b/src/raft/RaftConfig.hh
index 49120cf..3102e7e 100644
--- a/src/raft/RaftConfig.hh
+++ b/src/raft/RaftConfig.hh
@@ -40,6 +40,7 @@ struct TrimmingConfig {
   int64_t step;
 
   bool parse(const std::string &str);
+  bool valid() const;
   std::string toString() const;
 };
 
-- 
2.43.0


From 73d769b296044645c0209eaaeee8ee3939c0ded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:06 +0000
Subject: [PATCH 41/48] fix: trimming could ignore a trimming block enforced at
 the same time

---
 src/raft/RaftTrimmer.cc | 9 +++++++++
 src/raft/RaftTrimmer.hh | 4 +++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/raft/RaftTrimmer.cc b/src/raft/RaftTrimmer.cc
index eff6f1b..c430729 100644
--- a/src/raft/RaftTrimmer.cc
+++ b/src/raft/RaftTrimmer.cc
@@ -42,6 +42,9 @@ LogIndex RaftTrimmingBlock::getPreservationIndex() const {
 }
 
 void RaftTrimmingBlock::enforce(LogIndex limit) {
+  // Wait for any ongoing trimming to finish: once this function returns, no
+  // trimming which ignores the new limit can take place.
+  std::scoped_lock guard(trimmer.mtx);
   preserveIndex = limit;
 
   if(registered && limit == std::numeric_limits<LogIndex>::max()) {
@@ -106,6 +109,10 @@ void RaftTrimmer::main(ThreadAssistant &assistant) {
 
     threshold = start + trimConfig.step;
 
+    {
+    // No block may be enforced between checking for them, and trimming.
+    std::scoped_lock lock(mtx);
+
     // Check if any trimming block is preserving these entries.
     if(!canTrimUntil(threshold)) {
       goto wait;
@@ -119,6 +126,8 @@ void RaftTrimmer::main(ThreadAssistant &assistant) {
 
     // All clear, go.
     journal.trimUntil(threshold);
+    }
+
     continue; // no wait
 
 wait:
diff --git a/src/raft/RaftTrimmer.hh b/src/raft/RaftTrimmer.hh
index 33ace85..3d340ad 100644
--- a/src/raft/RaftTrimmer.hh
+++ b/src/raft/RaftTrimmer.hh
@@ -27,6 +27,8 @@
 #include "utils/AssistedThread.hh"
 #include "raft/RaftCommon.hh"
 #include <atomic>
+#include <mutex>
+#include <set>
 #include <limits>
 
 namespace quarkdb {
@@ -71,7 +73,7 @@ public:
   void registerChange(RaftTrimmingBlock* block);
   bool canTrimUntil(LogIndex threshold);
 private:
-  std::mutex mtx;
+  std::recursive_mutex mtx;
   std::set<RaftTrimmingBlock*> blocks;
 
   RaftJournal &journal;
-- 
2.43.0


From 5d15ff81a8692f3c229bf5f31488950dd695a731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:46 +0000
Subject: [PATCH 42/48] fix: the commit index was not synced under fsync policy
 always

---
 src/raft/RaftJournal.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/raft/RaftJournal.cc b/src/raft/RaftJournal.cc
index c695972..6c593d8 100644
--- a/src/raft/RaftJournal.cc
+++ b/src/raft/RaftJournal.cc
@@ -272,7 +272,12 @@ bool RaftJournal::setCommitIndex(LogIndex newIndex) {
 }
 
 void RaftJournal::rawSetCommitIndex(LogIndex newIndex) {
-  this->set_int_or_die(KeyConstants::kJournal_CommitIndex, newIndex);
+  rocksdb::WriteOptions opts;
+  opts.sync = shouldSync(false);
+
+  rocksdb::Status st = db->Put(opts, KeyConstants::kJournal_CommitIndex, intToBinaryString(newIndex));
+  if(!st.ok()) qdb_throw("unable to set commit index: " << st.ToString());
+
   commitIndex = newIndex;
   commitNotifier.notify_all();
 }
-- 
2.43.0


From 10f6b60100447e35113af83fc5dfb169ab705d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:10 +0000
Subject: [PATCH 43/48] fix: membership changes before an entry of the current
 term is committed allow two disjoint quorums

---
 src/raft/RaftDispatcher.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/raft/RaftDispatcher.cc b/src/raft/RaftDispatcher.cc
index e4443ae..a4d1780 100644
--- a/src/raft/RaftDispatcher.cc
+++ b/src/raft/RaftDispatcher.cc
@@ -272,6 +272,14 @@ LinkStatus RaftDispatcher::dispatch(Connection *conn, RedisRequest &req) {
       if(snapshot->status != RaftStatus::LEADER) return conn->err("not a leader");
       if(srv == state.getMyself()) return conn->err("cannot perform membership changes on current leader");
 
+      // Until an entry of the current term has been committed, a membership
+      // update by a previous leader which we don't know about might still be
+      // pending somewhere. Allowing another one would make two disjoint quorums
+      // possible.
+      if(journal.getCommitIndex() < snapshot->leadershipMarker) {
+        return conn->err("membership update blocked, no entry has been committed in the current term yet");
+      }
+
       std::string err;
       bool rc;
 
-- 
2.43.0


From 99a4c69536b961ed0241e37faf5effae163e45fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:04 +0000
Subject: [PATCH 44/48] fix: malformed raft entries were read out of bounds

---
 src/raft/RaftCommon.hh | 13 +++++++++++--
 src/raft/RaftUtils.cc  |  2 +-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/raft/RaftCommon.hh b/src/raft/RaftCommon.hh
index 138ad10..497b2d7 100644
--- a/src/raft/RaftCommon.hh
+++ b/src/raft/RaftCommon.hh
@@ -79,20 +79,29 @@ struct RaftEntry {
     return ss.str();
   }
 
-  static void deserialize(RaftEntry &entry, std::string_view data) {
+  // Returns false if the given bytes are not a serialized entry.
+  static bool deserialize(RaftEntry &entry, std::string_view data) {
     entry.request.clear();
+    if(data.size() < sizeof(term)) return false;
+
     entry.term = fetch_int_from_string(data.data());
 
     const char *pos = data.data() + sizeof(term);
     const char *end = data.data() + data.size();
 
     while(pos < end) {
-      int64_t len = fetch_int_from_string(pos);
+      int64_t len;
+      if(end - pos < (int64_t) sizeof(len)) return false;
+
+      len = fetch_int_from_string(pos);
       pos += sizeof(len);
+      if(len < 0 || len > end - pos) return false;
 
       entry.request.emplace_back(pos, len);
       pos += len;
     }
+
+    return true;
   }
 
   static int64_t fetchTerm(std::string_view data) {
diff --git a/src/raft/RaftUtils.cc b/src/raft/RaftUtils.cc
index b19a0a1..d4fbe0b 100644
--- a/src/raft/RaftUtils.cc
+++ b/src/raft/RaftUtils.cc
@@ -155,7 +155,7 @@ bool RaftParser::appendEntries(RedisRequest &&source, RaftAppendEntriesRequest &
 
   int64_t index = 3;
   for(int64_t i = 0; i < nreqs; i++) {
-    RaftEntry::deserialize(dest.entries[i], source[index]);
+    if(!RaftEntry::deserialize(dest.entries[i], source[index])) return false;
     index++;
   }
 
-- 
2.43.0


From 1eec6ec46c2c86d3ef6799f6d308ef2d61375e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:04 +0000
Subject: [PATCH 45/48] fix: core-local array was indexed out of bounds by one

---
 src/utils/CoreLocalArray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/CoreLocalArray.hh b/src/utils/CoreLocalArray.hh
index a8e49f1..83d7949 100644
--- a/src/utils/CoreLocalArray.hh
+++ b/src/utils/CoreLocalArray.hh
@@ -111,7 +111,7 @@ public:
   //----------------------------------------------------------------------------
   int getCoreIndex() const {
     int cpuno = sched_getcpu();
-    if(cpuno < 0 || cpuno > (int) cpus) {
+    if(cpuno < 0 || cpuno >= (int) cpus) {
       cpuno = 0;
     }
 
-- 
2.43.0


From 3839b72aee7a051785f14ec619864c5ea2f310eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:04 +0000
Subject: [PATCH 46/48] fix: removals and leases crashed servers in bulkload
 mode

---
 src/Dispatcher.cc          | 5 +++++
 src/storage/StagingArea.hh | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Dispatcher.cc b/src/Dispatcher.cc
index 5ddac60..307f336 100644
--- a/src/Dispatcher.cc
+++ b/src/Dispatcher.cc
@@ -381,6 +381,7 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
     }
     case RedisCommand::TIMESTAMPED_LEASE_ACQUIRE: {
       if(request.size() != 5) return Formatter::errArgs("lease_acquire");
+      if(store.inBulkLoad()) return Formatter::err("leases are not available during bulkload");
 
       int64_t duration = 0;
       if(!ParseUtils::parseInt64(request[3], duration) || duration < 1) {
@@ -413,6 +414,7 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
     }
     case RedisCommand::TIMESTAMPED_LEASE_GET: {
       if(request.size() != 3) return Formatter::errArgs("lease_get");
+      if(store.inBulkLoad()) return Formatter::err("leases are not available during bulkload");
 
       qdb_assert(request[2].size() == 8u);
       ClockValue timestamp = binaryStringToUnsignedInt(request[2]);
@@ -433,6 +435,7 @@ RedisEncodedResponse RedisDispatcher::dispatchWrite(StagingArea &stagingArea, Re
     }
     case RedisCommand::TIMESTAMPED_LEASE_RELEASE: {
       if(request.size() != 3) return Formatter::errArgs("lease_release");
+      if(store.inBulkLoad()) return Formatter::err("leases are not available during bulkload");
 
       qdb_assert(request[2].size() == 8u);
       ClockValue timestamp = binaryStringToUnsignedInt(request[2]);
@@ -783,6 +786,7 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
     }
     case RedisCommand::CLOCK_GET: {
       if(request.size() != 1) return errArgs(request);
+      if(store.inBulkLoad()) return Formatter::err("leases are not available during bulkload");
 
       std::vector<std::string> reply;
 
@@ -798,6 +802,7 @@ RedisEncodedResponse RedisDispatcher::dispatchRead(StagingArea &stagingArea, Red
     }
     case RedisCommand::LEASE_GET_PENDING_EXPIRATION_EVENTS: {
       if(request.size() != 1) return errArgs(request);
+      if(store.inBulkLoad()) return Formatter::err("leases are not available during bulkload");
 
       std::vector<StateMachine::ExpirationEvent> events;
       ClockValue staticClock, dynamicClock;
diff --git a/src/storage/StagingArea.hh b/src/storage/StagingArea.hh
index f3e90f1..cf1bc18 100644
--- a/src/storage/StagingArea.hh
+++ b/src/storage/StagingArea.hh
@@ -127,7 +127,14 @@ public:
 
   void del(std::string_view slice) {
     if(readOnly) qdb_throw("cannot call del() on a readonly staging area");
-    if(bulkLoad) qdb_throw("no deletions allowed during bulk load");
+    if(bulkLoad) {
+      if(slice[0] == char(InternalKeyType::kDescriptor)) {
+        // Ignore key descriptors, we'll build them all at the end
+        return;
+      }
+
+      qdb_throw("no deletions allowed during bulk load");
+    }
     THROW_ON_ERROR(writeBatchWithIndex.Delete(slice));
   }
 
-- 
2.43.0


From d28ab9bf61301d0ac6947e8e42b0608c683bea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:04 +0000
Subject: [PATCH 47/48] fix: bulkload was marked complete before its
 descriptors reached the disk

---
 src/StateMachine.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/StateMachine.cc b/src/StateMachine.cc
index b87e287..ac68e4e 100644
--- a/src/StateMachine.cc
+++ b/src/StateMachine.cc
@@ -2036,6 +2036,10 @@ void StateMachine::finalizeBulkload() {
   THROW_ON_ERROR(manualCompaction());
   qdb_event("Manual compaction was successful. Building key descriptors...");
   KeyDescriptorBuilder builder(*this);
+
+  // The descriptors bypass the write-ahead log: Make sure they've reached the
+  // disk before marking the bulkload as complete.
+  THROW_ON_ERROR(db->Flush(rocksdb::FlushOptions()));
   THROW_ON_ERROR(db->Put(rocksdb::WriteOptions(), KeyConstants::kStateMachine_InBulkload, boolToString(false)));
   qdb_event("All done, bulkload is over. Restart quarkdb in standalone mode.");
 }
-- 
2.43.0


From 6eb330297a35df9da0b968e8e44b242a89c652fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:04 +0000
Subject: [PATCH 48/48] fix: descriptors of deques, versioned hashes and
 rewritten locality hash fields were wrong after bulkload

---
 src/storage/KeyDescriptorBuilder.cc | 38 +++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/storage/KeyDescriptorBuilder.cc b/src/storage/KeyDescriptorBuilder.cc
index 34bd94d..db3c4a9 100644
--- a/src/storage/KeyDescriptorBuilder.cc
+++ b/src/storage/KeyDescriptorBuilder.cc
@@ -39,8 +39,24 @@ static void appendToWriteBatch(std::string &prefix, std::string &key, KeyDescrip
   descriptor = KeyDescriptor();
 }
 
+// The index tells which hint a locality hash field was last written with.
+static bool isStaleLocalityField(rocksdb::Iterator &indexIterator, ReverseLocator &revlocator) {
+  std::string_view suffix = revlocator.getField();
+  suffix.remove_prefix(1);
+
+  EscapedPrefixExtractor hint;
+  if(!hint.parse(suffix)) return false;
+
+  LocalityIndexLocator indexLocator(revlocator.getOriginalKey(), hint.getRawSuffix());
+  indexIterator.Seek(indexLocator.toView());
+
+  return indexIterator.Valid() && indexIterator.key() == rocksdb::Slice(indexLocator.toView()) &&
+    indexIterator.value() != rocksdb::Slice(hint.getOriginalPrefix());
+}
+
 KeyDescriptorBuilder::KeyDescriptorBuilder(StateMachine &stateMachine) {
   StateMachine::IteratorPtr iterator = stateMachine.getRawIterator();
+  StateMachine::IteratorPtr indexIterator = stateMachine.getRawIterator();
 
   qdb_event("Scanning entire database to calculate key descriptors...");
 
@@ -97,11 +113,29 @@ KeyDescriptorBuilder::KeyDescriptorBuilder(StateMachine &stateMachine) {
 
       descriptor.setKeyType(revlocator.getKeyType());
       descriptor.setSize(0);
+
+      if(revlocator.getKeyType() == KeyType::kVersionedHash) {
+        // Same version as the one reported to whoever wrote it.
+        descriptor.setStartIndex(1);
+      }
     }
 
-    if(!revlocator.isLocalityIndex()) {
-      descriptor.setSize(descriptor.getSize() + 1);
+    if(revlocator.isLocalityIndex()) continue;
+
+    if(revlocator.getKeyType() == KeyType::kLocalityHash && isStaleLocalityField(*indexIterator, revlocator)) {
+      // The field was written again with a different hint later on.
+      descriptorBatch.Delete(iterator->key());
+      continue;
     }
+
+    if(revlocator.getKeyType() == KeyType::kDeque) {
+      // Items are sorted by index, start and end point right outside of them.
+      uint64_t index = binaryStringToUnsignedInt(revlocator.getField().data());
+      if(descriptor.getSize() == 0) descriptor.setStartIndex(index - 1);
+      descriptor.setEndIndex(index + 1);
+    }
+
+    descriptor.setSize(descriptor.getSize() + 1);
   }
 
   qdb_event("Collected " << descriptorBatch.Count() << " descriptors. Flushing write batch..");
-- 
2.43.0

