From f816932fb7aabf09fb93811217efb47c0340e7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:13 +0000
Subject: [PATCH 001/105] fix: ART-OLC reads a node's prefix length once while
 it compares keys optimistically

---
 ARTOLC/Tree.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index 4f515f9..35477cc 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -56,6 +56,8 @@ namespace ART_OLC {
                     // fallthrough
                 case CheckPrefixResult::Match:
                     if (k.getKeyLen() <= level) {
+                        node->readUnlockOrRestart(v, needRestart);
+                        if (needRestart) goto restart;
                         return 0;
                     }
                     parentNode = node;
@@ -554,18 +556,20 @@ namespace ART_OLC {
     }
 
     inline typename Tree::CheckPrefixResult Tree::checkPrefix(N *n, const Key &k, uint32_t &level) {
-        if (n->hasPrefix()) {
-            if (k.getKeyLen() <= level + n->getPrefixLength()) {
+        // n may change concurrently: its prefix length is read only once
+        const uint32_t prefixLength = n->getPrefixLength();
+        if (prefixLength > 0) {
+            if (k.getKeyLen() <= level + prefixLength) {
                 return CheckPrefixResult::NoMatch;
             }
-            for (uint32_t i = 0; i < std::min(n->getPrefixLength(), maxStoredPrefixLength); ++i) {
+            for (uint32_t i = 0; i < std::min(prefixLength, maxStoredPrefixLength); ++i) {
                 if (n->getPrefix()[i] != k[level]) {
                     return CheckPrefixResult::NoMatch;
                 }
                 ++level;
             }
-            if (n->getPrefixLength() > maxStoredPrefixLength) {
-                level = level + (n->getPrefixLength() - maxStoredPrefixLength);
+            if (prefixLength > maxStoredPrefixLength) {
+                level = level + (prefixLength - maxStoredPrefixLength);
                 return CheckPrefixResult::OptimisticMatch;
             }
         }
@@ -576,10 +580,12 @@ namespace ART_OLC {
                                                                         uint8_t &nonMatchingKey,
                                                                         Prefix &nonMatchingPrefix,
                                                                         LoadKeyFunction loadKey, bool &needRestart) {
-        if (n->hasPrefix()) {
+        // n may change concurrently: its prefix length is read only once
+        const uint32_t prefixLength = n->getPrefixLength();
+        if (prefixLength > 0) {
             uint32_t prevLevel = level;
             Key kt;
-            for (uint32_t i = 0; i < n->getPrefixLength(); ++i) {
+            for (uint32_t i = 0; i < prefixLength; ++i) {
                 if (i == maxStoredPrefixLength) {
                     auto anyTID = N::getAnyChildTid(n, needRestart);
                     if (needRestart) return CheckPrefixPessimisticResult::Match;
@@ -588,16 +594,16 @@ namespace ART_OLC {
                 uint8_t curKey = i >= maxStoredPrefixLength ? kt[level] : n->getPrefix()[i];
                 if (curKey != k[level]) {
                     nonMatchingKey = curKey;
-                    if (n->getPrefixLength() > maxStoredPrefixLength) {
+                    if (prefixLength > maxStoredPrefixLength) {
                         if (i < maxStoredPrefixLength) {
                             auto anyTID = N::getAnyChildTid(n, needRestart);
                             if (needRestart) return CheckPrefixPessimisticResult::Match;
                             loadKey(anyTID, kt);
                         }
-                        memcpy(nonMatchingPrefix, &kt[0] + level + 1, std::min((n->getPrefixLength() - (level - prevLevel) - 1),
+                        memcpy(nonMatchingPrefix, &kt[0] + level + 1, std::min((prefixLength - (level - prevLevel) - 1),
                                                                            maxStoredPrefixLength));
                     } else {
-                        memcpy(nonMatchingPrefix, n->getPrefix() + i + 1, n->getPrefixLength() - i - 1);
+                        memcpy(nonMatchingPrefix, n->getPrefix() + i + 1, prefixLength - i - 1);
                     }
                     return CheckPrefixPessimisticResult::NoMatch;
                 }
-- 
2.43.0


From 60bafb369276856e282cf2d76f85acf5bfe4dc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 002/105] fix: ART-OLC remove validates the parent before it
 trusts the level of a node

---
 ARTOLC/Tree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index 35477cc..b28a205 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -479,6 +479,11 @@ namespace ART_OLC {
             node = nextNode;
             auto v = node->readLockOrRestart(needRestart);
             if (needRestart) goto restart;
+            if (parentNode != nullptr) {
+                // node may have moved down while it was not yet locked
+                parentNode->readUnlockOrRestart(parentVersion, needRestart);
+                if (needRestart) goto restart;
+            }
 
             switch (checkPrefix(node, k, level)) { // increases level
                 case CheckPrefixResult::NoMatch:
-- 
2.43.0


From 8b89ad3859d89a6b648f867055aef665247163c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:59 +0000
Subject: [PATCH 003/105] fix: OptiQL ART remove validates the parent before it
 trusts the level of a node

---
 OptiQL/Tree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index a5fafb9..cb229b2 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -1231,6 +1231,11 @@ restart:
     node = nextNode;
     auto v = node->readLockOrRestart(needRestart);
     if (needRestart) goto restart;
+    if (parentNode != nullptr) {
+      // node may have moved down while it was not yet locked
+      parentNode->readUnlockOrRestart(parentVersion, needRestart);
+      if (needRestart) goto restart;
+    }
 
     switch (checkPrefix(node, k, level)) {  // increases level
       case CheckPrefixResult::NoMatch:
-- 
2.43.0


From 92fd13a1e34d7cc150979eddb82c0d233db436be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 004/105] fix: ART-OLC range reads at the bounds (missing or
 leaf child, leaf outside the range, bounds parting inside a prefix)

---
 ARTOLC/Tree.cpp | 36 ++++++++++++++++++++++++++++++++----
 ARTOLC/Tree.h   |  2 ++
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index b28a205..8c014ca 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -122,10 +122,17 @@ namespace ART_OLC {
                 }
             }
         };
-        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart = [&copy, &start, &findStart, &toContinue, this](
+        // a leaf met on the path of a bound shares only a part of its key with the bound
+        auto compareLeaf = [this](const N *leaf, const Key &bound) -> int64_t {
+            Key kt;
+            loadKey(N::getLeaf(leaf), kt);
+            int cmp = memcmp(&kt[0], &bound[0], std::min(kt.getKeyLen(), bound.getKeyLen()));
+            return cmp != 0 ? cmp : static_cast<int64_t>(kt.getKeyLen()) - static_cast<int64_t>(bound.getKeyLen());
+        };
+        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart = [&copy, &compareLeaf, &start, &findStart, &toContinue, this](
                 N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
             if (N::isLeaf(node)) {
-                copy(node);
+                if (compareLeaf(node, start) >= 0) copy(node);
                 return;
             }
             uint64_t v;
@@ -156,7 +163,7 @@ namespace ART_OLC {
                         return;
                     }
                     if (N::isLeaf(node)) {
-                        copy(node);
+                        if (compareLeaf(node, start) >= 0) copy(node);
                         return;
                     }
                     goto readAgain;
@@ -192,9 +199,10 @@ namespace ART_OLC {
                     break;
             }
         };
-        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd = [&copy, &end, &toContinue, &findEnd, this](
+        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd = [&copy, &compareLeaf, &end, &toContinue, &findEnd, this](
                 N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
             if (N::isLeaf(node)) {
+                if (compareLeaf(node, end) < 0) copy(node);
                 return;
             }
             uint64_t v;
@@ -223,6 +231,7 @@ namespace ART_OLC {
                         return;
                     }
                     if (N::isLeaf(node)) {
+                        if (compareLeaf(node, end) < 0) copy(node);
                         return;
                     }
                     goto readAgain;
@@ -268,6 +277,7 @@ namespace ART_OLC {
         resultsFound = 0;
 
         uint32_t level = 0;
+        uint8_t nodeKey = 0;
         N *node = nullptr;
         N *nextNode = root;
         N *parentNode;
@@ -278,6 +288,7 @@ namespace ART_OLC {
             parentNode = node;
             vp = v;
             node = nextNode;
+            const uint32_t nodeLevel = level;
             PCEqualsResults prefixResult;
             v = node->readLockOrRestart(needRestart);
             if (needRestart) goto restart;
@@ -298,6 +309,14 @@ namespace ART_OLC {
                     copy(node);
                     break;
                 }
+                case PCEqualsResults::StartMatch: {
+                    findStart(node, nodeKey, nodeLevel, parentNode, vp);
+                    break;
+                }
+                case PCEqualsResults::EndMatch: {
+                    findEnd(node, nodeKey, nodeLevel, parentNode, vp);
+                    break;
+                }
                 case PCEqualsResults::BothMatch: {
                     uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
                     uint8_t endLevel = (end.getKeyLen() > level) ? end[level] : 255;
@@ -323,6 +342,12 @@ namespace ART_OLC {
                         nextNode = N::getChild(startLevel, node);
                         node->readUnlockOrRestart(v, needRestart);
                         if (needRestart) goto restart;
+                        if (nextNode == nullptr) return false;
+                        if (N::isLeaf(nextNode)) {
+                            if (compareLeaf(nextNode, start) >= 0 && compareLeaf(nextNode, end) < 0) copy(nextNode);
+                            break;
+                        }
+                        nodeKey = startLevel;
                         level++;
                         continue;
                     }
@@ -660,6 +685,9 @@ namespace ART_OLC {
                     return PCEqualsResults::Contained;
                 } else if (curKey < startLevel || curKey > endLevel) {
                     return PCEqualsResults::NoMatch;
+                } else if (startLevel != endLevel) {
+                    // the bounds part here, below this byte only one of them counts
+                    return curKey == startLevel ? PCEqualsResults::StartMatch : PCEqualsResults::EndMatch;
                 }
                 ++level;
             }
diff --git a/ARTOLC/Tree.h b/ARTOLC/Tree.h
index c104314..4eb0099 100644
--- a/ARTOLC/Tree.h
+++ b/ARTOLC/Tree.h
@@ -42,6 +42,8 @@ namespace ART_OLC {
         };
         enum class PCEqualsResults : uint8_t {
             BothMatch,
+            StartMatch,
+            EndMatch,
             Contained,
             NoMatch
         };
-- 
2.43.0


From fd5c553121575fe8fca43d4383f56d03f3806472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:35 +0000
Subject: [PATCH 005/105] fix: OptiQL ART range reads at the bounds (missing or
 leaf child, leaf outside the range, bounds parting inside a prefix)

---
 OptiQL/Tree.cpp | 67 +++++++++++++++++++++++++++++++++++++++++--------
 OptiQL/Tree.h   |  2 +-
 2 files changed, 57 insertions(+), 12 deletions(-)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index cb229b2..b77772f 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -109,11 +109,19 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
       }
     }
   };
+  // a leaf met on the path of a bound shares only a part of its key with the bound
+  auto compareLeaf = [this](const N *leaf, const Key &bound) -> int64_t {
+    Key kt;
+    loadKey(N::getLeaf(leaf), kt);
+    int cmp = memcmp(&kt[0], &bound[0], std::min(kt.getKeyLen(), bound.getKeyLen()));
+    return cmp != 0 ? cmp
+                    : static_cast<int64_t>(kt.getKeyLen()) - static_cast<int64_t>(bound.getKeyLen());
+  };
   std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart =
-      [&copy, &start, &findStart, &toContinue, this](N *node, uint8_t nodeK, uint32_t level,
-                                                     const N *parentNode, uint64_t vp) {
+      [&copy, &compareLeaf, &start, &findStart, &toContinue, this](N *node, uint8_t nodeK, uint32_t level,
+                                                                   const N *parentNode, uint64_t vp) {
         if (N::isLeaf(node)) {
-          copy(node);
+          if (compareLeaf(node, start) >= 0) copy(node);
           return;
         }
         uint64_t v;
@@ -144,7 +152,7 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
               return;
             }
             if (N::isLeaf(node)) {
-              copy(node);
+              if (compareLeaf(node, start) >= 0) copy(node);
               return;
             }
             goto readAgain;
@@ -181,9 +189,10 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
         }
       };
   std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd =
-      [&copy, &end, &toContinue, &findEnd, this](N *node, uint8_t nodeK, uint32_t level,
-                                                 const N *parentNode, uint64_t vp) {
+      [&copy, &compareLeaf, &end, &toContinue, &findEnd, this](N *node, uint8_t nodeK, uint32_t level,
+                                                               const N *parentNode, uint64_t vp) {
         if (N::isLeaf(node)) {
+          if (compareLeaf(node, end) < 0) copy(node);
           return;
         }
         uint64_t v;
@@ -213,6 +222,7 @@ bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID r
               return;
             }
             if (N::isLeaf(node)) {
+              if (compareLeaf(node, end) < 0) copy(node);
               return;
             }
             goto readAgain;
@@ -254,6 +264,7 @@ restart:
   resultsFound = 0;
 
   uint32_t level = 0;
+  uint8_t nodeKey = 0;
   N *node = nullptr;
   N *nextNode = root;
   N *parentNode;
@@ -264,6 +275,7 @@ restart:
     parentNode = node;
     vp = v;
     node = nextNode;
+    const uint32_t nodeLevel = level;
     PCEqualsResults prefixResult;
     v = node->readLockOrRestart(needRestart);
     if (needRestart) goto restart;
@@ -284,6 +296,14 @@ restart:
         copy(node);
         break;
       }
+      case PCEqualsResults::StartMatch: {
+        findStart(node, nodeKey, nodeLevel, parentNode, vp);
+        break;
+      }
+      case PCEqualsResults::EndMatch: {
+        findEnd(node, nodeKey, nodeLevel, parentNode, vp);
+        break;
+      }
       case PCEqualsResults::BothMatch: {
         uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
         uint8_t endLevel = (end.getKeyLen() > level) ? end[level] : 255;
@@ -309,6 +329,12 @@ restart:
           nextNode = N::getChild(startLevel, node);
           node->readUnlockOrRestart(v, needRestart);
           if (needRestart) goto restart;
+          if (nextNode == nullptr) return false;
+          if (N::isLeaf(nextNode)) {
+            if (compareLeaf(nextNode, start) >= 0 && compareLeaf(nextNode, end) < 0) copy(nextNode);
+            break;
+          }
+          nodeKey = startLevel;
           level++;
           continue;
         }
@@ -350,11 +376,19 @@ bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
       }
     }
   };
+  // a leaf met on the path of a bound shares only a part of its key with the bound
+  auto compareLeaf = [this](const N *leaf, const Key &bound) -> int64_t {
+    Key kt;
+    loadKey(N::getLeaf(leaf), kt);
+    int cmp = memcmp(&kt[0], &bound[0], std::min(kt.getKeyLen(), bound.getKeyLen()));
+    return cmp != 0 ? cmp
+                    : static_cast<int64_t>(kt.getKeyLen()) - static_cast<int64_t>(bound.getKeyLen());
+  };
   std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart =
-      [&copy, &start, &findStart, &toContinue, this](N *node, uint8_t nodeK, uint32_t level,
-                                                     const N *parentNode, uint64_t vp) {
+      [&copy, &compareLeaf, &start, &findStart, &toContinue, this](N *node, uint8_t nodeK, uint32_t level,
+                                                                   const N *parentNode, uint64_t vp) {
         if (N::isLeaf(node)) {
-          copy(node);
+          if (compareLeaf(node, start) >= 0) copy(node);
           return;
         }
         uint64_t v;
@@ -385,7 +419,7 @@ bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
               return;
             }
             if (N::isLeaf(node)) {
-              copy(node);
+              if (compareLeaf(node, start) >= 0) copy(node);
               return;
             }
             goto readAgain;
@@ -454,8 +488,11 @@ restart:
       case PCCompareResults::Smaller: {
         return false;
       }
-      case PCCompareResults::Equal:
       case PCCompareResults::Bigger: {
+        copy(node);
+        break;
+      }
+      case PCCompareResults::Equal: {
         uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
         uint8_t endLevel = 255;
         if (startLevel != endLevel) {
@@ -478,6 +515,11 @@ restart:
           nextNode = N::getChild(startLevel, node);
           node->readUnlockOrRestart(v, needRestart);
           if (needRestart) goto restart;
+          if (nextNode == nullptr) return false;
+          if (N::isLeaf(nextNode)) {
+            if (compareLeaf(nextNode, start) >= 0) copy(nextNode);
+            break;
+          }
           level++;
           continue;
         }
@@ -1432,6 +1474,9 @@ typename Tree::PCEqualsResults Tree::checkPrefixEquals(const N *n, uint32_t &lev
         return PCEqualsResults::Contained;
       } else if (curKey < startLevel || curKey > endLevel) {
         return PCEqualsResults::NoMatch;
+      } else if (startLevel != endLevel) {
+        // the bounds part here, below this byte only one of them counts
+        return curKey == startLevel ? PCEqualsResults::StartMatch : PCEqualsResults::EndMatch;
       }
       ++level;
     }
diff --git a/OptiQL/Tree.h b/OptiQL/Tree.h
index 1b2123c..352395f 100644
--- a/OptiQL/Tree.h
+++ b/OptiQL/Tree.h
@@ -42,7 +42,7 @@ class Tree {
     Equal,
     Bigger,
   };
-  enum class PCEqualsResults : uint8_t { BothMatch, Contained, NoMatch };
+  enum class PCEqualsResults : uint8_t { BothMatch, StartMatch, EndMatch, Contained, NoMatch };
   static CheckPrefixResult checkPrefix(N *n, const Key &k, uint32_t &level);
 
   static CheckPrefixPessimisticResult checkPrefixPessimistic(
-- 
2.43.0


From 79763a605ed3e1b42ae306c60c9564af90092c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 006/105] fix: OptiQL ART path expansion does not underflow for
 one-byte keys

---
 OptiQL/Tree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index b77772f..11a02ad 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -1011,14 +1011,14 @@ expand:
   parentNode->hotness = 0;
 
   N *leaf = nullptr;
-  if (level + 1 <= k.getKeyLen() - 2) {
+  if (level + 3 <= k.getKeyLen()) {
     uint32_t prefixLength = k.getKeyLen() - 2 - (level + 1);
     auto n4p = new N4(&k[level + 1], prefixLength);
     auto n4c = new N4(&k[level + 1 + prefixLength], 0);
     n4p->insert(k[level + 1 + prefixLength], n4c);
     n4c->insert(k[level + 1 + prefixLength + 1], tid);
     leaf = n4p;
-  } else if (level + 1 == k.getKeyLen() - 1) {
+  } else if (level + 2 == k.getKeyLen()) {
     auto n4 = new N4(&k[level + 1], 0);
     n4->insert(k[level + 1], tid);
     leaf = n4;
-- 
2.43.0


From d732df6e38b3c8633b8c29797afe6f48f80e073c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 007/105] fix: ART inserts validate the parent before they
 compare keys at the level of a node

---
 ARTOLC/Tree.cpp | 5 +++++
 OptiQL/Tree.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index 8c014ca..1aa5127 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -395,6 +395,11 @@ namespace ART_OLC {
             node = nextNode;
             auto v = node->readLockOrRestart(needRestart);
             if (needRestart) goto restart;
+            if (parentNode != nullptr) {
+                // node may have moved up or down while it was not yet locked
+                parentNode->readUnlockOrRestart(parentVersion, needRestart);
+                if (needRestart) goto restart;
+            }
 
             uint32_t nextLevel = level;
 
diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index 11a02ad..b4c8b11 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -558,6 +558,11 @@ restart:
     node = nextNode;
     auto v = node->readLockOrRestart(needRestart);
     if (needRestart) goto restart;
+    if (parentNode != nullptr) {
+      // node may have moved up or down while it was not yet locked
+      parentNode->readUnlockOrRestart(parentVersion, needRestart);
+      if (needRestart) goto restart;
+    }
 
     uint32_t nextLevel = level;
 
-- 
2.43.0


From 4a3ee5abb10cdbbab629962b07473b5f2b9cabff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 008/105] fix: OptiQL ART update validates the last level
 before it reports a key as absent

---
 OptiQL/Tree.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index b4c8b11..afc8cd7 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -695,10 +695,8 @@ restart:
         }
         parentNode = node;
         node = N::getChild(k[level], parentNode);
-        if (level < k.getKeyLen() - 1) {
-          parentNode->checkOrRestart(v, needRestart);
-          if (needRestart) goto restart;
-        }
+        parentNode->checkOrRestart(v, needRestart);
+        if (needRestart) goto restart;
 
         if (node == nullptr) {
           if (lockAcquired) {
-- 
2.43.0


From 7b1e5f62fa4e4c9e32aaf706271323ef5b39f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 009/105] fix: OptiQL ART reads a node's prefix length once
 while it compares keys optimistically

---
 OptiQL/Tree.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index afc8cd7..7b7c5ca 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -1377,18 +1377,20 @@ restart:
 }
 
 inline typename Tree::CheckPrefixResult Tree::checkPrefix(N *n, const Key &k, uint32_t &level) {
-  if (n->hasPrefix()) {
-    if (k.getKeyLen() <= level + n->getPrefixLength()) {
+  // n may change concurrently: its prefix length is read only once
+  const uint32_t prefixLength = n->getPrefixLength();
+  if (prefixLength > 0) {
+    if (k.getKeyLen() <= level + prefixLength) {
       return CheckPrefixResult::NoMatch;
     }
-    for (uint32_t i = 0; i < std::min(n->getPrefixLength(), maxStoredPrefixLength); ++i) {
+    for (uint32_t i = 0; i < std::min(prefixLength, maxStoredPrefixLength); ++i) {
       if (n->getPrefix()[i] != k[level]) {
         return CheckPrefixResult::NoMatch;
       }
       ++level;
     }
-    if (n->getPrefixLength() > maxStoredPrefixLength) {
-      level = level + (n->getPrefixLength() - maxStoredPrefixLength);
+    if (prefixLength > maxStoredPrefixLength) {
+      level = level + (prefixLength - maxStoredPrefixLength);
       return CheckPrefixResult::OptimisticMatch;
     }
   }
-- 
2.43.0


From 599bba42cce0dea84b76f3d9c6a295407ed461f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 010/105] fix: OptiQL latch refuses to upgrade an opportunistic
 read

While a latch is handed over, the lock word of a queue with waiters is a valid read version.
try_lock() exchanged that word, so the upgrading thread entered next to the waiter it cut off.
---
 OptiQL/latches/OMCSImpl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/OptiQL/latches/OMCSImpl.h b/OptiQL/latches/OMCSImpl.h
index 3c32147..86baa6c 100644
--- a/OptiQL/latches/OMCSImpl.h
+++ b/OptiQL/latches/OMCSImpl.h
@@ -207,7 +207,8 @@ class OMCSLock {
   }
 
   bool try_lock(uint64_t version) {
-    if (!validate_read(version)) {
+    // the version of an opportunistic read can not be upgraded, the latch is about to be granted to a waiter
+    if (has_locked_bit(version) || !validate_read(version)) {
       return false;
     }
 
@@ -347,7 +348,8 @@ class OMCSLock {
   }
 
   inline bool try_lock(OMCSQNode *qnode, uint64_t version) {
-    if (!validate_read(version)) {
+    // the version of an opportunistic read can not be upgraded, the latch is about to be granted to a waiter
+    if (has_locked_bit(version) || !validate_read(version)) {
       return false;
     }
 
-- 
2.43.0


From 1a0b8c115a60df9561f22faccfd17d6e580e4a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 011/105] fix: BTreeOLC lookup initialises its result

A lookup of an absent key returned an uninitialised bool.
---
 BTreeOLC/BTreeOLC.h              | 2 +-
 BTreeOLC/BTreeOLC_child_layout.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BTreeOLC/BTreeOLC.h b/BTreeOLC/BTreeOLC.h
index e7826a9..10cc283 100644
--- a/BTreeOLC/BTreeOLC.h
+++ b/BTreeOLC/BTreeOLC.h
@@ -391,7 +391,7 @@ struct BTree {
 
     BTreeLeaf<Key,Value>* leaf = static_cast<BTreeLeaf<Key,Value>*>(node);
     unsigned pos = leaf->lowerBound(k);
-    bool success;
+    bool success = false;
     if ((pos<leaf->count) && (leaf->keys[pos]==k)) {
       success = true;
       result = leaf->payloads[pos];
diff --git a/BTreeOLC/BTreeOLC_child_layout.h b/BTreeOLC/BTreeOLC_child_layout.h
index 2f8e953..94fd1e2 100644
--- a/BTreeOLC/BTreeOLC_child_layout.h
+++ b/BTreeOLC/BTreeOLC_child_layout.h
@@ -390,7 +390,7 @@ struct BTree {
 
     BTreeLeaf<Key,Value>* leaf = static_cast<BTreeLeaf<Key,Value>*>(node);
     unsigned pos = leaf->lowerBound(k);
-    bool success;
+    bool success = false;
     if ((pos<leaf->count) && (leaf->data[pos].first==k)) {
       success = true;
       result = leaf->data[pos].second;
-- 
2.43.0


From f697ec52ba95a2408863a1d9b530fe57817d76b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 012/105] fix: HOT upsert reports a new key next to a single
 stored one as new

---
 HOT/include/hot/rowex/HOTRowex.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index ac38163..4aeae42 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -164,7 +164,8 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 				upsertCompleted = mRoot.compareAndSwap(currentRoot, HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
 				upsertResult = { true, existingValue };
 			} else {
-				insertGuarded(newValue);
+				//a concurrent insert of the same key makes this one fail
+				upsertCompleted = insertGuarded(newValue);
 			}
 		} else {
 			HOTRowexChildPointer newRootPointer(idx::contenthelpers::valueToTid(newValue));
-- 
2.43.0


From 705a1eea7e0ff4c158e5429220b9433784e11ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 013/105] fix: HOT upsert replaces a value only when its leaf
 is unchanged under the lock

---
 HOT/include/hot/rowex/HOTRowex.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index 4aeae42..e557c09 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -150,11 +150,13 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 				InsertStackEntryType &leafEntry = *insertStack.mLeafEntry;
 				InsertStackEntryType* parentEntry = insertStack.mLeafEntry - 1;
 				if(parentEntry->tryLock()) { //Check for consistency
-					ValueType const &existingValue = idx::contenthelpers::tidToValue<ValueType>(
-						leafEntry.getChildPointer().getTid());
-					leafEntry.updateChildPointer(HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
-					upsertResult = idx::contenthelpers::OptionalValue<ValueType> {true, existingValue};
-					upsertCompleted = true;
+					if(insertStack.isConsistent(parentEntry, 1)) {
+						ValueType const &existingValue = idx::contenthelpers::tidToValue<ValueType>(
+							leafEntry.getChildPointer().getTid());
+						leafEntry.updateChildPointer(HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
+						upsertResult = idx::contenthelpers::OptionalValue<ValueType> {true, existingValue};
+						upsertCompleted = true;
+					}
 					parentEntry->unlock();
 				}
 			}
-- 
2.43.0


From aee4f4b52d377dd87b20213173a3a366b11f6955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 014/105] fix: HOT lookup in an empty trie finds nothing

---
 HOT/include/hot/rowex/HOTRowex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index e557c09..db4832c 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -64,6 +64,9 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 	uint8_t const* byteKey = idx::contenthelpers::interpretAsByteArray(fixedSizeKey);
 
 	HOTRowexChildPointer current =  mRoot;
+	if(!current.isUsed()) {
+		return {};
+	}
 	while(!current.isLeaf()) {
 		current = *(current.search(byteKey));
 	}
-- 
2.43.0


From ba95a0e7ddf45f038179bfbeab42e48e0bcd0c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:26 +0000
Subject: [PATCH 015/105] fix: HOT bounds in a trie with a single entry

---
 HOT/include/hot/rowex/HOTRowexIterator.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/HOT/include/hot/rowex/HOTRowexIterator.hpp b/HOT/include/hot/rowex/HOTRowexIterator.hpp
index 1718c7a..9250a4c 100644
--- a/HOT/include/hot/rowex/HOTRowexIterator.hpp
+++ b/HOT/include/hot/rowex/HOTRowexIterator.hpp
@@ -57,11 +57,9 @@ public:
 
 	static inline HOTRowexSynchronizedIterator getBounded(HOTRowexChildPointer const * rootPointer, KeyType const & searchKey, bool isLowerBound, EpochBasedMemoryReclamationStrategy * const & memoryReclamationStrategy) {
 		MemoryGuard guard(memoryReclamationStrategy);
-		HOTRowexChildPointer const & currentRoot = *rootPointer;
+		HOTRowexChildPointer const currentRoot = *rootPointer;
 
-		return (currentRoot.isLeaf()
-				&& idx::contenthelpers::contentEquals(searchKey, extractKey(idx::contenthelpers::tidToValue<ValueType>(currentRoot.getTid())))
-			   ) || currentRoot.isAValidNode()
+		return currentRoot.isUsed()
 			   ? HOTRowexSynchronizedIterator(rootPointer, currentRoot, searchKey, isLowerBound, memoryReclamationStrategy, guard)
 			   : END_ITERATOR;
 	}
@@ -209,6 +207,12 @@ private:
 		idx::contenthelpers::OptionalValue<hot::commons::DiscriminativeBit> mismatchingBit = hot::commons::getMismatchingBit(existingKeyBytes, searchKeyBytes, idx::contenthelpers::getMaxKeyLength<KeyType>());
 
 		if(mismatchingBit.mIsValid) {
+			if(currentStackEntry == currentStackRoot) {
+				//the root is a single leaf
+				return mismatchingBit.mValue.mValue
+					   ? HotRowexIteratorBufferState<KeyType>(bufferRoot)
+					   : fillBuffer({ bufferRoot }, { currentStackRoot, ITERATOR_FILL_BUFFER_STATE_STORE, currentStackEntry }, guard);
+			}
 			HOTRowexChildPointer const * childPointerLocation = currentStackEntry->getCurrentPointerLocation();
 			--mMostSignificantBitIndex;
 			--currentStackEntry;
-- 
2.43.0


From bd7372086392442402ecc8ee8790df44c69b1b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 016/105] fix: HOT pads keys shorter than eight bytes, as their
 bits are extracted eight bytes at a time

---
 HOT/include/idx/contenthelpers/KeyUtilities.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/HOT/include/idx/contenthelpers/KeyUtilities.hpp b/HOT/include/idx/contenthelpers/KeyUtilities.hpp
index aeca380..5d48767 100644
--- a/HOT/include/idx/contenthelpers/KeyUtilities.hpp
+++ b/HOT/include/idx/contenthelpers/KeyUtilities.hpp
@@ -61,7 +61,14 @@ template<> inline size_t getKeyLength<char const *>(char const * const & key) {
 }
 
 template<typename KeyType> inline __attribute__((always_inline)) auto toFixSizedKey(KeyType const & key) {
-	return key;
+	if constexpr (sizeof(KeyType) >= sizeof(uint64_t)) {
+		return key;
+	} else {
+		//partial keys are extracted from eight bytes at a time
+		std::array<uint8_t, sizeof(uint64_t)> fixedSizeKey {};
+		std::memcpy(fixedSizeKey.data(), &key, sizeof(KeyType));
+		return fixedSizeKey;
+	}
 }
 
 /**
-- 
2.43.0


From d170beb34cc01ea1718afeb21a35a3d58252a7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 017/105] fix: HOT ordered reads do not read the slot of the
 search path again at the lower bound

---
 HOT/include/hot/rowex/HOTRowexIterator.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/HOT/include/hot/rowex/HOTRowexIterator.hpp b/HOT/include/hot/rowex/HOTRowexIterator.hpp
index 9250a4c..ea1d8a1 100644
--- a/HOT/include/hot/rowex/HOTRowexIterator.hpp
+++ b/HOT/include/hot/rowex/HOTRowexIterator.hpp
@@ -234,7 +234,10 @@ private:
 				if(nextEntryLocation >= existingNode.end()) {
 					return HOTRowexSynchronizedIteratorStackState(currentStackRoot, HOTRowexSynchronizedIterator::ascendOrAdvance(currentStackEntry), currentStackEntry);
 				} else {
-					(++currentStackEntry)->init(nextEntryLocation, existingNode.end());
+					//the entry on the search path is not read again, as its new content might contain keys smaller than the search key
+					if((++currentStackEntry)->getCurrentPointerLocation() != nextEntryLocation) {
+						currentStackEntry->init(nextEntryLocation, existingNode.end());
+					}
 					return HOTRowexSynchronizedIteratorStackState(currentStackRoot, HOTRowexSynchronizedIterator::descendOrStore(currentStackEntry), currentStackEntry );
 				}
 			}), guard);
-- 
2.43.0


From aac97fcda614599336ebf2561624a1a957bfc857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 018/105] fix: look up the tree's root when a Masstree layer is
 collected, the node seen at removal may be freed by then

---
 MassTree/masstree_remove.hh  | 25 +++++++++++--------------
 MassTree/masstree_tcursor.hh | 16 ++++++----------
 2 files changed, 17 insertions(+), 24 deletions(-)

diff --git a/MassTree/masstree_remove.hh b/MassTree/masstree_remove.hh
index b1a749d..568f8fe 100644
--- a/MassTree/masstree_remove.hh
+++ b/MassTree/masstree_remove.hh
@@ -117,28 +117,25 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
 template <typename P>
 struct gc_layer_rcu_callback : public P::threadinfo_type::mrcu_callback {
     typedef typename P::threadinfo_type threadinfo;
-    node_base<P>* root_;
+    basic_table<P>* table_; // a node might be freed before we run
     int len_;
     char s_[0];
-    gc_layer_rcu_callback(node_base<P>* root, Str prefix)
-        : root_(root), len_(prefix.length()) {
+    gc_layer_rcu_callback(basic_table<P>* table, Str prefix)
+        : table_(table), len_(prefix.length()) {
         memcpy(s_, prefix.data(), len_);
     }
     void operator()(threadinfo& ti);
     size_t size() const {
         return len_ + sizeof(*this);
     }
-    static void make(node_base<P>* root, Str prefix, threadinfo& ti);
+    static void make(basic_table<P>* table, Str prefix, threadinfo& ti);
 };
 
 template <typename P>
 void gc_layer_rcu_callback<P>::operator()(threadinfo& ti)
 {
-    while (!root_->is_root()) {
-        root_ = root_->maybe_parent();
-    }
-    if (!root_->deleted()) {    // if not destroying tree...
-        tcursor<P> lp(root_, s_, len_);
+    if (table_->root()) {       // if not destroying tree...
+        tcursor<P> lp(*table_, s_, len_);
         bool do_remove = lp.gc_layer(ti);
         if (!do_remove || !lp.finish_remove(ti)) {
             lp.n_->unlock();
@@ -148,13 +145,13 @@ void gc_layer_rcu_callback<P>::operator()(threadinfo& ti)
 }
 
 template <typename P>
-void gc_layer_rcu_callback<P>::make(node_base<P>* root, Str prefix,
+void gc_layer_rcu_callback<P>::make(basic_table<P>* table, Str prefix,
                                     threadinfo& ti)
 {
     size_t sz = prefix.len + sizeof(gc_layer_rcu_callback<P>);
     void *data = ti.allocate(sz, memtag_masstree_gc);
     gc_layer_rcu_callback<P> *cb =
-        new(data) gc_layer_rcu_callback<P>(root, prefix);
+        new(data) gc_layer_rcu_callback<P>(table, prefix);
     ti.rcu_register(cb);
 }
 
@@ -171,17 +168,17 @@ bool tcursor<P>::finish_remove(threadinfo& ti) {
     if (perm.size()) {
         return false;
     } else {
-        return remove_leaf(n_, root_, ka_.prefix_string(), ti);
+        return remove_leaf(n_, table_, ka_.prefix_string(), ti);
     }
 }
 
 template <typename P>
-bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
+bool tcursor<P>::remove_leaf(leaf_type* leaf, basic_table<P>* table,
                              Str prefix, threadinfo& ti)
 {
     if (!leaf->prev_) {
         if (!leaf->next_.ptr && !prefix.empty()) {
-            gc_layer_rcu_callback<P>::make(root, prefix, ti);
+            gc_layer_rcu_callback<P>::make(table, prefix, ti);
         }
         return false;
     }
diff --git a/MassTree/masstree_tcursor.hh b/MassTree/masstree_tcursor.hh
index b3782dd..7ec4d4f 100644
--- a/MassTree/masstree_tcursor.hh
+++ b/MassTree/masstree_tcursor.hh
@@ -106,19 +106,14 @@ class tcursor {
     typedef small_vector<std::pair<leaf_type*, nodeversion_value_type>, new_nodes_size> new_nodes_type;
 
     tcursor(basic_table<P>& table, Str str)
-        : ka_(str), root_(table.fix_root()) {
+        : ka_(str), table_(&table), root_(table.fix_root()) {
     }
     tcursor(basic_table<P>& table, const char* s, int len)
-        : ka_(s, len), root_(table.fix_root()) {
+        : ka_(s, len), table_(&table), root_(table.fix_root()) {
     }
     tcursor(basic_table<P>& table, const unsigned char* s, int len)
-        : ka_(reinterpret_cast<const char*>(s), len), root_(table.fix_root()) {
-    }
-    tcursor(node_base<P>* root, const char* s, int len)
-        : ka_(s, len), root_(root) {
-    }
-    tcursor(node_base<P>* root, const unsigned char* s, int len)
-        : ka_(reinterpret_cast<const char*>(s), len), root_(root) {
+        : ka_(reinterpret_cast<const char*>(s), len), table_(&table),
+          root_(table.fix_root()) {
     }
 
     inline bool has_value() const {
@@ -164,6 +159,7 @@ class tcursor {
     leaf_type* n_;
     key_type ka_;
     key_indexed_position kx_;
+    basic_table<P>* table_;
     node_base<P>* root_;
     int state_;
 
@@ -190,7 +186,7 @@ class tcursor {
      *   If removing a leaf in layer 0, @a prefix is empty.
      *   If removing, for example, the node containing key "01234567ABCDEF" in the layer-1 tree
      *   rooted at "01234567", then @a prefix should equal "01234567". */
-    static bool remove_leaf(leaf_type* leaf, node_type* root,
+    static bool remove_leaf(leaf_type* leaf, basic_table<P>* table,
                             Str prefix, threadinfo& ti);
 
     bool gc_layer(threadinfo& ti);
-- 
2.43.0


From e6032c18b0197676b62ec673c44a7ef2e95a3290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 019/105] fix: retire Masstree nodes only after unlinking them,
 or a reader of a later epoch can reach freed memory

---
 MassTree/masstree_remove.hh | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/MassTree/masstree_remove.hh b/MassTree/masstree_remove.hh
index 568f8fe..2a750b5 100644
--- a/MassTree/masstree_remove.hh
+++ b/MassTree/masstree_remove.hh
@@ -105,8 +105,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
         }
         lf->mark_deleted_layer();   // NB DO NOT mark as deleted (see above)
         lf->unlock();
-        lf->deallocate_rcu(ti);
-        return true;
+        return true;            // the caller unlinks the leaf, then frees it
     }
 
  unlock_layer:
@@ -137,9 +136,16 @@ void gc_layer_rcu_callback<P>::operator()(threadinfo& ti)
     if (table_->root()) {       // if not destroying tree...
         tcursor<P> lp(*table_, s_, len_);
         bool do_remove = lp.gc_layer(ti);
+        leaf<P>* lf = nullptr;
+        if (do_remove) {
+            lf = static_cast<leaf<P>*>(lp.n_->lv_[lp.kx_.p].layer());
+        }
         if (!do_remove || !lp.finish_remove(ti)) {
             lp.n_->unlock();
         }
+        if (lf) {
+            lf->deallocate_rcu(ti);
+        }
         ti.deallocate(this, size(), memtag_masstree_gc);
     }
 }
@@ -183,9 +189,8 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, basic_table<P>* table,
         return false;
     }
 
-    // mark leaf deleted, RCU-free
+    // mark leaf deleted
     leaf->mark_deleted();
-    leaf->deallocate_rcu(ti);
 
     // Ensure node that becomes responsible for our keys has its phantom epoch
     // kept up to date
@@ -235,6 +240,12 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, basic_table<P>* table,
         }
 
         n->unlock();
+        // RCU-free only now that no new reader can reach the node
+        if (n == leaf) {
+            leaf->deallocate_rcu(ti);
+        } else {
+            static_cast<internode_type*>(n)->deallocate_rcu(ti);
+        }
         n = p;
 
         if (p->nkeys_ || p->is_root()) {
@@ -242,7 +253,6 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, basic_table<P>* table,
         }
 
         p->mark_deleted();
-        p->deallocate_rcu(ti);
         replacement = p->child_[0];
         p->child_[0] = nullptr;
     }
-- 
2.43.0


From d752601f91a6197e0fded97c3a12ae9bc1a7c75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 020/105] fix: retire replaced and removed Masstree rows only
 after unlinking them

---
 MassTree/kvrow.hh | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/MassTree/kvrow.hh b/MassTree/kvrow.hh
index a92c9b2..12db5a7 100644
--- a/MassTree/kvrow.hh
+++ b/MassTree/kvrow.hh
@@ -185,7 +185,6 @@ inline bool query<R>::apply_put(R*& value, bool found, const Json* firstreq,
     }
 
     if (!found) {
-    insert:
         assign_timestamp(ti);
         value = R::create(firstreq, lastreq, qtimes_.ts, ti);
         return true;
@@ -194,8 +193,10 @@ inline bool query<R>::apply_put(R*& value, bool found, const Json* firstreq,
     R* old_value = value;
     assign_timestamp(ti, old_value->timestamp());
     if (row_is_marker(old_value)) {
+        assign_timestamp(ti);
+        value = R::create(firstreq, lastreq, qtimes_.ts, ti);
         old_value->deallocate_rcu(ti);
-        goto insert;
+        return true;
     }
 
     R* updated = old_value->update(firstreq, lastreq, qtimes_.ts, ti);
@@ -227,14 +228,17 @@ inline bool query<R>::apply_replace(R*& value, bool found, Str new_value,
     }
 
     bool inserted = !found || row_is_marker(value);
+    R* old_value = found ? value : nullptr;
     if (!found) {
         assign_timestamp(ti);
     } else {
-        assign_timestamp(ti, value->timestamp());
-        value->deallocate_rcu(ti);
+        assign_timestamp(ti, old_value->timestamp());
     }
 
     value = R::create1(new_value, qtimes_.ts, ti);
+    if (old_value) {
+        old_value->deallocate_rcu(ti);
+    }
     return inserted;
 }
 
@@ -242,9 +246,12 @@ template <typename R> template <typename T>
 bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     typename T::cursor_type lp(table, key);
     bool found = lp.find_locked(ti);
+    R* old_value = found ? lp.value() : nullptr;
     if (found)
         apply_remove(lp.value(), lp.node()->phantom_epoch_[0], ti);
     lp.finish(-1, ti);
+    if (found)
+        old_value->deallocate_rcu(ti);
     return found;
 }
 
@@ -261,7 +268,6 @@ inline void query<R>::apply_remove(R*& value, kvtimestamp_t& node_ts,
     if (circular_int<kvtimestamp_t>::less_equal(node_ts, qtimes_.ts)) {
         node_ts = qtimes_.ts + 2;
     }
-    old_value->deallocate_rcu(ti);
 }
 
 
-- 
2.43.0


From aa77116d87047a0c2159c9f15e8280d816b4c71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 021/105] fix: ART inserts restart when the key loaded for a
 node's prefix is too short for it, instead of reading beyond the key

---
 ARTOLC/Tree.cpp | 8 ++++++++
 OptiQL/Tree.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index 1aa5127..186488f 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -625,6 +625,10 @@ namespace ART_OLC {
                     auto anyTID = N::getAnyChildTid(n, needRestart);
                     if (needRestart) return CheckPrefixPessimisticResult::Match;
                     loadKey(anyTID, kt);
+                    if (kt.getKeyLen() < prevLevel + prefixLength) { // n has changed
+                        needRestart = true;
+                        return CheckPrefixPessimisticResult::Match;
+                    }
                 }
                 uint8_t curKey = i >= maxStoredPrefixLength ? kt[level] : n->getPrefix()[i];
                 if (curKey != k[level]) {
@@ -634,6 +638,10 @@ namespace ART_OLC {
                             auto anyTID = N::getAnyChildTid(n, needRestart);
                             if (needRestart) return CheckPrefixPessimisticResult::Match;
                             loadKey(anyTID, kt);
+                            if (kt.getKeyLen() < prevLevel + prefixLength) { // n has changed
+                                needRestart = true;
+                                return CheckPrefixPessimisticResult::Match;
+                            }
                         }
                         memcpy(nonMatchingPrefix, &kt[0] + level + 1, std::min((prefixLength - (level - prevLevel) - 1),
                                                                            maxStoredPrefixLength));
diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index 7b7c5ca..17c05b0 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -1412,6 +1412,10 @@ typename Tree::CheckPrefixPessimisticResult Tree::checkPrefixPessimistic(
         auto anyTID = N::getAnyChildTid(n, needRestart);
         if (needRestart) return CheckPrefixPessimisticResult::Match;
         loadKey(anyTID, kt);
+        if (kt.getKeyLen() < prevLevel + prefixLen) {  // n has changed
+          needRestart = true;
+          return CheckPrefixPessimisticResult::Match;
+        }
       }
       uint8_t curKey = i >= maxStoredPrefixLength ? kt[level] : n->getPrefix()[i];
       if (curKey != k[level]) {
@@ -1421,6 +1425,10 @@ typename Tree::CheckPrefixPessimisticResult Tree::checkPrefixPessimistic(
             auto anyTID = N::getAnyChildTid(n, needRestart);
             if (needRestart) return CheckPrefixPessimisticResult::Match;
             loadKey(anyTID, kt);
+            if (kt.getKeyLen() < prevLevel + prefixLen) {  // n has changed
+              needRestart = true;
+              return CheckPrefixPessimisticResult::Match;
+            }
           }
           memcpy(nonMatchingPrefix, &kt[0] + level + 1,
                  std::min((prefixLen - (level - prevLevel) - 1), maxStoredPrefixLength));
-- 
2.43.0


From 367b1df39fc7df5a75902622b866a97e8544f41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 022/105] fix: whunsafe_delr does nothing when the end of the
 range precedes its start

---
 wormhole/wh.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wormhole/wh.c b/wormhole/wh.c
index ffb1da6..d0a6ed9 100644
--- a/wormhole/wh.c
+++ b/wormhole/wh.c
@@ -3047,6 +3047,9 @@ whsafe_delr(struct wormref * const ref, const struct kref * const start,
 whunsafe_delr(struct wormhole * const map, const struct kref * const start,
     const struct kref * const end)
 {
+  if (end && (kref_compare(start, end) > 0)) // do nothing if end < start
+    return 0;
+
   // first leaf
   struct wormhmap * const hmap = map->hmap;
   struct wormleaf * const leafa = wormhole_jump_leaf(hmap, start);
-- 
2.43.0


From 7b9934294aeff13c2d5509784acc104c37479e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 023/105] fix: qsbr_wait no longer follows the null pointer of
 a slot that a first registration has claimed but not yet filled

---
 wormhole/lib.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wormhole/lib.c b/wormhole/lib.c
index 8c67e10..8bf030f 100644
--- a/wormhole/lib.c
+++ b/wormhole/lib.c
@@ -2866,6 +2866,10 @@ qsbr_create(void)
 {
   struct qsbr * const q = yalloc(sizeof(*q));
   memset(q, 0, sizeof(*q));
+  // a slot that qsbr_register() has claimed but not yet filled counts as parked
+  for (u32 i = 0; i < QSBR_SHARD_NR; i++)
+    for (u32 j = 0; j < QSBR_STATES_NR; j++)
+      atomic_store_explicit(&q->shards[i].ptrs[j], (u64)(&q->target), MO_RELAXED);
   return q;
 }
 
-- 
2.43.0


From 529b7b102a6dffe8762c031df18f4572812e33f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 024/105] fix: order qsbr registration and resumption before
 the reads that follow, so that qsbr_wait does not take an active reader for a
 parked one

---
 wormhole/lib.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wormhole/lib.c b/wormhole/lib.c
index 8bf030f..f5703ac 100644
--- a/wormhole/lib.c
+++ b/wormhole/lib.c
@@ -2913,6 +2913,7 @@ qsbr_register(struct qsbr * const q, struct qsbr_ref * const qref)
       ref->status = 1;
       ref->nbt = backtrace(ref->backtrace, QSBR_DEBUG_BTNR);
 #endif
+      cpu_mfence(); // see qsbr_resume()
       return true;
     }
   } while (true);
@@ -2970,14 +2971,16 @@ qsbr_resume(struct qsbr_ref * const qref)
 #ifdef QSBR_DEBUG
   ref->status = 0xf; // resumed
 #endif
-  cpu_cfence();
+  // qsbr_wait() must see this ref as active before it reads any shared data
+  cpu_mfence();
 }
 
 // waiters needs external synchronization
   void
 qsbr_wait(struct qsbr * const q, const u64 target)
 {
-  cpu_cfence();
+  // readers not seen as active below must see what was published before the call
+  cpu_mfence();
   qsbr_write_qstate(&q->target, target);
   u64 cbits = 0; // check-bits; each bit corresponds to a shard
   u64 bms[QSBR_SHARD_NR]; // copy of all bitmap
-- 
2.43.0


From 92418caa073abac3aa1d4eb025790eb76505e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 025/105] fix: kvref_dup2_key does not claim a value that it
 has not copied

---
 wormhole/kv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wormhole/kv.c b/wormhole/kv.c
index a1720e8..fbaf805 100644
--- a/wormhole/kv.c
+++ b/wormhole/kv.c
@@ -735,6 +735,7 @@ kvref_dup2_key(struct kvref * const ref, struct kv * const to)
     return NULL;
 
   *new = ref->hdr;
+  new->vlen = 0;
   memcpy(new->kv, ref->kptr, new->klen);
   return new;
 }
-- 
2.43.0


From b99dfa53f58e17cfd4f9dc1dc70b30f892f5e442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:18 +0000
Subject: [PATCH 026/105] fix: strtoks keeps room for the terminating null
 pointer

---
 wormhole/lib.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wormhole/lib.c b/wormhole/lib.c
index f5703ac..719bc5e 100644
--- a/wormhole/lib.c
+++ b/wormhole/lib.c
@@ -2784,7 +2784,7 @@ strtoks(const char * const str, const char * const delim)
   char * tok = strtok_r(buf, delim, &saveptr);
   size_t ntoks = 0;
   while (tok) {
-    if (ntoks >= nptr_alloc) {
+    if (ntoks + 1 >= nptr_alloc) { // keep room for the last NULL
       nptr_alloc += 32;
       char ** const r = realloc(tokens, sizeof(tokens[0]) * nptr_alloc);
       if (r == NULL)
-- 
2.43.0


From b42b4f44baea8dc0ee55bb31200b4db9fde1bfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 027/105] fix: GoogleBTree: std::distance, so that sets and
 maps without std types in their parameters compile

---
 GoogleBTree/btree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GoogleBTree/btree.h b/GoogleBTree/btree.h
index 49310a2..2aae1c3 100644
--- a/GoogleBTree/btree.h
+++ b/GoogleBTree/btree.h
@@ -1091,7 +1091,7 @@ class btree : public Params::key_compare {
   }
   // Returns a count of the number of times the key appears in the btree.
   size_type count_multi(const key_type &key) const {
-    return distance(lower_bound(key), upper_bound(key));
+    return std::distance(lower_bound(key), upper_bound(key));
   }
 
   // Clear the btree, deleting all of the values it contains.
@@ -1921,7 +1921,7 @@ typename btree<P>::iterator btree<P>::erase(iterator iter) {
 
 template <typename P>
 int btree<P>::erase(iterator begin, iterator end) {
-  int count = distance(begin, end);
+  int count = std::distance(begin, end);
   for (int i = 0; i < count; i++) {
     begin = erase(begin);
   }
-- 
2.43.0


From 064e6909071155b1968cf2f24476ba08f81f5c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 028/105] fix: GoogleBTree: binary search with the container's
 own compare-to functor

---
 GoogleBTree/btree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GoogleBTree/btree.h b/GoogleBTree/btree.h
index 2aae1c3..9aefb7e 100644
--- a/GoogleBTree/btree.h
+++ b/GoogleBTree/btree.h
@@ -411,7 +411,7 @@ struct btree_binary_search_plain_compare {
 template <typename K, typename N, typename CompareTo>
 struct btree_binary_search_compare_to {
   static int lower_bound(const K &k, const N &n, CompareTo comp)  {
-    return n.binary_search_compare_to(k, 0, n.count(), CompareTo());
+    return n.binary_search_compare_to(k, 0, n.count(), comp);
   }
   static int upper_bound(const K &k, const N &n, CompareTo comp)  {
     typedef btree_upper_bound_adapter<K,
-- 
2.43.0


From e15eaf537d61ec873d3c3312f445495488fb50c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 029/105] fix: GoogleBTree: inserting a value of the multi
 container itself

---
 GoogleBTree/btree.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GoogleBTree/btree.h b/GoogleBTree/btree.h
index 9aefb7e..244cca1 100644
--- a/GoogleBTree/btree.h
+++ b/GoogleBTree/btree.h
@@ -2204,7 +2204,9 @@ btree<P>::internal_insert(iterator iter, const value_type &v) {
     ++iter.position;
   }
   if (iter.node->count() == iter.node->max_count()) {
-    // Make room in the leaf for the new item.
+    // Make room in the leaf for the new item. This moves values around and can
+    // delete nodes, so if v is a value of this tree it has to be saved first.
+    const value_type copy(v);
     if (iter.node->max_count() < kNodeValues) {
       // Insertion into the root where the root is smaller that the full node
       // size. Simply grow the size of the root node.
@@ -2218,6 +2220,8 @@ btree<P>::internal_insert(iterator iter, const value_type &v) {
       rebalance_or_split(&iter);
       ++*mutable_size();
     }
+    iter.node->insert_value(iter.position, copy);
+    return iter;
   } else if (!root()->leaf()) {
     ++*mutable_size();
   }
-- 
2.43.0


From 7722ca5d19fd7898169630f70a5ebffcbce0cc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 030/105] fix: GoogleBTree: allocate leaves with the size they
 are deallocated with

---
 GoogleBTree/btree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GoogleBTree/btree.h b/GoogleBTree/btree.h
index 244cca1..f30c078 100644
--- a/GoogleBTree/btree.h
+++ b/GoogleBTree/btree.h
@@ -1251,7 +1251,8 @@ class btree : public Params::key_compare {
   }
   node_type* new_leaf_node(node_type *parent) {
     leaf_fields *p = reinterpret_cast<leaf_fields*>(
-        mutable_internal_allocator()->allocate(sizeof(leaf_fields)));
+        mutable_internal_allocator()->allocate(
+            sizeof(base_fields) + kNodeValues * sizeof(value_type)));
     return node_type::init_leaf(p, parent, kNodeValues);
   }
   node_type* new_leaf_root_node(int max_count) {
-- 
2.43.0


From 19c79fd34980ffc2c8c9b5a78e85af40811105ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 031/105] fix: tlx BTree: conversions between forward and
 reverse iterators at leaf boundaries

---
 STX/tlx/tlx/container/btree.hpp | 55 +++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/STX/tlx/tlx/container/btree.hpp b/STX/tlx/tlx/container/btree.hpp
index 098a286..909c588 100644
--- a/STX/tlx/tlx/container/btree.hpp
+++ b/STX/tlx/tlx/container/btree.hpp
@@ -403,7 +403,14 @@ public:
         //! Copy-constructor from a reverse iterator
         iterator(const reverse_iterator& it) // NOLINT
             : curr_leaf(it.curr_leaf), curr_slot(it.curr_slot)
-        { }
+        {
+            // one past the end of a leaf is the first slot of the next leaf
+            if (curr_leaf && curr_slot == curr_leaf->slotuse && curr_leaf->next_leaf)
+            {
+                curr_leaf = curr_leaf->next_leaf;
+                curr_slot = 0;
+            }
+        }
 
         //! Dereference the iterator.
         reference operator * () const {
@@ -570,12 +577,26 @@ public:
         //! Copy-constructor from a mutable reverse iterator
         const_iterator(const reverse_iterator& it) // NOLINT
             : curr_leaf(it.curr_leaf), curr_slot(it.curr_slot)
-        { }
+        {
+            // one past the end of a leaf is the first slot of the next leaf
+            if (curr_leaf && curr_slot == curr_leaf->slotuse && curr_leaf->next_leaf)
+            {
+                curr_leaf = curr_leaf->next_leaf;
+                curr_slot = 0;
+            }
+        }
 
         //! Copy-constructor from a const reverse iterator
         const_iterator(const const_reverse_iterator& it) // NOLINT
             : curr_leaf(it.curr_leaf), curr_slot(it.curr_slot)
-        { }
+        {
+            // one past the end of a leaf is the first slot of the next leaf
+            if (curr_leaf && curr_slot == curr_leaf->slotuse && curr_leaf->next_leaf)
+            {
+                curr_leaf = curr_leaf->next_leaf;
+                curr_slot = 0;
+            }
+        }
 
         //! Dereference the iterator.
         reference operator * () const {
@@ -745,7 +766,14 @@ public:
         //! Copy-constructor from a mutable iterator
         reverse_iterator(const iterator& it) // NOLINT
             : curr_leaf(it.curr_leaf), curr_slot(it.curr_slot)
-        { }
+        {
+            // the slot before the first one is in the previous leaf
+            if (curr_leaf && curr_slot == 0 && curr_leaf->prev_leaf)
+            {
+                curr_leaf = curr_leaf->prev_leaf;
+                curr_slot = curr_leaf->slotuse;
+            }
+        }
 
         //! Dereference the iterator.
         reference operator * () const {
@@ -887,6 +915,7 @@ public:
 
         //! Friendly to the const_iterator, so it may access the two data items
         //! directly.
+        friend class const_iterator;
         friend class reverse_iterator;
 
         // The macro TLX_BTREE_FRIENDS can be used by outside class to access
@@ -911,12 +940,26 @@ public:
         //! Copy-constructor from a mutable iterator.
         const_reverse_iterator(const iterator& it) // NOLINT
             : curr_leaf(it.curr_leaf), curr_slot(it.curr_slot)
-        { }
+        {
+            // the slot before the first one is in the previous leaf
+            if (curr_leaf && curr_slot == 0 && curr_leaf->prev_leaf)
+            {
+                curr_leaf = curr_leaf->prev_leaf;
+                curr_slot = curr_leaf->slotuse;
+            }
+        }
 
         //! Copy-constructor from a const iterator.
         const_reverse_iterator(const const_iterator& it) // NOLINT
             : curr_leaf(it.curr_leaf), curr_slot(it.curr_slot)
-        { }
+        {
+            // the slot before the first one is in the previous leaf
+            if (curr_leaf && curr_slot == 0 && curr_leaf->prev_leaf)
+            {
+                curr_leaf = curr_leaf->prev_leaf;
+                curr_slot = curr_leaf->slotuse;
+            }
+        }
 
         //! Copy-constructor from a mutable reverse iterator.
         const_reverse_iterator(const reverse_iterator& it) // NOLINT
-- 
2.43.0


From 303da2cdcf61ded4cee90e25a730e305bdb4d0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 032/105] fix: tlx BTree: erase all items with a key that is
 given as a reference into the tree

---
 STX/tlx/tlx/container/btree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/btree.hpp b/STX/tlx/tlx/container/btree.hpp
index 909c588..18d76ae 100644
--- a/STX/tlx/tlx/container/btree.hpp
+++ b/STX/tlx/tlx/container/btree.hpp
@@ -2434,8 +2434,10 @@ public:
     //! implemented using erase_one().
     size_type erase(const key_type& key) {
         size_type c = 0;
+        // the parameter may be a key in this tree, which moves when erasing
+        const key_type erase_key(key);
 
-        while (erase_one(key))
+        while (erase_one(erase_key))
         {
             ++c;
             if (!allow_duplicates) break;
-- 
2.43.0


From ebc2bc8627d8719b285efcbd92c0bd93ba20eaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:51 +0000
Subject: [PATCH 033/105] fix: tlx BTree: insert an item that is given as a
 reference into the tree

---
 STX/tlx/tlx/container/btree.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/STX/tlx/tlx/container/btree.hpp b/STX/tlx/tlx/container/btree.hpp
index 18d76ae..169af88 100644
--- a/STX/tlx/tlx/container/btree.hpp
+++ b/STX/tlx/tlx/container/btree.hpp
@@ -2094,18 +2094,21 @@ private:
             // move items and put data item into correct data slot
             TLX_BTREE_ASSERT(slot >= 0 && slot <= leaf->slotuse);
 
+            // the parameters may refer to an item of this leaf, which is moved
+            const value_type item(value);
+
             std::copy_backward(
                 leaf->slotdata + slot, leaf->slotdata + leaf->slotuse,
                 leaf->slotdata + leaf->slotuse + 1);
 
-            leaf->slotdata[slot] = value;
+            leaf->slotdata[slot] = item;
             leaf->slotuse++;
 
             if (splitnode && leaf != *splitnode && slot == leaf->slotuse - 1)
             {
                 // special case: the node was split, and the insert is at the
                 // last slot of the old node. then the splitkey must be updated.
-                *splitkey = key;
+                *splitkey = leaf->key(slot);
             }
 
             return std::pair<iterator, bool>(iterator(leaf, slot), true);
-- 
2.43.0


From 4afff44e77ace7e009d09cd00bfd3eea83ff66a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 034/105] fix: Masstree: a split next to a leaf that is being
 removed with the same bound keeps the parent's children in order

---
 MassTree/masstree_remove.hh | 2 ++
 MassTree/masstree_split.hh  | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/MassTree/masstree_remove.hh b/MassTree/masstree_remove.hh
index 2a750b5..09c80f5 100644
--- a/MassTree/masstree_remove.hh
+++ b/MassTree/masstree_remove.hh
@@ -222,6 +222,8 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, basic_table<P>* table,
         masstree_invariant(!p->deleted());
 
         int kp = internode_type::bound_type::upper(ikey, *p);
+        while (kp > 0 && p->child_[kp] != n)
+            --kp;               // other nodes being removed may share the bound
         masstree_invariant(kp == 0 || p->ikey0_[kp - 1] <= ikey); // NB ikey might not equal!
         masstree_invariant(p->child_[kp] == n);
 
diff --git a/MassTree/masstree_split.hh b/MassTree/masstree_split.hh
index ac8d97c..9bbfbc8 100644
--- a/MassTree/masstree_split.hh
+++ b/MassTree/masstree_split.hh
@@ -212,6 +212,10 @@ bool tcursor<P>::make_split(threadinfo& ti)
         int kp = -1;
         if (n->parent_exists(p)) {
             kp = internode_type::bound_type::upper(xikey[sense], *p);
+            // a right neighbour with this very bound may still be waiting for its
+            // removal from `p`; the new node belongs next to `n`, left of it
+            while (kp > 0 && p->ikey0_[kp - 1] == xikey[sense])
+                --kp;
             p->mark_insert();
         }
 
-- 
2.43.0


From 647b4ea65618154f13ca8aec9762a96e4dc310e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:42 +0000
Subject: [PATCH 035/105] fix: tlx RingBuffer: pop_back destroys the last
 element

---
 STX/tlx/tlx/container/ring_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/ring_buffer.hpp b/STX/tlx/tlx/container/ring_buffer.hpp
index 7eec7c1..38fbe88 100644
--- a/STX/tlx/tlx/container/ring_buffer.hpp
+++ b/STX/tlx/tlx/container/ring_buffer.hpp
@@ -219,7 +219,8 @@ public:
     //! remove element at the end
     void pop_back() {
         assert(!empty());
-        alloc_traits::destroy(alloc_, std::addressof(data_[begin_]));
+        alloc_traits::destroy(
+            alloc_, std::addressof(data_[(end_ - 1) & mask_]));
         --end_ &= mask_;
     }
 
-- 
2.43.0


From a79e38eca024a197eeb7345186b40380cae24b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:42 +0000
Subject: [PATCH 036/105] fix: tlx RingBuffer: deallocate resets the position
 and capacity

---
 STX/tlx/tlx/container/ring_buffer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/STX/tlx/tlx/container/ring_buffer.hpp b/STX/tlx/tlx/container/ring_buffer.hpp
index 38fbe88..42cf700 100644
--- a/STX/tlx/tlx/container/ring_buffer.hpp
+++ b/STX/tlx/tlx/container/ring_buffer.hpp
@@ -155,6 +155,8 @@ public:
             clear();
             alloc_.deallocate(data_, capacity_);
             data_ = nullptr;
+            begin_ = end_ = 0;
+            capacity_ = mask_ = 0;
         }
     }
 
-- 
2.43.0


From 7d146b404ec1fed3d9c919a82b371ea323307100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:42 +0000
Subject: [PATCH 037/105] fix: tlx DAryAddressableIntHeap: build_heap forgets
 the keys it replaces

---
 STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp b/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp
index 7329594..493b42c 100644
--- a/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp
+++ b/STX/tlx/tlx/container/d_ary_addressable_int_heap.hpp
@@ -317,6 +317,7 @@ private:
 
     //! Reorganize heap_ into a heap.
     void heapify() {
+        std::fill(handles_.begin(), handles_.end(), not_present());
         key_type max_key = heap_.empty() ? 0 : heap_.front();
         if (heap_.size() >= 2) {
             // Iterate from the last internal node up to the root.
-- 
2.43.0


From cc469fd1c607cf7765453075ee45d999f72fd76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 038/105] fix: tlx LRU caches: put of a key or value that
 refers into the entry it replaces

---
 STX/tlx/tlx/container/lru_cache.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/STX/tlx/tlx/container/lru_cache.hpp b/STX/tlx/tlx/container/lru_cache.hpp
index 95cb643..7f58342 100644
--- a/STX/tlx/tlx/container/lru_cache.hpp
+++ b/STX/tlx/tlx/container/lru_cache.hpp
@@ -65,15 +65,18 @@ public:
     void put(const Key& key) {
         // first try to find an existing key
         typename Map::iterator it = map_.find(key);
-        if (it != map_.end()) {
-            list_.erase(it->second);
-            map_.erase(it);
-        }
 
         // insert key into linked list at the front (most recently used)
         list_.push_front(key);
         // store iterator to linked list entry in map
-        map_.insert(std::make_pair(key, list_.begin()));
+        if (it != map_.end()) {
+            ListIterator old = it->second;
+            it->second = list_.begin();
+            list_.erase(old);
+        }
+        else {
+            map_.insert(std::make_pair(key, list_.begin()));
+        }
     }
 
     //! touch value from LRU cache for key.
@@ -189,15 +192,18 @@ public:
     void put(const Key& key, const Value& value) {
         // first try to find an existing key
         typename Map::iterator it = map_.find(key);
-        if (it != map_.end()) {
-            list_.erase(it->second);
-            map_.erase(it);
-        }
 
         // insert key into linked list at the front (most recently used)
         list_.push_front(KeyValuePair(key, value));
         // store iterator to linked list entry in map
-        map_.insert(std::make_pair(key, list_.begin()));
+        if (it != map_.end()) {
+            ListIterator old = it->second;
+            it->second = list_.begin();
+            list_.erase(old);
+        }
+        else {
+            map_.insert(std::make_pair(key, list_.begin()));
+        }
     }
 
     //! touch pair in LRU cache for key. Throws if it is not in the map.
-- 
2.43.0


From ce84c73685340b3e7b81b96076e78bbe4a743a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 039/105] fix: tlx SplayTree: exists on an empty tree

---
 STX/tlx/tlx/container/splay_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/splay_tree.hpp b/STX/tlx/tlx/container/splay_tree.hpp
index a3fb8a3..e872a10 100644
--- a/STX/tlx/tlx/container/splay_tree.hpp
+++ b/STX/tlx/tlx/container/splay_tree.hpp
@@ -277,7 +277,8 @@ public:
     //! check if key exists
     bool exists(const Key& k) {
         root_ = splay(k, root_, cmp_);
-        return !cmp_(root_->key, k) && !cmp_(k, root_->key);
+        return root_ != nullptr &&
+               !cmp_(root_->key, k) && !cmp_(k, root_->key);
     }
 
     //! return number of items in tree
-- 
2.43.0


From 7242253bc2e8f4aaabc943a23bbb053abaa03648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 040/105] fix: tlx SplayTree: clear leaves an empty tree, and
 needs no stack

---
 STX/tlx/tlx/container/splay_tree.hpp | 34 ++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/STX/tlx/tlx/container/splay_tree.hpp b/STX/tlx/tlx/container/splay_tree.hpp
index e872a10..b4549cf 100644
--- a/STX/tlx/tlx/container/splay_tree.hpp
+++ b/STX/tlx/tlx/container/splay_tree.hpp
@@ -13,6 +13,7 @@
 
 #include <functional>
 #include <memory>
+#include <vector>
 
 namespace tlx {
 
@@ -199,10 +200,20 @@ Tree * splay_erase(const Key& k, Tree*& t, const Compare& cmp) {
 //! traverse the tree in preorder (left, node, right)
 template <typename Tree, typename Functor>
 void splay_traverse_preorder(const Functor& f, const Tree* t) {
-    if (t == nullptr) return;
-    splay_traverse_preorder(f, t->left);
-    f(t);
-    splay_traverse_preorder(f, t->right);
+    // no recursion, a tree may be as deep as it has nodes
+    std::vector<const Tree*> stack;
+    while (t != nullptr || !stack.empty()) {
+        if (t != nullptr) {
+            stack.push_back(t);
+            t = t->left;
+        }
+        else {
+            t = stack.back();
+            stack.pop_back();
+            f(t);
+            t = t->right;
+        }
+    }
 }
 
 //! traverse the tree in postorder (left, right, node)
@@ -271,7 +282,20 @@ public:
 
     //! free all nodes
     void clear() {
-        splay_traverse_postorder([this](Node* n) { delete_node(n); }, root_);
+        while (root_ != nullptr) {
+            if (root_->left != nullptr) {
+                // rotate right, a tree may be as deep as it has nodes
+                Node* n = root_->left;
+                root_->left = n->right;
+                n->right = root_;
+                root_ = n;
+            }
+            else {
+                Node* n = root_;
+                root_ = n->right;
+                delete_node(n);
+            }
+        }
     }
 
     //! check if key exists
-- 
2.43.0


From 5365f44e528356886a2c50e4d87605fcbdec5f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 041/105] fix: tlx SplayTree: erase with duplicates keeps the
 equal keys

---
 STX/tlx/tlx/container/splay_tree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/splay_tree.hpp b/STX/tlx/tlx/container/splay_tree.hpp
index b4549cf..53f9964 100644
--- a/STX/tlx/tlx/container/splay_tree.hpp
+++ b/STX/tlx/tlx/container/splay_tree.hpp
@@ -186,7 +186,10 @@ Tree * splay_erase(const Key& k, Tree*& t, const Compare& cmp) {
         }
         else {
             Tree* x = splay(k, t->left, cmp);
-            x->right = t->right;
+            // with duplicates, keys equal to x may remain on its right
+            Tree* y = x;
+            while (y->right != nullptr) y = y->right;
+            y->right = t->right;
             t = x;
         }
         return r;
-- 
2.43.0


From 7367ce2ad2565f23b6b0cd77563ef5355300ea15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 042/105] fix: tlx CountingPtr: assignment from a pointer
 inside the object it frees

---
 STX/tlx/tlx/counting_ptr.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/STX/tlx/tlx/counting_ptr.hpp b/STX/tlx/tlx/counting_ptr.hpp
index c4ce899..a81b891 100644
--- a/STX/tlx/tlx/counting_ptr.hpp
+++ b/STX/tlx/tlx/counting_ptr.hpp
@@ -134,9 +134,11 @@ public:
     CountingPtr& operator = (const CountingPtr& other) noexcept {
         if (ptr_ == other.ptr_)
             return *this;
-        inc_reference(other.ptr_);
+        // other may be part of the object dereferenced
+        Type* ptr = other.ptr_;
+        inc_reference(ptr);
         dec_reference();
-        ptr_ = other.ptr_;
+        ptr_ = ptr;
         return *this;
     }
 
@@ -149,9 +151,11 @@ public:
     operator = (const CountingPtr<Subclass, Deleter>& other) noexcept {
         if (ptr_ == other.ptr_)
             return *this;
-        inc_reference(other.ptr_);
+        // other may be part of the object dereferenced
+        Type* ptr = other.ptr_;
+        inc_reference(ptr);
         dec_reference();
-        ptr_ = other.ptr_;
+        ptr_ = ptr;
         return *this;
     }
 
@@ -159,9 +163,11 @@ public:
     CountingPtr& operator = (CountingPtr&& other) noexcept {
         if (ptr_ == other.ptr_)
             return *this;
-        dec_reference();
-        ptr_ = other.ptr_;
+        // other may be part of the object dereferenced
+        Type* ptr = other.ptr_;
         other.ptr_ = nullptr;
+        dec_reference();
+        ptr_ = ptr;
         return *this;
     }
 
@@ -172,9 +178,11 @@ public:
     CountingPtr& operator = (CountingPtr<Subclass, Deleter>&& other) noexcept {
         if (ptr_ == other.ptr_)
             return *this;
-        dec_reference();
-        ptr_ = other.ptr_;
+        // other may be part of the object dereferenced
+        Type* ptr = other.ptr_;
         other.ptr_ = nullptr;
+        dec_reference();
+        ptr_ = ptr;
         return *this;
     }
 
-- 
2.43.0


From 59f3b8db02673d376b56f6c5685c0c0efd547c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 043/105] fix: tlx RadixHeap: bucket index of 8 and 16-bit keys

---
 STX/tlx/tlx/container/radix_heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/radix_heap.hpp b/STX/tlx/tlx/container/radix_heap.hpp
index 05ba7f6..5189c9a 100644
--- a/STX/tlx/tlx/container/radix_heap.hpp
+++ b/STX/tlx/tlx/container/radix_heap.hpp
@@ -288,7 +288,7 @@ public:
         const auto diff = x ^ insertion_limit;
         if (!diff) return 0;
 
-        const auto diff_in_bit = (8 * sizeof(Int) - 1) - clz(diff);
+        const auto diff_in_bit = (8 * sizeof(diff) - 1) - clz(diff);
 
         const auto row = diff_in_bit / radix_bits;
         const auto bucket_in_row = ((x >> (radix_bits * row)) & mask) - row;
-- 
2.43.0


From 3ef90406f3870c0d634a04a3e1f69dbdf01b2a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 044/105] fix: tlx StringView: compare and rfind past NUL
 characters

---
 STX/tlx/tlx/container/string_view.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/STX/tlx/tlx/container/string_view.hpp b/STX/tlx/tlx/container/string_view.hpp
index efe4614..6486d92 100644
--- a/STX/tlx/tlx/container/string_view.hpp
+++ b/STX/tlx/tlx/container/string_view.hpp
@@ -195,7 +195,8 @@ public:
     //! \{
 
     int compare(StringView x) const noexcept {
-        const int cmp = std::strncmp(ptr_, x.ptr_, std::min(size_, x.size_));
+        const int cmp = std::char_traits<char>::compare(
+            ptr_, x.ptr_, std::min(size_, x.size_));
         return cmp != 0 ? cmp
                : (size_ == x.size_ ? 0 : size_ < x.size_ ? -1 : 1);
     }
@@ -319,7 +320,7 @@ public:
         if (s.size_ == 0u) // an empty string is always found
             return pos;
         for (const char* cur = ptr_ + pos; ; --cur) {
-            if (std::strncmp(cur, s.ptr_, s.size_) == 0)
+            if (std::char_traits<char>::compare(cur, s.ptr_, s.size_) == 0)
                 return cur - ptr_;
             if (cur == ptr_)
                 return npos;
-- 
2.43.0


From 9939c9739a87546645c6a9cbc1fce82b04f0fc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 045/105] fix: tlx StringView: operator < agrees with compare
 and std::string

---
 STX/tlx/tlx/container/string_view.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/STX/tlx/tlx/container/string_view.hpp b/STX/tlx/tlx/container/string_view.hpp
index 6486d92..553c8ae 100644
--- a/STX/tlx/tlx/container/string_view.hpp
+++ b/STX/tlx/tlx/container/string_view.hpp
@@ -242,8 +242,7 @@ public:
     //! Less operator to compare a StringView with another StringView
     //! lexicographically
     bool operator < (const StringView& other) const noexcept {
-        return std::lexicographical_compare(
-            ptr_, ptr_ + size_, other.ptr_, other.ptr_ + other.size_);
+        return compare(other) < 0;
     }
 
     //! Greater than
@@ -506,16 +505,14 @@ bool operator != (const std::string& a, const StringView& b) noexcept {
 //! lexicographically
 static inline
 bool operator < (const StringView& a, const std::string& b) noexcept {
-    return std::lexicographical_compare(
-        a.begin(), a.end(), b.begin(), b.end());
+    return a.compare(StringView(b)) < 0;
 }
 
 //! less operator to compare a StringView with a std::string
 //! lexicographically
 static inline
 bool operator < (const std::string& a, const StringView& b) noexcept {
-    return std::lexicographical_compare(
-        a.begin(), a.end(), b.begin(), b.end());
+    return StringView(a).compare(b) < 0;
 }
 
 static inline
-- 
2.43.0


From 4915d13d35334fc9124ebe5b939ab4af56041583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:43 +0000
Subject: [PATCH 046/105] fix: tlx StringView: compare with a position past the
 end throws

---
 STX/tlx/tlx/container/string_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/string_view.hpp b/STX/tlx/tlx/container/string_view.hpp
index 553c8ae..1609c39 100644
--- a/STX/tlx/tlx/container/string_view.hpp
+++ b/STX/tlx/tlx/container/string_view.hpp
@@ -201,7 +201,7 @@ public:
                : (size_ == x.size_ ? 0 : size_ < x.size_ ? -1 : 1);
     }
 
-    int compare(size_type pos1, size_type n1, StringView x) const noexcept {
+    int compare(size_type pos1, size_type n1, StringView x) const {
         return substr(pos1, n1).compare(x);
     }
 
-- 
2.43.0


From 2dc9e7e311e2502edd4c1614162b2bf1ab915762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:02 +0000
Subject: [PATCH 047/105] fix: tlx StringView: copy from the given position

---
 STX/tlx/tlx/container/string_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/container/string_view.hpp b/STX/tlx/tlx/container/string_view.hpp
index 1609c39..e1320cb 100644
--- a/STX/tlx/tlx/container/string_view.hpp
+++ b/STX/tlx/tlx/container/string_view.hpp
@@ -181,7 +181,7 @@ public:
         if (pos > size())
             throw std::out_of_range("StringView::copy");
         size_type rsize = std::min(n, size_ - pos);
-        std::copy(data(), data() + rsize, s);
+        std::copy(data() + pos, data() + pos + rsize, s);
         return rsize;
     }
 
-- 
2.43.0


From 89067663b7bd8b92bb13ee31e814a7d3f1a4a6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:02 +0000
Subject: [PATCH 048/105] fix: tlx RadixHeap: the largest key does not fail the
 order assertion

---
 STX/tlx/tlx/container/radix_heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/STX/tlx/tlx/container/radix_heap.hpp b/STX/tlx/tlx/container/radix_heap.hpp
index 5189c9a..649dc44 100644
--- a/STX/tlx/tlx/container/radix_heap.hpp
+++ b/STX/tlx/tlx/container/radix_heap.hpp
@@ -621,6 +621,7 @@ protected:
             const ranked_key_type key = Encoder::rank_of_int(key_extract_(x));
             assert(key >= mins_[first_non_empty]);
             assert(first_non_empty == mins_.size() - 1
+                   || buckets_data_[first_non_empty + 1].empty()
                    || key < mins_[first_non_empty + 1]);
             const auto idx = bucket_map_(key, insertion_limit_);
             assert(idx < first_non_empty);
-- 
2.43.0


From df84555f29492941e5771b7609e6108246713881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:49 +0000
Subject: [PATCH 049/105] fix: tlx RingBuffer: a copy of a buffer without
 memory can be allocated

---
 STX/tlx/tlx/container/ring_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/STX/tlx/tlx/container/ring_buffer.hpp b/STX/tlx/tlx/container/ring_buffer.hpp
index 42cf700..2736792 100644
--- a/STX/tlx/tlx/container/ring_buffer.hpp
+++ b/STX/tlx/tlx/container/ring_buffer.hpp
@@ -71,7 +71,7 @@ public:
           alloc_(rb.alloc_),
           capacity_(rb.capacity_),
           mask_(rb.mask_),
-          data_(alloc_.allocate(capacity_)) {
+          data_(rb.data_ ? alloc_.allocate(capacity_) : nullptr) {
         // copy items using existing methods (we cannot just flat copy the array
         // due to item construction).
         for (size_t i = 0; i < rb.size(); ++i) {
@@ -90,7 +90,7 @@ public:
             alloc_.deallocate(data_, capacity_);
             alloc_ = rb.alloc_;
             capacity_ = rb.capacity_;
-            data_ = alloc_.allocate(capacity_);
+            data_ = rb.data_ ? alloc_.allocate(capacity_) : nullptr;
         }
         // copy over fields
         max_size_ = rb.max_size_;
-- 
2.43.0


From 6dc66b68913b4153cbdf29ede16a7c6f35ddaa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 050/105] fix: Json: the second half of an escaped surrogate
 pair may use lower-case hex digits

---
 MassTree/json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 29ddfbc..3ee2cee 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -1054,7 +1054,7 @@ Json::streaming_parser::consume_backslash(StringAccum& sa,
                     ch2 = 16 * ch2 + first[i] - '0';
                 else if (in_range(first[i], 'A', 'F' + 1))
                     ch2 = 16 * ch2 + first[i] - 'A' + 10;
-                else if (in_range(first[i], 'A', 'F' + 1))
+                else if (in_range(first[i], 'a', 'f' + 1))
                     ch2 = 16 * ch2 + first[i] - 'a' + 10;
                 else
                     return error_at(&first[i]);
-- 
2.43.0


From b616c4cf8d7ad24e0965d73f0ad05ba9040e19db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 051/105] fix: Json: the parser accepts \u0000

---
 MassTree/json.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 3ee2cee..f4ec17f 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -1064,9 +1064,12 @@ Json::streaming_parser::consume_backslash(StringAccum& sa,
             ch = 0x10000 + (ch - 0xD800) * 0x400 + (ch2 - 0xDC00);
             first += 6;
         }
-    }
+    } else
+        return error_at(&first[1]);
 
-    if (!ch || !sa.append_utf8(ch))
+    if (ch == 0)
+        sa.append('\0');
+    else if (!sa.append_utf8(ch))
         return error_at(&first[1]);
     return first + 2;
 
-- 
2.43.0


From e36968be781bc9ef65ab0dcc66d980ec647729a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 052/105] fix: Json: the parser does not look past the input
 for the second byte of a character

---
 MassTree/json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index f4ec17f..9f6b20c 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -928,7 +928,7 @@ Json::streaming_parser::consume_string(const uint8_t* first,
             int want = 2 + (*first >= 0xE0) + (*first >= 0xF0);
             int n = last - first < want ? last - first : want;
             if ((n > 1 && unlikely(!in_range(first[1], 0x80, 0xC0)))
-                || (*first >= 0xE0
+                || (n > 1 && *first >= 0xE0
                     && ((*first == 0xE0 && first[1] < 0xA0) /* overlong */
                         || (*first == 0xED && first[1] >= 0xA0) /* surrogate */
                         || (*first == 0xF0 && first[1] < 0x90) /* overlong */
-- 
2.43.0


From b8a98e5a2b982de92d5213110e64f90e543ed93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 053/105] fix: Json: parsing accepts any amount of white space
 after the value

---
 MassTree/json.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 9f6b20c..472ce37 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -682,8 +682,8 @@ Json::assign_parse(const char* first, const char* last, const String& str)
     using std::swap;
     Json::streaming_parser jsp;
     first = jsp.consume(first, last, str, true);
-    if (first != last && (*first == ' ' || *first == '\n' || *first == '\r'
-                          || *first == '\t'))
+    while (first != last && (*first == ' ' || *first == '\n' || *first == '\r'
+                             || *first == '\t'))
         ++first;
     if (first == last && jsp.success()) {
         swap(jsp.result(), *this);
-- 
2.43.0


From cc008f46ff096ebedab200191c996c57ca183368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 054/105] fix: Json: unparse writes doubles with as many digits
 as they need

---
 MassTree/json.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 472ce37..b18054c 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -668,8 +668,13 @@ void Json::hard_unparse(StringAccum &sa, const unparse_manipulator &m, int depth
         sa << u_.i.x;
     else if (u_.x.type == j_unsigned)
         sa << u_.u.x;
-    else if (u_.x.type == j_double)
-        sa << u_.d.x;
+    else if (u_.x.type == j_double) {
+        char buf[64];
+        int len = snprintf(buf, sizeof(buf), "%.12g", u_.d.x);
+        if (strtod(buf, 0) != u_.d.x)
+            len = snprintf(buf, sizeof(buf), "%.17g", u_.d.x);
+        sa.append(buf, len);
+    }
 
     if (depth == 0 && m.newline_terminator())
         sa << '\n';
-- 
2.43.0


From 7d8f6683b597bfd5aecb5dde24b11e22af918dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 055/105] fix: Json: an integer that does not fit 64 bits is
 parsed as a double

---
 MassTree/json.cc | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index b18054c..0847856 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -1199,23 +1199,30 @@ Json::streaming_parser::consume_number(const uint8_t* first,
         }
         if (prev + 1 == first)
             j = Json(int(*prev - '0'));
-        else if (position < 4) {
-            bool negative = *prev == '-';
-            prev += int(negative);
-            uint64_t x = 0;
-            while (prev != first) {
-                x = (x * 10) + *prev - '0';
-                ++prev;
+        else {
+            bool isint = position < 4;
+            if (isint) {
+                bool negative = *prev == '-';
+                uint64_t limit = negative ? uint64_t(1) << 63 : ~uint64_t(0);
+                uint64_t x = 0;
+                for (const uint8_t* s = prev + int(negative); s != first && isint; ++s) {
+                    unsigned digit = *s - '0';
+                    if (x > (limit - digit) / 10)
+                        isint = false;
+                    else
+                        x = (x * 10) + digit;
+                }
+                if (isint && negative)
+                    j = Json(int64_t(-x));
+                else if (isint)
+                    j = Json(x);
             }
-            if (negative)
-                j = Json(-int64_t(x));
-            else
+            if (!isint) {
+                if (!(state_ & st_partlenmask))
+                    str_ = String(prev, first);
+                double x = strtod(str_.c_str(), 0);
                 j = Json(x);
-        } else {
-            if (!(state_ & st_partlenmask))
-                str_ = String(prev, first);
-            double x = strtod(str_.c_str(), 0);
-            j = Json(x);
+            }
         }
         state_ &= ~st_partmask;
         str_ = String();
-- 
2.43.0


From 9fd6a4393ac7399051fda6499e381d07644b4ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 056/105] fix: Json: += and -= of a Json use its value

---
 MassTree/json.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MassTree/json.hh b/MassTree/json.hh
index 9238ba3..9dbf287 100644
--- a/MassTree/json.hh
+++ b/MassTree/json.hh
@@ -3093,18 +3093,18 @@ inline Json& Json::operator-=(double x) {
 }
 inline Json& Json::operator+=(const Json& x) {
     if (x.is_unsigned())
-        add(u_.u.x);
+        add(x.u_.u.x);
     else if (x.is_int())
-        add(u_.i.x);
+        add(x.u_.i.x);
     else if (!x.is_null())
         add(x.as_d());
     return *this;
 }
 inline Json& Json::operator-=(const Json& x) {
     if (x.is_unsigned())
-        subtract(u_.u.x);
+        subtract(x.u_.u.x);
     else if (x.is_int())
-        subtract(u_.i.x);
+        subtract(x.u_.i.x);
     else if (!x.is_null())
         subtract(x.as_d());
     return *this;
-- 
2.43.0


From e796fe46981ed21806c12dcea670c4028ac96dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 057/105] fix: Json: arithmetic accepts unsigned integers

---
 MassTree/json.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MassTree/json.hh b/MassTree/json.hh
index 9dbf287..bc5ffdb 100644
--- a/MassTree/json.hh
+++ b/MassTree/json.hh
@@ -2053,13 +2053,13 @@ inline const String& Json::as_s(const String& default_value) const {
 }
 
 inline void Json::force_number() {
-    precondition((u_.x.type == j_null && !u_.x.x) || u_.x.type == j_int || u_.x.type == j_double);
+    precondition((u_.x.type == j_null && !u_.x.x) || is_number());
     if (u_.x.type == j_null && !u_.x.x)
         u_.x.type = j_int;
 }
 
 inline void Json::force_double() {
-    precondition((u_.x.type == j_null && !u_.x.x) || u_.x.type == j_int || u_.x.type == j_double);
+    precondition((u_.x.type == j_null && !u_.x.x) || is_number());
     if (u_.x.type == j_null && !u_.x.x)
         u_.x.type = j_double;
     else if (u_.x.type == j_int) {
-- 
2.43.0


From 59eb98aa359163672b11db3f4e1705594936a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 058/105] fix: Json: assigning a part of a value, or its
 string, to the value itself

---
 MassTree/json.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/MassTree/json.hh b/MassTree/json.hh
index bc5ffdb..0fd3396 100644
--- a/MassTree/json.hh
+++ b/MassTree/json.hh
@@ -2928,8 +2928,9 @@ inline Json& Json::operator=(const Json& x) {
         x.u_.str.ref();
     else if (x.u_.x.x && (x.u_.x.type == j_array || x.u_.x.type == j_object))
         x.u_.x.x->ref();
+    rep_type u = x.u_;
     deref();
-    u_ = x.u_;
+    u_ = u;
     return *this;
 }
 
@@ -3002,9 +3003,10 @@ inline Json& Json::operator=(bool x) {
 }
 
 inline Json& Json::operator=(const String& x) {
+    String::rep_type r = x.internal_rep();
+    r.ref();
     deref();
-    u_.str = x.internal_rep();
-    u_.str.ref();
+    u_.str = r;
     return *this;
 }
 /** @endcond never */
-- 
2.43.0


From ffce740512b9b37bb8e4fea5610aaf14a21f4a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 059/105] fix: Json: moving a part of a value over the value
 itself does not leak

---
 MassTree/json.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MassTree/json.hh b/MassTree/json.hh
index 0fd3396..f26d32d 100644
--- a/MassTree/json.hh
+++ b/MassTree/json.hh
@@ -2936,7 +2936,8 @@ inline Json& Json::operator=(const Json& x) {
 
 inline Json& Json::operator=(Json&& x) {
     using std::swap;
-    swap(u_, x.u_);
+    Json old(std::move(x));
+    swap(u_, old.u_);
     return *this;
 }
 
-- 
2.43.0


From 7be9d9638422082cba4ab54d3c2c9f3242355261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 060/105] fix: Json: an element may be assigned from the value
 it belongs to or from another element

---
 MassTree/json.hh | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/MassTree/json.hh b/MassTree/json.hh
index f26d32d..1320d8e 100644
--- a/MassTree/json.hh
+++ b/MassTree/json.hh
@@ -1333,16 +1333,20 @@ class Json_object_proxy : public Json_proxy_base<Json_object_proxy<T> > {
         return base_.get_insert(key_);
     }
     Json& operator=(const Json& x) {
-        return value() = x;
+        Json v(x);
+        return value() = std::move(v);
     }
     Json& operator=(Json&& x) {
-        return value() = std::move(x);
+        Json v(std::move(x));
+        return value() = std::move(v);
     }
     Json& operator=(const Json_object_proxy<T>& x) {
-        return value() = x.cvalue();
+        Json v(x.cvalue());
+        return value() = std::move(v);
     }
     template <typename P> Json& operator=(const Json_proxy_base<P>& x) {
-        return value() = x.cvalue();
+        Json v(x.cvalue());
+        return value() = std::move(v);
     }
     Json_object_proxy(T& ref, const String& key)
         : base_(ref), key_(key) {
@@ -1361,16 +1365,20 @@ class Json_object_str_proxy : public Json_proxy_base<Json_object_str_proxy<T> >
         return base_.get_insert(key_);
     }
     Json& operator=(const Json& x) {
-        return value() = x;
+        Json v(x);
+        return value() = std::move(v);
     }
     Json& operator=(Json&& x) {
-        return value() = std::move(x);
+        Json v(std::move(x));
+        return value() = std::move(v);
     }
     Json& operator=(const Json_object_str_proxy<T>& x) {
-        return value() = x.cvalue();
+        Json v(x.cvalue());
+        return value() = std::move(v);
     }
     template <typename P> Json& operator=(const Json_proxy_base<P>& x) {
-        return value() = x.cvalue();
+        Json v(x.cvalue());
+        return value() = std::move(v);
     }
     Json_object_str_proxy(T& ref, Str key)
         : base_(ref), key_(key) {
@@ -1389,16 +1397,20 @@ class Json_array_proxy : public Json_proxy_base<Json_array_proxy<T> > {
         return base_.get_insert(key_);
     }
     Json& operator=(const Json& x) {
-        return value() = x;
+        Json v(x);
+        return value() = std::move(v);
     }
     Json& operator=(Json&& x) {
-        return value() = std::move(x);
+        Json v(std::move(x));
+        return value() = std::move(v);
     }
     Json& operator=(const Json_array_proxy<T>& x) {
-        return value() = x.cvalue();
+        Json v(x.cvalue());
+        return value() = std::move(v);
     }
     template <typename P> Json& operator=(const Json_proxy_base<P>& x) {
-        return value() = x.cvalue();
+        Json v(x.cvalue());
+        return value() = std::move(v);
     }
     Json_array_proxy(T& ref, int key)
         : base_(ref), key_(key) {
@@ -2319,9 +2331,7 @@ inline Json& Json::set(const String& key, Json value) {
 /** @overload */
 template <typename P>
 inline Json& Json::set(const String& key, const Json_proxy_base<P>& value) {
-    uniqueify_object(true);
-    ojson()->get_insert(key) = value.cvalue();
-    return *this;
+    return set(key, Json(value.cvalue()));
 }
 
 /** @brief Remove the value of @a key from an object Json.
@@ -2523,8 +2533,7 @@ inline Json& Json::push_back(Json x) {
 
 /** @overload */
 template <typename P> inline Json& Json::push_back(const Json_proxy_base<P>& x) {
-    new(uniqueify_array_insert(false, -1)) Json(x.cvalue());
-    return *this;
+    return push_back(Json(x.cvalue()));
 }
 
 /** @brief Remove the last element from an array.
@@ -2568,9 +2577,7 @@ inline Json::array_iterator Json::insert(array_iterator position, Json x) {
 /** @overload */
 template <typename P> inline Json::array_iterator Json::insert(array_iterator position, const Json_proxy_base<P>& x) {
     precondition(position >= abegin() && position <= aend());
-    size_type pos = position - abegin();
-    new(uniqueify_array_insert(false, pos)) Json(x.cvalue());
-    return abegin() + pos;
+    return insert(position, Json(x.cvalue()));
 }
 
 inline Json::array_iterator Json::erase(array_iterator position) {
-- 
2.43.0


From 328606b8aedfda74499829622b089c7e47fa0257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 061/105] fix: Json: merge of a part of the object itself

---
 MassTree/json.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MassTree/json.hh b/MassTree/json.hh
index 1320d8e..731f637 100644
--- a/MassTree/json.hh
+++ b/MassTree/json.hh
@@ -2421,8 +2421,9 @@ inline Json& Json::merge(const Json& x) {
     precondition(is_object() || is_null());
     precondition(x.is_object() || x.is_null());
     if (x.u_.o.x) {
+        Json xcopy(x);          // x might be part of this Json
         uniqueify_object(false);
-        ObjectJson *oj = ojson(), *xoj = x.ojson();
+        ObjectJson *oj = ojson(), *xoj = xcopy.ojson();
         const ObjectItem *xb = xoj->os_, *xe = xb + xoj->n_;
         for (; xb != xe; ++xb)
             if (xb->next_ > -2)
-- 
2.43.0


From f3233c713d321d27f4bc644babf2298758524a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 062/105] fix: Json: erasing from an object that never had a
 key

---
 MassTree/json.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 0847856..debc3a0 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -198,6 +198,8 @@ void Json::ObjectJson::erase(int p) {
 }
 
 Json::size_type Json::ObjectJson::erase(Str key) {
+    if (hash_.empty())
+        return 0;
     int* b = &hash_[bucket(key.data(), key.length())];
     while (*b >= 0 && os_[*b].v_.first != key)
         b = &os_[*b].next_;
-- 
2.43.0


From 84686bb7e4024b8a5f51b696776c54123146869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 063/105] fix: StringAccum: append_utf8 writes three bytes from
 U+0800 on

---
 MassTree/straccum.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/straccum.cc b/MassTree/straccum.cc
index f82c153..3027765 100644
--- a/MassTree/straccum.cc
+++ b/MassTree/straccum.cc
@@ -203,7 +203,7 @@ StringAccum::hard_append_cstr(const char *cstr)
 bool
 StringAccum::append_utf8_hard(int ch)
 {
-    if (ch < 0x8000) {
+    if (ch < 0x800) {
         append(static_cast<char>(0xC0 | (ch >> 6)));
         goto char1;
     } else if (ch < 0x10000) {
-- 
2.43.0


From b46eebb76bb7a247e05dc6e1d5557ac12e3df26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 064/105] fix: msgpack: streaming_parser rejects lengths of
 2^31 and more

---
 MassTree/msgpack.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MassTree/msgpack.cc b/MassTree/msgpack.cc
index 4b8859b..fd19c2e 100644
--- a/MassTree/msgpack.cc
+++ b/MassTree/msgpack.cc
@@ -69,6 +69,8 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             n = *first - format::ffixmap;
             ++first;
         map:
+            if (n < 0)
+                goto error;
             if (jx->is_o())
                 jx->clear();
             else
@@ -77,6 +79,8 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             n = *first - format::ffixarray;
             ++first;
         array:
+            if (n < 0)
+                goto error;
             if (!jx->is_a())
                 *jx = Json::make_array_reserve(n);
             jx->resize(n);
@@ -84,6 +88,8 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             n = *first - format::ffixstr;
             ++first;
         raw:
+            if (n < 0)
+                goto error;
             if (last - first < n) {
                 str_ = String(first, last);
                 stack_.push_back(selem{0, n});
-- 
2.43.0


From 536476391a451175a9c5d903ebaa9cdb07383a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:55 +0000
Subject: [PATCH 065/105] fix: Json: empty() of a string without allocated
 memory

---
 MassTree/json.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/json.hh b/MassTree/json.hh
index 731f637..45cc67b 100644
--- a/MassTree/json.hh
+++ b/MassTree/json.hh
@@ -1758,7 +1758,7 @@ inline bool Json::is_primitive() const {
     object. */
 inline bool Json::empty() const {
     return unsigned(u_.x.type) < unsigned(j_int)
-        && (!u_.x.x || u_.x.x->size == 0);
+        && (!u_.x.x || (u_.x.type != j_null && u_.x.x->size == 0));
 }
 /** @brief Return the number of elements in this complex Json.
     @pre is_array() || is_object() || is_null() */
-- 
2.43.0


From ebdde5be0e5a4a042885a0548bf94289581c3d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:55 +0000
Subject: [PATCH 066/105] fix: msgpack: streaming_parser limits the nesting
 depth as the text parser does

---
 MassTree/msgpack.cc | 3 +++
 MassTree/msgpack.hh | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/MassTree/msgpack.cc b/MassTree/msgpack.cc
index fd19c2e..7d9c88f 100644
--- a/MassTree/msgpack.cc
+++ b/MassTree/msgpack.cc
@@ -183,6 +183,9 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             continue;
         }
 
+        if ((jx->is_a() || jx->is_o()) && n != 0
+            && stack_.size() == max_depth)
+            goto error;
         if (jx->is_a() && n != 0)
             stack_.push_back(selem{&jx->at_insert(0), n - 1});
         else if (jx->is_o() && n != 0)
diff --git a/MassTree/msgpack.hh b/MassTree/msgpack.hh
index 8b84e34..193c3c1 100644
--- a/MassTree/msgpack.hh
+++ b/MassTree/msgpack.hh
@@ -359,7 +359,7 @@ class streaming_parser {
   private:
     enum {
         st_final = -2, st_error = -1, st_normal = 0, st_partial = 1,
-        st_string = 2
+        st_string = 2, max_depth = 2048
     };
     struct selem {
         Json* jp;
-- 
2.43.0


From 3911321c5767e9cf1e37bfb43c0db2de82428f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:45 +0000
Subject: [PATCH 067/105] fix: Json: merging an empty object makes a null value
 an object

---
 MassTree/json.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MassTree/json.hh b/MassTree/json.hh
index 45cc67b..cc009b0 100644
--- a/MassTree/json.hh
+++ b/MassTree/json.hh
@@ -2420,11 +2420,12 @@ inline Json::size_type Json::erase(Str key) {
 inline Json& Json::merge(const Json& x) {
     precondition(is_object() || is_null());
     precondition(x.is_object() || x.is_null());
-    if (x.u_.o.x) {
+    if (x.is_object()) {
         Json xcopy(x);          // x might be part of this Json
         uniqueify_object(false);
         ObjectJson *oj = ojson(), *xoj = xcopy.ojson();
-        const ObjectItem *xb = xoj->os_, *xe = xb + xoj->n_;
+        const ObjectItem *xb = xoj ? xoj->os_ : 0;
+        const ObjectItem *xe = xoj ? xb + xoj->n_ : 0;
         for (; xb != xe; ++xb)
             if (xb->next_ > -2)
                 oj->get_insert(xb->v_.first) = xb->v_.second;
-- 
2.43.0


From d1f1674b56202e0437786b535d988fb07fc891d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:05 +0000
Subject: [PATCH 068/105] fix: Json: a number needs a digit after its minus
 sign

---
 MassTree/json.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index debc3a0..6f69e28 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -1139,8 +1139,10 @@ Json::streaming_parser::consume_number(const uint8_t* first,
         case 1:
             while (first != last && in_range(*first, '0', '9' + 1))
                 ++first;
-        } else
+        } else {
             position = 2;
+            break;
+        }
         /* fallthru */
     case 3:
         if (first != last && *first == '.') {
-- 
2.43.0


From cbae94e0112360f26e9729483d39b6bd7f41c859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:30 +0000
Subject: [PATCH 069/105] fix: Json: keys that share a hash value do not make
 the hash table double for ever

---
 MassTree/json.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MassTree/json.cc b/MassTree/json.cc
index 6f69e28..78e49b4 100644
--- a/MassTree/json.cc
+++ b/MassTree/json.cc
@@ -154,7 +154,7 @@ int Json::ObjectJson::find_insert(const String &key, const Json &value)
         new ((void *) &os_[n_]) ObjectItem(key, value, -1);
         ++n_;
         ++size;
-        if (chain > 4)
+        if (chain > 4 && hash_.size() < 16 * size_t(size))
             rehash();
         return n_ - 1;
     }
@@ -179,7 +179,7 @@ Json &Json::ObjectJson::get_insert(Str key)
         new ((void *) &os_[n_]) ObjectItem(String(key.data(), key.length()), null_json, -1);
         ++n_;
         ++size;
-        if (chain > 4)
+        if (chain > 4 && hash_.size() < 16 * size_t(size))
             rehash();
         return os_[n_ - 1].v_.second;
     }
-- 
2.43.0


From d78d87c5bbc629a5a4209cc6f8a0bc4373384420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:58 +0000
Subject: [PATCH 070/105] fix: Masstree query: the answer to a get of an absent
 key carries no value

---
 MassTree/kvrow.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/MassTree/kvrow.hh b/MassTree/kvrow.hh
index 12db5a7..1ca2159 100644
--- a/MassTree/kvrow.hh
+++ b/MassTree/kvrow.hh
@@ -127,12 +127,12 @@ void query<R>::run_get(T& table, Json& req, threadinfo& ti) {
     bool found = lp.find_unlocked(ti);
     if (found && row_is_marker(lp.value()))
         found = false;
+    f_.clear();
+    for (int i = 3; i != req.size(); ++i) {
+        f_.push_back(req[i].as_i());
+    }
+    req.resize(2);
     if (found) {
-        f_.clear();
-        for (int i = 3; i != req.size(); ++i) {
-            f_.push_back(req[i].as_i());
-        }
-        req.resize(2);
         emit_fields(lp.value(), req, ti);
     }
 }
-- 
2.43.0


From d44c06a7d20b080b0089506359246f3c369011bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:40 +0000
Subject: [PATCH 071/105] fix: value_string: an update reads only what the old
 row has, and fills a gap with zeros

---
 MassTree/value_string.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MassTree/value_string.hh b/MassTree/value_string.hh
index dc35c40..7d0d2f7 100644
--- a/MassTree/value_string.hh
+++ b/MassTree/value_string.hh
@@ -144,7 +144,9 @@ value_string* value_string::update(const Json* first, const Json* last,
     value_string* row = (value_string*) ti.allocate(shallow_size(vallen), memtag_value);
     row->ts_ = ts;
     row->vallen_ = vallen;
+    cut = std::min(cut, vallen_);
     memcpy(row->s_, s_, cut);
+    memset(row->s_ + cut, 0, vallen - cut);
     for (; first != last; first += 2) {
         Str val = first[1].as_s();
         memcpy(row->s_ + index_offset(first[0].as_u()), val.data(), val.length());
-- 
2.43.0


From 8de9033f0bcb64ae96ffc820d44149a5408dee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 072/105] fix: masstree: the destroy callback frees its own
 size

---
 MassTree/masstree_remove.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/masstree_remove.hh b/MassTree/masstree_remove.hh
index 09c80f5..5edb0e0 100644
--- a/MassTree/masstree_remove.hh
+++ b/MassTree/masstree_remove.hh
@@ -360,7 +360,7 @@ void destroy_rcu_callback<P>::operator()(threadinfo& ti) {
             in->deallocate(ti);
         }
     }
-    ti.deallocate(this, sizeof(this), memtag_masstree_gc);
+    ti.deallocate(this, sizeof(*this), memtag_masstree_gc);
 }
 
 template <typename P>
-- 
2.43.0


From 2d7d9e19ecc571dabe733f0faff0b2d781a21b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 073/105] fix: value_versioned_array: a snapshot stays inside
 the row and does not own its columns

---
 MassTree/value_versioned_array.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/MassTree/value_versioned_array.cc b/MassTree/value_versioned_array.cc
index dadd352..9cd4d40 100644
--- a/MassTree/value_versioned_array.cc
+++ b/MassTree/value_versioned_array.cc
@@ -29,16 +29,17 @@ value_versioned_array* value_versioned_array::make_sized_row(int ncol, kvtimesta
 void value_versioned_array::snapshot(value_versioned_array*& storage,
                                      const std::vector<index_type>& f, threadinfo& ti) const {
     if (!storage || storage->ncol_cap_ < ncol_) {
-        if (storage)
-            storage->deallocate(ti);
+        if (storage) // its columns belong to the rows they came from
+            ti.deallocate(storage, shallow_size(storage->ncol_cap_), memtag_value);
         storage = make_sized_row(ncol_, ts_, ti);
     }
     storage->ncol_ = ncol_;
     rowversion v1 = ver_.stable();
     while (1) {
-        if (f.size() == 1)
-            storage->cols_[f[0]] = cols_[f[0]];
-        else
+        if (f.size() == 1) {
+            if (unsigned(f[0]) < unsigned(storage->ncol_))
+                storage->cols_[f[0]] = cols_[f[0]];
+        } else
             memcpy(storage->cols_, cols_, sizeof(cols_[0]) * storage->ncol_);
         rowversion v2 = ver_.stable();
         if (!v1.has_changed(v2))
-- 
2.43.0


From 000461f771cc7130df3f0872a8e23dadf069c576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 074/105] fix: value_versioned_array: an update in place
 changes the timestamp

---
 MassTree/value_versioned_array.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MassTree/value_versioned_array.cc b/MassTree/value_versioned_array.cc
index 9cd4d40..e428e2d 100644
--- a/MassTree/value_versioned_array.cc
+++ b/MassTree/value_versioned_array.cc
@@ -69,6 +69,7 @@ value_versioned_array::update(const Json* first, const Json* last,
         ver_.setdirty();
         fence();
     }
+    row->ts_ = ts;
     if (row->ncol_ < ncol)
         row->ncol_ = ncol;
 
-- 
2.43.0


From ce48d14228b413fb8669550b1da655debab25b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:35 +0000
Subject: [PATCH 075/105] fix: MassTree: rows of 64 KB and more do not overflow
 their column offsets

---
 MassTree/kvrow.hh     | 2 +-
 MassTree/value_bag.hh | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/MassTree/kvrow.hh b/MassTree/kvrow.hh
index 1ca2159..e90c233 100644
--- a/MassTree/kvrow.hh
+++ b/MassTree/kvrow.hh
@@ -32,7 +32,7 @@ typedef value_versioned_array row_type;
 typedef value_string row_type;
 #else
 # include "value_bag.hh"
-typedef value_bag<uint16_t> row_type;
+typedef value_bag<uint32_t> row_type;
 #endif
 
 template <typename R>
diff --git a/MassTree/value_bag.hh b/MassTree/value_bag.hh
index 2dec89d..253eb10 100644
--- a/MassTree/value_bag.hh
+++ b/MassTree/value_bag.hh
@@ -269,12 +269,12 @@ void value_bag<O>::print(FILE *f, const char *prefix, int indent,
     kvtimestamp_t adj_ts = timestamp_sub(ts_, initial_ts);
     if (d_.ncol_ == 1)
         fprintf(f, "%s%*s%.*s = %.*s @" PRIKVTSPARTS "%s\n", prefix, indent, "",
-                key.len, key.s, d_.pos_[1] - d_.pos_[0], d_.s_ + d_.pos_[0],
+                key.len, key.s, int(d_.pos_[1] - d_.pos_[0]), d_.s_ + d_.pos_[0],
                 KVTS_HIGHPART(adj_ts), KVTS_LOWPART(adj_ts), suffix);
     else {
         fprintf(f, "%s%*s%.*s = [", prefix, indent, "", key.len, key.s);
         for (int col = 0; col < d_.ncol_; ++col) {
-            int pos = d_.pos_[col], len = std::min(40, d_.pos_[col + 1] - pos);
+            int pos = d_.pos_[col], len = std::min(40, int(d_.pos_[col + 1] - pos));
             fprintf(f, col ? "|%.*s" : "%.*s", len, d_.s_ + pos);
         }
         fprintf(f, "] @" PRIKVTSPARTS "%s\n",
-- 
2.43.0


From e88d58ef16cb4f6c3fcf9e8c147c5c3f52ca6807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 076/105] fix: mtd: the key and value of a logged request stay
 alive until they are logged

---
 MassTree/mtd.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index a2b725d..1cacff9 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -968,10 +968,10 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
         q.run_get(tree->table(), request, ti);
     } else if (command == Cmd_Put && request.size() > 3
                && (request.size() % 2) == 1) { // insert or update
-        Str key(request[2].as_s());
+        String key(request[2].as_s()); // request[2] is about to change
         const Json* req = request.array_data() + 3;
         const Json* end_req = request.end_array_data();
-        request[2] = q.run_put(tree->table(), request[2].as_s(),
+        request[2] = q.run_put(tree->table(), key,
                                req, end_req, ti);
         if (ti.logger() && request_str) {
             // use the client's parsed version of the request
@@ -982,7 +982,7 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
             ti.logger()->record(logcmd_put, q.query_times(), key, req, end_req);
         request.resize(3);
     } else if (command == Cmd_Replace) { // insert or update
-        Str key(request[2].as_s()), value(request[3].as_s());
+        String key(request[2].as_s()), value(request[3].as_s());
         request[2] = q.run_replace(tree->table(), key, value, ti);
         if (ti.logger()) // NB may block
             ti.logger()->record(logcmd_replace, q.query_times(), key, value);
-- 
2.43.0


From 4c43a3f2f966e1800ad08820e2555388df22c47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 077/105] fix: mtd: requests that do not follow the protocol
 are refused

---
 MassTree/mtd.cc | 56 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index 1cacff9..da165ee 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -62,6 +62,7 @@
 #include "masstree_scan.hh"
 #include "msgpack.hh"
 #include <algorithm>
+#include <limits>
 #include <deque>
 using lcdf::StringAccum;
 
@@ -955,8 +956,63 @@ int handshake(Json& request, threadinfo& ti) {
     return request[2].as_b() ? 1 : -1;
 }
 
+static bool valid_column(const Json& j) {
+    return j.is_i() && j.as_i() >= 0
+        && j.as_i() < std::numeric_limits<row_type::index_type>::max();
+}
+
+// does request have the elements that its command needs?
+static bool valid_request(const Json& request) {
+    if (!request.is_a() || request.size() < 2 || !request[1].is_i())
+        return false;
+    int64_t command = request[1].as_i();
+    if (command == Cmd_Checkpoint)
+        return true;
+    if (request.size() < 3 || !request[2].is_s()
+        || request[2].as_s().length() > MASSTREE_MAXKEYLEN)
+        return false;
+    int fields = 0;
+    switch (command) {
+    case Cmd_Get:
+        fields = 3;
+        break;
+    case Cmd_Scan:
+        if (request.size() < 4 || !request[3].is_i()
+            || request[3].as_i() <= 0 || request[3].as_i() > INT_MAX)
+            return false;
+        fields = 4;
+        break;
+    case Cmd_Replace:
+        return request.size() > 3 && request[3].is_s();
+    case Cmd_Remove:
+        return true;
+    case Cmd_Put:
+        if (request.size() <= 3 || request.size() % 2 == 0)
+            return false;
+        for (int i = 3; i != request.size(); i += 2)
+            if (!valid_column(request[i]) || !request[i + 1].is_s()
+#if !MASSTREE_ROW_TYPE_STR
+                || (i > 3 && request[i - 2].as_i() >= request[i].as_i())
+#endif
+                )
+                return false;
+        return true;
+    default:
+        return false;
+    }
+    for (int i = fields; i != request.size(); ++i)
+        if (!valid_column(request[i]))
+            return false;
+    return true;
+}
+
 // execute command, return result.
 int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
+    if (!valid_request(request)) {
+        request[1] = -1;
+        request.resize(2);
+        return -1;
+    }
     int command = request[1].as_i();
     if (command == Cmd_Checkpoint) {
         // force checkpoint
-- 
2.43.0


From 3bd6c8d7b42359429d87b55999f1bd9efc9e61e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 078/105] fix: mtd: a handshake whose third element is no
 object does not abort the server

---
 MassTree/mtd.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index da165ee..c697c25 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -938,9 +938,12 @@ epochinc(int)
 // Return 1 if success, -1 if I/O error or protocol unmatch
 int handshake(Json& request, threadinfo& ti) {
     always_assert(request.is_a() && request.size() >= 2
-                  && request[1].is_i() && request[1].as_i() == Cmd_Handshake
-                  && (request.size() == 2 || request[2].is_o()));
-    if (request.size() >= 2
+                  && request[1].is_i() && request[1].as_i() == Cmd_Handshake);
+    if (request.size() > 2 && !request[2].is_o()) {
+        request[2] = false;
+        request[3] = "bad handshake";
+        request.resize(4);
+    } else if (request.size() > 2
         && request[2]["maxkeylen"].is_i()
         && request[2]["maxkeylen"].as_i() > MASSTREE_MAXKEYLEN) {
         request[2] = false;
-- 
2.43.0


From 276897b10e90ac3066967db6a6f43e48f1f58d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 079/105] fix: mtd: a client that leaves before its answers are
 sent does not end the server

---
 MassTree/mtd.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index c697c25..683d89a 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -704,6 +704,8 @@ main(int argc, char *argv[])
 
   // for -pg profiling
   signal(SIGINT, catchint);
+  // a client may close its connection before it has read the replies
+  signal(SIGPIPE, SIG_IGN);
 
   // log epoch starts at 1
   global_log_epoch = 1;
-- 
2.43.0


From 335fef028782cd62c784c0a6b305cf51bcfc88e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 080/105] fix: mtd: the answer is written before its rows may
 be reclaimed

---
 MassTree/mtd.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index 683d89a..ece65ab 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1217,8 +1217,10 @@ void* tcp_threadfunc(void* x) {
                     goto closed;
                 ti->rcu_start();
                 ret = onego(q, request, c->recent_string(xposition), *ti);
-                ti->rcu_stop();
+                // the reply may refer to row memory, so stay in RCU until it's
+                // copied
                 msgpack::unparse(*c->kvout, request);
+                ti->rcu_stop();
                 request.clear();
                 if (likely(ret >= 0)) {
                     if (c->check(0))
-- 
2.43.0


From cc6e1015db7f23324e6edfdf8b2b4ad9eae55d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:15 +0000
Subject: [PATCH 081/105] fix: mtd: a datagram is parsed only as far as it
 reaches

---
 MassTree/mtd.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index ece65ab..abbcac2 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1276,7 +1276,7 @@ void* udp_threadfunc(void* x) {
     kvout_reset(kvout);
 
     parser.reset();
-    unsigned consumed = parser.consume(buf.data(), buf.length(), buf);
+    unsigned consumed = parser.consume(buf.data(), cc, buf);
 
     // Fail if we received a partial request
     if (parser.success() && parser.result().is_a()) {
@@ -1287,7 +1287,8 @@ void* udp_threadfunc(void* x) {
             cu << parser.result();
             cc = sendto(s, sa.data(), sa.length(), 0,
                         (struct sockaddr*) &sin, sinlen);
-            always_assert(cc == (ssize_t) sa.length());
+            if (cc != (ssize_t) sa.length()) // e.g. reply too long
+                perror("udpgo sendto");
         }
         ti->rcu_stop();
     } else
-- 
2.43.0


From 6766598e80243b5af6e451cb3db16d11d29be397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:45 +0000
Subject: [PATCH 082/105] fix: msgpack: streaming_parser does not allocate the
 declared length of an array in advance

---
 MassTree/msgpack.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/MassTree/msgpack.cc b/MassTree/msgpack.cc
index 7d9c88f..923eb01 100644
--- a/MassTree/msgpack.cc
+++ b/MassTree/msgpack.cc
@@ -81,9 +81,10 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
         array:
             if (n < 0)
                 goto error;
+            // n is only a claim until the elements arrive, so start small
             if (!jx->is_a())
-                *jx = Json::make_array_reserve(n);
-            jx->resize(n);
+                *jx = Json::make_array_reserve(std::min(n, 64));
+            jx->resize(std::min(n, 64));
         } else if (format::is_fixstr(*first)) {
             n = *first - format::ffixstr;
             ++first;
@@ -200,8 +201,13 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             selem* top = &stack_.back();
             --top->size;
             Json* jo = (top == stack_.begin() ? &json_ : top[-1].jp);
-            if (jo->is_a())
-                ++top->jp;
+            if (jo->is_a()) {
+                if (++top->jp == jo->end_array_data()) {
+                    int pos = jo->size();
+                    jo->resize(pos + std::min(pos, top->size + 1));
+                    top->jp = &jo->at_insert(pos);
+                }
+            }
             else
                 top->jp = &jokey_;
         }
-- 
2.43.0


From 277d1589fa644647efda33bfba63f7dbefc289dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:07 +0000
Subject: [PATCH 083/105] fix: mtd: a remove in the log is replayed as a remove

---
 MassTree/log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index 0cad68b..b22595c 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -550,7 +550,7 @@ inline void logrecord::apply(row_type*& value, bool found,
         }
 
     // actually apply change
-    if (command == logcmd_replace)
+    if (command == logcmd_replace || command == logcmd_remove)
         *cur_value = row_type::create1(val, ts, ti);
     else if (command != logcmd_modify
              || (*cur_value && (*cur_value)->timestamp() == prev_ts)) {
-- 
2.43.0


From 224aa0d307fff7610108c3a5af176cdf7a0e11ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:32 +0000
Subject: [PATCH 084/105] fix: mtd: the columns of a logged request carry no
 array header

---
 MassTree/log.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index b22595c..adad268 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -371,7 +371,6 @@ void loginfo::record(int command, const query_times& qtimes, Str key,
                      const lcdf::Json* req, const lcdf::Json* end_req) {
     lcdf::StringAccum sa(128);
     msgpack::unparser<lcdf::StringAccum> cu(sa);
-    cu.write_array_header(end_req - req);
     for (; req != end_req; ++req)
         cu << *req;
     record(command, qtimes, key, Str(sa.data(), sa.length()));
-- 
2.43.0


From 93ce6d021d367671d79aed29a1b049bccf0391d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:32 +0000
Subject: [PATCH 085/105] fix: mtd: changes of the empty key are replayed

---
 MassTree/log.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index adad268..362489f 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -725,12 +725,11 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
         // correctness of checkpoint scheme.
         assert(repbegin);
         repend = nextpos;
-        if (lr.key.len) { // skip empty entry
-            if (lr.command == logcmd_put
-                || lr.command == logcmd_replace
-                || lr.command == logcmd_modify
-                || lr.command == logcmd_remove)
-                lr.run(tree->table(), jrepo, *ti);
+        if (lr.command == logcmd_put
+            || lr.command == logcmd_replace
+            || lr.command == logcmd_modify
+            || lr.command == logcmd_remove) {
+            lr.run(tree->table(), jrepo, *ti);
             ++nr;
             if (nr % 100000 == 0)
                 fprintf(stderr,
-- 
2.43.0


From 12058c6b400caec07782da2d00c28f552a0de4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:11 +0000
Subject: [PATCH 086/105] fix: msgpack: parser::skip_primitives skips 64-bit
 numbers

---
 MassTree/msgpack.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MassTree/msgpack.hh b/MassTree/msgpack.hh
index 193c3c1..0c55be1 100644
--- a/MassTree/msgpack.hh
+++ b/MassTree/msgpack.hh
@@ -475,6 +475,9 @@ class parser {
             else if (*s_ == format::fuint32 || *s_ == format::fint32
                      || *s_ == format::ffloat32)
                 s_ += 5;
+            else if (*s_ == format::fuint64 || *s_ == format::fint64
+                     || *s_ == format::ffloat64)
+                s_ += 9;
             else if (*s_ == format::fstr8 || *s_ == format::fbin8)
                 s_ += 2 + s_[1];
             else if (*s_ == format::fstr16 || *s_ == format::fbin16)
-- 
2.43.0


From 6d7941df74442fcf42a40b3971ffe24e3c343ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:11 +0000
Subject: [PATCH 087/105] fix: masstree: removing a key that only has a remove
 marker removes nothing

---
 MassTree/kvrow.hh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/MassTree/kvrow.hh b/MassTree/kvrow.hh
index e90c233..8875592 100644
--- a/MassTree/kvrow.hh
+++ b/MassTree/kvrow.hh
@@ -247,12 +247,13 @@ bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     typename T::cursor_type lp(table, key);
     bool found = lp.find_locked(ti);
     R* old_value = found ? lp.value() : nullptr;
-    if (found)
+    bool removed = found && !row_is_marker(old_value);
+    if (removed)
         apply_remove(lp.value(), lp.node()->phantom_epoch_[0], ti);
-    lp.finish(-1, ti);
-    if (found)
+    lp.finish(removed ? -1 : 0, ti);
+    if (removed)
         old_value->deallocate_rcu(ti);
-    return found;
+    return removed;
 }
 
 template <typename R>
-- 
2.43.0


From a9c4f34b7435cbd72cdf1d615a23b7247754b627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:06 +0000
Subject: [PATCH 088/105] fix: mtd: a recovered log ends in the epoch up to
 which it was replayed

---
 MassTree/log.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index 362489f..fa055a7 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -693,6 +693,7 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
     uint64_t nr = 0;
     const char *pos = buf_, *end = buf_ + size_;
     const char *repbegin = 0, *repend = 0;
+    bool end_epoch = false;
     logrecord lr;
     std::vector<lcdf::Json> jrepo;
 
@@ -711,6 +712,7 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
             if (lr.epoch >= max_epoch) {
                 always_assert(repbegin);
                 repend = nextpos;
+                end_epoch = true;
                 break;
             }
         }
@@ -763,6 +765,16 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
     else
         fd = replay_copy(tmplog, repbegin, repend);
 
+    if (end_epoch) {
+        // The log ends in the record of the first epoch that was not
+        // replayed. New log records may have smaller epochs than that one,
+        // so let it say max_epoch.
+        char end_rec[sizeof(logrec_epoch)];
+        size_t n = logrec_epoch::store(end_rec, logcmd_epoch, max_epoch);
+        ssize_t w = pwrite(fd, end_rec, n, repend - repbegin - n);
+        always_assert(size_t(w) == n);
+    }
+
     r = fsync(fd);
     always_assert(r == 0);
     r = close(fd);
-- 
2.43.0


From 1cd274538ffd47737cfe7b3df2883a448c3a626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:38 +0000
Subject: [PATCH 089/105] fix: mtd: the description of a checkpoint is valid
 JSON whatever the keys

---
 MassTree/mtd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index abbcac2..eb60c47 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1623,7 +1623,7 @@ prepare_checkpoint(kvepoch_t min_epoch, int nckthreads, const Str *pv)
 
     Json pvj;
     for (int i = 1; i < nckthreads; ++i)
-        pvj.push_back(Json::make_string(pv[i].s, pv[i].len));
+        pvj.push_back(String(pv[i].s, pv[i].len).to_hex()); // keys may be binary
     j.set("pivots", pvj);
 
     return j;
-- 
2.43.0


From 9ddb22a1dbc5e52b9c317dee75b596d1e42a0d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:48 +0000
Subject: [PATCH 090/105] fix: mtd: a log whose quiescence a later wake has
 outdated is not taken as flushed

---
 MassTree/log.cc | 8 +++++---
 MassTree/log.hh | 8 +++++---
 MassTree/mtd.cc | 4 ++++
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index fa055a7..3dcaad9 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -256,7 +256,7 @@ void* loginfo::run() {
         // to the log (f_.waiting_ != 0), then write a quiescence
         // notification.
         if (!recovering && pos_ == 0 && !quiescent_epoch_
-            && ge != log_epoch_ && ge != we && !f_.waiting_) {
+            && ge != log_epoch_ && (!we || ge > we) && !f_.waiting_) {
             quiescent_epoch_ = log_epoch_ = ge;
             char *p = buf_;
             p += logrec_epoch::store(p, logcmd_epoch, log_epoch_);
@@ -313,8 +313,10 @@ void loginfo::record(int command, const query_times& qtimes,
                 // We're recording a new log record on a log that's been
                 // quiescent for a while. If the quiescence marker has been
                 // flushed, then all epochs less than the query epoch are
-                // effectively on disk.
-                if (flushed_epoch_ == quiescent_epoch_)
+                // effectively on disk. (Not if another log woke up since: then
+                // recovery cannot go beyond that log's wake epoch.)
+                if (flushed_epoch_ == quiescent_epoch_
+                    && (!we || quiescent_epoch_ > we))
                     flushed_epoch_ = qtimes.epoch;
                 quiescent_epoch_ = 0;
                 while (we < qtimes.epoch)
diff --git a/MassTree/log.hh b/MassTree/log.hh
index 3df07fa..f91ad3b 100644
--- a/MassTree/log.hh
+++ b/MassTree/log.hh
@@ -78,8 +78,9 @@ class loginfo {
 
             // We have logged all writes up to, but not including,
             // flushed_epoch_.
-            // Log is quiesced to disk if quiescent_epoch_ != 0
-            // and quiescent_epoch_ == flushed_epoch_.
+            // Log is quiesced to disk if quiescent_epoch_ != 0,
+            // quiescent_epoch_ == flushed_epoch_, and no log has woken up in
+            // quiescent_epoch_ or later.
             // When a log wakes up from quiescence, it sets global_wake_epoch;
             // other threads must record a logcmd_wake in their logs.
             // Invariant: log_epoch_ != quiescent_epoch_ (unless both are 0).
@@ -187,7 +188,8 @@ inline kvepoch_t loginfo::flushed_epoch() const {
 }
 
 inline bool loginfo::quiescent() const {
-    return quiescent_epoch_ && quiescent_epoch_ == flushed_epoch_;
+    return quiescent_epoch_ && quiescent_epoch_ == flushed_epoch_
+        && (!global_wake_epoch || quiescent_epoch_ > global_wake_epoch);
 }
 
 inline int logset::size() const {
diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index eb60c47..682adcd 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1658,7 +1658,11 @@ max_flushed_epoch()
     kvepoch_t mfe = 0, ge = global_log_epoch;
     for (int i = 0; i < nlogger; ++i) {
         loginfo& log = logs->log(i);
+        // with the lock, so that no query that began in an earlier epoch is
+        // still to be recorded
+        log.acquire();
         kvepoch_t fe = log.quiescent() ? ge : log.flushed_epoch();
+        log.release();
         if (!mfe || fe < mfe)
             mfe = fe;
     }
-- 
2.43.0


From ae5e667470e23fd23c832250090febaebeeb9fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:48 +0000
Subject: [PATCH 091/105] fix: mtd: a checkpoint may begin in the first epoch
 of a log

---
 MassTree/log.cc | 3 +--
 MassTree/mtd.cc | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index 3dcaad9..ece0271 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -708,8 +708,7 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
             break;
         }
         if (lr.command == logcmd_epoch) {
-            if ((min_epoch && lr.epoch < min_epoch)
-                || (!min_epoch && !repbegin))
+            if (!repbegin || (min_epoch && lr.epoch < min_epoch))
                 repbegin = pos;
             if (lr.epoch >= max_epoch) {
                 always_assert(repbegin);
diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index 682adcd..fdd40f5 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1524,7 +1524,7 @@ recover(threadinfo *)
 
   // Checks.
   if (rec_ckp_min_epoch) {
-      always_assert(rec_ckp_min_epoch > max_first_epoch);
+      always_assert(rec_ckp_min_epoch >= max_first_epoch);
       always_assert(rec_ckp_min_epoch < rec_replay_max_epoch);
       always_assert(rec_ckp_max_epoch < rec_replay_max_epoch);
       fprintf(stderr, "replay [%" PRIu64 ",%" PRIu64 ") from [%" PRIu64 ",%" PRIu64 ") into ckp [%" PRIu64 ",%" PRIu64 "]\n",
-- 
2.43.0


From 188d3375bbe454d93f7c5fc0e8f5785d57a55b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:48 +0000
Subject: [PATCH 092/105] fix: mtd: requests are served once every log has a
 record of the new run

---
 MassTree/mtd.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index fdd40f5..d6abb43 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1559,6 +1559,20 @@ recover(threadinfo *)
   recovering = false;
   if (recovery_only)
       exit(0);
+
+  // A log that has no records of this run could not bound a later recovery,
+  // so wait until all logs have one.
+  for (int i = 0; i < nlogger; ++i) {
+      loginfo& log = logs->log(i);
+      while (1) {
+          log.acquire();
+          kvepoch_t fe = log.flushed_epoch();
+          log.release();
+          if (fe)
+              break;
+          napms(10);
+      }
+  }
 }
 
 void
-- 
2.43.0


From 7027525eb5a39f824ded27f1093009f67b93c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:48 +0000
Subject: [PATCH 093/105] fix: mtd: a checkpoint's buffer is freed

---
 MassTree/mtd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index d6abb43..f1bdd3d 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1622,7 +1622,7 @@ conc_filecheckpoint(threadinfo *ti)
             ckp_gen.value(), ti->index());
     writecheckpoint(path, c, t0);
     c->count = 0;
-    free(c->vals);
+    free_kvout(c->vals);
 }
 
 static Json
-- 
2.43.0


From 1c14e47368a842c5dd918c62cc462734fc8a22a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:48 +0000
Subject: [PATCH 094/105] fix: mtd: a log that does not exist has no epochs

---
 MassTree/mtd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index f1bdd3d..612ccce 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1447,7 +1447,7 @@ recover(threadinfo *)
   recphase(nckthreads, REC_CKP);
 
   // find minimum maximum timestamp of entries in each log
-  rec_log_infos = new logreplay::info_type[nlogger];
+  rec_log_infos = new logreplay::info_type[nlogger]();
   recphase(nlogger, REC_LOG_TS);
 
   // replay log entries, remove inconsistent entries, and append
-- 
2.43.0


From e84faddfb3a917926b9bb75b91baae2d08b86b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:35 +0000
Subject: [PATCH 095/105] fix: mtd: the parts of a checkpoint are disjoint

---
 MassTree/checkpoint.cc | 2 +-
 MassTree/checkpoint.hh | 1 +
 MassTree/mtd.cc        | 5 ++++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/MassTree/checkpoint.cc b/MassTree/checkpoint.cc
index 0b43a88..ddf7a18 100644
--- a/MassTree/checkpoint.cc
+++ b/MassTree/checkpoint.cc
@@ -18,7 +18,7 @@
 // add one key/value to a checkpoint.
 // called by checkpoint_tree() for each node.
 bool ckstate::visit_value(Str key, const row_type* value, threadinfo&) {
-    if (endkey && key >= endkey)
+    if (has_endkey && key >= endkey)
         return false;
     if (!row_is_marker(value)) {
         msgpack::unparser<kvout> up(*vals);
diff --git a/MassTree/checkpoint.hh b/MassTree/checkpoint.hh
index 7783a96..0134f05 100644
--- a/MassTree/checkpoint.hh
+++ b/MassTree/checkpoint.hh
@@ -28,6 +28,7 @@ struct ckstate {
     threadinfo *ti;
     Str startkey;
     Str endkey;
+    bool has_endkey;
 
     template <typename SS, typename K>
     void visit_leaf(const SS&, const K&, threadinfo&) {
diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index 612ccce..31a1ba6 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1734,6 +1734,8 @@ void* conc_checkpointer(void* x) {
       for (int i = 0; i < nckthreads + 1; i++)
         pv[i].assign(NULL, 0);
       tree->findpivots(pv, nckthreads + 1);
+      // the tree may have changed in between
+      std::sort(pv + 1, pv + nckthreads);
       ti->rcu_stop();
 
       kvepoch_t min_epoch = global_log_epoch;
@@ -1741,7 +1743,8 @@ void* conc_checkpointer(void* x) {
       ckp_gen = ckp_gen.next_nonzero();
       for (int i = 0; i < nckthreads; i++) {
           cks[i].startkey = pv[i];
-          cks[i].endkey = (i == nckthreads - 1 ? Str() : pv[i + 1]);
+          cks[i].endkey = pv[i + 1];
+          cks[i].has_endkey = i != nckthreads - 1;
           cks[i].state = CKState_Go;
           pthread_cond_signal(&cks[i].state_cond);
       }
-- 
2.43.0


From 0df2722c9ee0e3d3fcae911ec6ff413162475643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:48 +0000
Subject: [PATCH 096/105] fix: mtd: every log with records records every wake,
 in its epoch

---
 MassTree/log.cc | 56 +++++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index ece0271..0d7ea2a 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -248,10 +248,9 @@ void* loginfo::run() {
         uint32_t nb = 0;
         acquire();
         kvepoch_t ge = global_log_epoch, we = global_wake_epoch;
-        if (wake_epoch_ != we) {
-            wake_epoch_ = we;
+        // A quiescence before a wake must be renewed.
+        if (quiescent_epoch_ && we && quiescent_epoch_ <= we)
             quiescent_epoch_ = 0;
-        }
         // If the writing threads appear quiescent, and aren't about to write
         // to the log (f_.waiting_ != 0), then write a quiescence
         // notification.
@@ -260,8 +259,6 @@ void* loginfo::run() {
             quiescent_epoch_ = log_epoch_ = ge;
             char *p = buf_;
             p += logrec_epoch::store(p, logcmd_epoch, log_epoch_);
-            if (log_epoch_ == wake_epoch_)
-                p += logrec_base::store(p, logcmd_wake);
             p += logrec_base::store(p, logcmd_quiesce);
             pos_ = p - buf_;
         }
@@ -295,7 +292,7 @@ void loginfo::record(int command, const query_times& qtimes,
                      Str key, Str value) {
     assert(!recovering);
     size_t n = logrec_kvdelta::size(key.len, value.len)
-        + logrec_epoch::size() + logrec_base::size();
+        + 2 * logrec_epoch::size() + logrec_base::size();
     waitlist wait = { &wait };
     int stalls = 0;
     while (1) {
@@ -303,12 +300,6 @@ void loginfo::record(int command, const query_times& qtimes,
             && (wait.next == &wait || f_.waiting_ == &wait)) {
             kvepoch_t we = global_wake_epoch;
 
-            // Potentially record a new epoch.
-            if (qtimes.epoch != log_epoch_) {
-                log_epoch_ = qtimes.epoch;
-                pos_ += logrec_epoch::store(buf_ + pos_, logcmd_epoch, qtimes.epoch);
-            }
-
             if (quiescent_epoch_) {
                 // We're recording a new log record on a log that's been
                 // quiescent for a while. If the quiescence marker has been
@@ -323,16 +314,41 @@ void loginfo::record(int command, const query_times& qtimes,
                     we = cmpxchg(&global_wake_epoch, we, qtimes.epoch);
             }
 
-            // Log epochs should be recorded in monotonically increasing
-            // order, but the wake epoch may be ahead of the query epoch (if
-            // the query took a while). So potentially record an EARLIER
-            // wake_epoch. This will get fixed shortly by the next log
-            // record.
-            if (we != wake_epoch_ && qtimes.epoch < we)
-                we = qtimes.epoch;
-            if (we != wake_epoch_) {
+            // A wake is recorded in its own epoch, which may be before the
+            // query epoch.
+            bool wake = we != wake_epoch_;
+            if (wake && we < qtimes.epoch && (!log_epoch_ || log_epoch_ <= we)) {
+                if (log_epoch_ != we) {
+                    log_epoch_ = we;
+                    pos_ += logrec_epoch::store(buf_ + pos_, logcmd_epoch, we);
+                }
                 wake_epoch_ = we;
                 pos_ += logrec_base::store(buf_ + pos_, logcmd_wake);
+                wake = false;
+            }
+
+            // Potentially record a new epoch.
+            if (qtimes.epoch != log_epoch_) {
+                log_epoch_ = qtimes.epoch;
+                pos_ += logrec_epoch::store(buf_ + pos_, logcmd_epoch, qtimes.epoch);
+            }
+
+            if (wake) {
+                // The log already has records of a later epoch: then the wake
+                // counts as one of the query epoch.
+                while (we < qtimes.epoch)
+                    we = cmpxchg(&global_wake_epoch, we, qtimes.epoch);
+                // Log epochs should be recorded in monotonically increasing
+                // order, but the wake epoch may be ahead of the query epoch
+                // (if the query took a while). So potentially record an
+                // EARLIER wake_epoch. This will get fixed shortly by the next
+                // log record.
+                if (qtimes.epoch < we)
+                    we = qtimes.epoch;
+                if (we != wake_epoch_) {
+                    wake_epoch_ = we;
+                    pos_ += logrec_base::store(buf_ + pos_, logcmd_wake);
+                }
             }
 
             if (command == logcmd_put && qtimes.prev_ts
-- 
2.43.0


From 4d97acfd5d2328c5aebff2863254138425470d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:23 +0000
Subject: [PATCH 097/105] fix: tlx: multisequence_partition takes equal
 elements from the first sequences

---
 STX/tlx/tlx/algorithm/multisequence_partition.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/STX/tlx/tlx/algorithm/multisequence_partition.hpp b/STX/tlx/tlx/algorithm/multisequence_partition.hpp
index 5d362b0..cbf7e99 100644
--- a/STX/tlx/tlx/algorithm/multisequence_partition.hpp
+++ b/STX/tlx/tlx/algorithm/multisequence_partition.hpp
@@ -206,17 +206,16 @@ void multisequence_partition(
         n /= 2;
 
         const value_type* lmax = nullptr; // impossible to avoid the warning?
+        diff_type lmax_seq = -1;
         for (diff_type i = 0; i < m; ++i)
         {
             if (a[i] > 0)
             {
-                if (!lmax)
-                    lmax = &(begin_seqs[i].first[a[i] - 1]);
-                else
+                // max, favor rear sequences
+                if (!lmax || !comp(begin_seqs[i].first[a[i] - 1], *lmax))
                 {
-                    // max, favor rear sequences
-                    if (!comp(begin_seqs[i].first[a[i] - 1], *lmax))
-                        lmax = &(begin_seqs[i].first[a[i] - 1]);
+                    lmax = &(begin_seqs[i].first[a[i] - 1]);
+                    lmax_seq = i;
                 }
             }
         }
@@ -225,7 +224,8 @@ void multisequence_partition(
         {
             diff_type middle = (b[i] + a[i]) / 2;
             if (lmax && middle < seqlen[i] &&
-                comp(begin_seqs[i].first[middle], *lmax))
+                lcomp(SamplePair(begin_seqs[i].first[middle], i),
+                      SamplePair(*lmax, lmax_seq)))
                 a[i] = std::min(a[i] + n + 1, seqlen[i]);
             else
                 b[i] -= n + 1;
-- 
2.43.0


From 8936e923d93e17ee8106582e6009e2ede368563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:21 +0000
Subject: [PATCH 098/105] fix: masstree: splits and removals find a node in its
 parent by its address

---
 MassTree/masstree_remove.hh  | 19 +++++--------------
 MassTree/masstree_split.hh   |  6 +-----
 MassTree/masstree_struct.hh  | 12 ++++++++++++
 MassTree/masstree_tcursor.hh |  4 ++--
 4 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/MassTree/masstree_remove.hh b/MassTree/masstree_remove.hh
index 5edb0e0..cf758fb 100644
--- a/MassTree/masstree_remove.hh
+++ b/MassTree/masstree_remove.hh
@@ -212,7 +212,6 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, basic_table<P>* table,
 
     // Remove leaf from tree, collapse trivial chains, and rewrite
     // ikey bounds.
-    ikey_type ikey = leaf->ikey_bound();
     node_type* n = leaf;
     node_type* replacement = nullptr;
 
@@ -221,12 +220,7 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, basic_table<P>* table,
         p->mark_insert();
         masstree_invariant(!p->deleted());
 
-        int kp = internode_type::bound_type::upper(ikey, *p);
-        while (kp > 0 && p->child_[kp] != n)
-            --kp;               // other nodes being removed may share the bound
-        masstree_invariant(kp == 0 || p->ikey0_[kp - 1] <= ikey); // NB ikey might not equal!
-        masstree_invariant(p->child_[kp] == n);
-
+        int kp = p->child_position(n);
         p->child_[kp] = replacement;
 
         if (replacement) {
@@ -237,8 +231,7 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, basic_table<P>* table,
         }
 
         if (kp <= 1 && p->nkeys_ > 0 && !p->child_[0]) {
-            redirect(p, ikey, p->ikey0_[0], ti);
-            ikey = p->ikey0_[0];
+            redirect(p, p->ikey0_[0], ti);
         }
 
         n->unlock();
@@ -264,8 +257,8 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, basic_table<P>* table,
 }
 
 template <typename P>
-void tcursor<P>::redirect(internode_type* n, ikey_type ikey,
-                          ikey_type replacement_ikey, threadinfo& ti)
+void tcursor<P>::redirect(internode_type* n, ikey_type replacement_ikey,
+                          threadinfo& ti)
 {
     int kp = -1;
     do {
@@ -273,10 +266,8 @@ void tcursor<P>::redirect(internode_type* n, ikey_type ikey,
         if (kp >= 0) {
             n->unlock();
         }
-        kp = internode_type::bound_type::upper(ikey, *p);
-        masstree_invariant(p->child_[kp] == n);
+        kp = p->child_position(n);
         if (kp > 0) {
-            // NB p->ikey0_[kp - 1] might not equal ikey
             p->ikey0_[kp - 1] = replacement_ikey;
         }
         n = p;
diff --git a/MassTree/masstree_split.hh b/MassTree/masstree_split.hh
index 9bbfbc8..fc0bc21 100644
--- a/MassTree/masstree_split.hh
+++ b/MassTree/masstree_split.hh
@@ -211,11 +211,7 @@ bool tcursor<P>::make_split(threadinfo& ti)
 
         int kp = -1;
         if (n->parent_exists(p)) {
-            kp = internode_type::bound_type::upper(xikey[sense], *p);
-            // a right neighbour with this very bound may still be waiting for its
-            // removal from `p`; the new node belongs next to `n`, left of it
-            while (kp > 0 && p->ikey0_[kp - 1] == xikey[sense])
-                --kp;
+            kp = p->child_position(n);
             p->mark_insert();
         }
 
diff --git a/MassTree/masstree_struct.hh b/MassTree/masstree_struct.hh
index 494dcca..9972454 100644
--- a/MassTree/masstree_struct.hh
+++ b/MassTree/masstree_struct.hh
@@ -161,6 +161,18 @@ class internode : public node_base<P> {
     }
 
   private:
+    /** @brief Return the position of @a child.
+
+        Its bound does not tell. While a leaf waits for its removal from the
+        tree, its left neighbour already holds its keys and can be split at
+        them, so the bounds of siblings can be out of order for a while. */
+    int child_position(const node_base<P>* child) const {
+        int kp = nkeys_;
+        while (kp > 0 && child_[kp] != child)
+            --kp;
+        masstree_invariant(child_[kp] == child);
+        return kp;
+    }
     void assign(int p, ikey_type ikey, node_base<P>* child) {
         child->set_parent(this);
         child_[p + 1] = child;
diff --git a/MassTree/masstree_tcursor.hh b/MassTree/masstree_tcursor.hh
index 7ec4d4f..ee37076 100644
--- a/MassTree/masstree_tcursor.hh
+++ b/MassTree/masstree_tcursor.hh
@@ -179,8 +179,8 @@ class tcursor {
     inline void finish_insert();
     inline bool finish_remove(threadinfo& ti);
 
-    static void redirect(internode_type* n, ikey_type ikey,
-                         ikey_type replacement, threadinfo& ti);
+    static void redirect(internode_type* n, ikey_type replacement,
+                         threadinfo& ti);
     /** Remove @a leaf from the Masstree rooted at @a rootp.
      * @param prefix String defining the path to the tree containing this leaf.
      *   If removing a leaf in layer 0, @a prefix is empty.
-- 
2.43.0


From 63cf1503f1b4b9c34d41ad86b456aec2daa306cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:55 +0000
Subject: [PATCH 099/105] fix: tlx: parallel_mergesort destroys its temporary
 copies

---
 STX/tlx/tlx/sort/parallel_mergesort.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/STX/tlx/tlx/sort/parallel_mergesort.hpp b/STX/tlx/tlx/sort/parallel_mergesort.hpp
index da7c475..98f0c12 100644
--- a/STX/tlx/tlx/sort/parallel_mergesort.hpp
+++ b/STX/tlx/tlx/sort/parallel_mergesort.hpp
@@ -257,6 +257,8 @@ void parallel_sort_mwms_pu(PMWMSSortingData<RandomAccessIterator>* sd,
 
     barrier.wait();
 
+    for (DiffType i = 0; i < length_local; ++i)
+        sd->temporary[iam][i].~ValueType();
     operator delete (sd->temporary[iam]);
 }
 
-- 
2.43.0


From 1dad9940a072778888ba49a811d31206634ed4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:31 +0000
Subject: [PATCH 100/105] fix: tlx: nested sample sort steps take the LCPs of
 the sorted strings

---
 STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
index f89eba5..2c54de4 100644
--- a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
+++ b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
@@ -207,9 +207,9 @@ template <size_t bktnum, typename Context, typename Classify,
 void ps5_sample_sort_lcp(const Context& ctx, const Classify& classifier,
                          const StringPtr& strptr, size_t depth,
                          const BktSizeType* bkt) {
-    assert(!strptr.flipped());
-
-    const typename StringPtr::StringSet& strset = strptr.active();
+    // the sorted strings were copied back to the original array
+    const typename StringPtr::StringSet& strset =
+        strptr.flipped() ? strptr.shadow() : strptr.active();
     typedef typename Context::key_type key_type;
 
     size_t b = 0;         // current bucket number
-- 
2.43.0


From fb7876c8131f2c19f64885d22870566efcf6f447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:31 +0000
Subject: [PATCH 101/105] fix: tlx: parallel_multiway_merge of a part of the
 elements

---
 .../tlx/algorithm/parallel_multiway_merge.hpp | 30 ++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp b/STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp
index 3b6916b..a45be92 100644
--- a/STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp
+++ b/STX/tlx/tlx/algorithm/parallel_multiway_merge.hpp
@@ -27,6 +27,7 @@
 #include <omp.h>
 #endif
 
+#include <tlx/algorithm/multisequence_partition.hpp>
 #include <tlx/algorithm/multiway_merge.hpp>
 #include <tlx/algorithm/multiway_merge_splitting.hpp>
 #include <tlx/simple_vector.hpp>
@@ -99,11 +100,32 @@ RandomAccessIterator3 parallel_multiway_merge_base(
         }
     }
 
-    size_t num_seqs = seqs_ne.size();
-
-    if (total_size == 0 || num_seqs == 0)
+    if (total_size == 0 || size == 0)
         return target;
 
+    // where the merge leaves the sequences
+    std::vector<RandomAccessIterator> ends(seqs_ne.size());
+    multisequence_partition(
+        seqs_ne.begin(), seqs_ne.end(),
+        std::min(static_cast<DiffType>(size), total_size), ends.begin(), comp);
+
+    if (size < total_size)
+    {
+        // cut off what is not merged, and keep the order of the ends in
+        // seqs_begin
+        total_size = size;
+        std::vector<RandomAccessIteratorPair> seqs_cut;
+        seqs_cut.reserve(seqs_ne.size());
+        for (size_t s = 0; s < seqs_ne.size(); ++s)
+        {
+            if (seqs_ne[s].first != ends[s])
+                seqs_cut.emplace_back(seqs_ne[s].first, ends[s]);
+        }
+        seqs_ne.swap(seqs_cut);
+    }
+
+    size_t num_seqs = seqs_ne.size();
+
     if (static_cast<DiffType>(num_threads) > total_size)
         num_threads = total_size;
 
@@ -180,7 +202,7 @@ RandomAccessIterator3 parallel_multiway_merge_base(
     for (RandomAccessIteratorIterator ii = seqs_begin; ii != seqs_end; ++ii)
     {
         if (ii->first != ii->second)
-            ii->first = chunks[num_threads - 1][count_seqs++].second;
+            ii->first = ends[count_seqs++];
     }
 
     return target + size;
-- 
2.43.0


From bf4a268c296cb0f26de3a52ce8e22543da161d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:12 +0000
Subject: [PATCH 102/105] fix: tlx: SSClassifyEqualUnroll returns the right
 splitter

---
 STX/tlx/tlx/sort/strings/sample_sort_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/STX/tlx/tlx/sort/strings/sample_sort_tools.hpp b/STX/tlx/tlx/sort/strings/sample_sort_tools.hpp
index 9278235..5e55a85 100644
--- a/STX/tlx/tlx/sort/strings/sample_sort_tools.hpp
+++ b/STX/tlx/tlx/sort/strings/sample_sort_tools.hpp
@@ -562,7 +562,7 @@ public:
     //! return a splitter
     key_type get_splitter(unsigned int i) const {
         return splitter_tree_[
-            PerfectTreeCalculations<treebits>::pre_to_levelorder(i)];
+            PerfectTreeCalculations<treebits>::pre_to_levelorder(i + 1)];
     }
 
 private:
-- 
2.43.0


From 0fdd10bbfd0f962126c6ab43742ad43bbf29b9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:53 +0000
Subject: [PATCH 103/105] fix: tlx: a sample sort step is not touched after it
 may be finished

---
 STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
index 2c54de4..7ae2229 100644
--- a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
+++ b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
@@ -1362,10 +1362,10 @@ public:
             ctx_.enqueue(this, strptr_.flip(bkt[i], bktsize), depth_);
         }
 
-        this->substep_notify_done(); // release anonymous subjob handle
-
         if (!strptr_.with_lcp)
             bkt_[0].destroy();
+
+        this->substep_notify_done(); // release anonymous subjob handle
     }
 
     /*------------------------------------------------------------------------*/
-- 
2.43.0


From 93bc383c91775f6d3504563a5d8ac1bfc843f1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:42 +0000
Subject: [PATCH 104/105] fix: tlx: a sample sort step is not read after its
 last job was enqueued

---
 STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
index 7ae2229..860cf26 100644
--- a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
+++ b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
@@ -1185,8 +1185,10 @@ public:
         classifier_.build(samples.data(), sample_size, splitter_lcp_);
 
         // create new jobs
-        pwork_ = parts_;
-        for (unsigned int p = 0; p < parts_; ++p) {
+        // (the step may be finished and deleted once the last is enqueued)
+        const size_t parts = parts_;
+        pwork_ = parts;
+        for (unsigned int p = 0; p < parts; ++p) {
             ctx_.threads_.enqueue([this, p]() { count(p); });
         }
     }
@@ -1237,8 +1239,10 @@ public:
         assert(sum == strptr_.size());
 
         // create new jobs
-        pwork_ = parts_;
-        for (unsigned int p = 0; p < parts_; ++p) {
+        // (the step may be finished and deleted once the last is enqueued)
+        const size_t parts = parts_;
+        pwork_ = parts;
+        for (unsigned int p = 0; p < parts; ++p) {
             ctx_.threads_.enqueue([this, p]() { distribute(p); });
         }
     }
-- 
2.43.0


From dc651b9c59c2efc91606420b3874d412b1ae5363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:57 +0000
Subject: [PATCH 105/105] fix: tlx: the sample sort finds its bucket cache
 again after the quicksort moved it

---
 STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
index 860cf26..4a23245 100644
--- a/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
+++ b/STX/tlx/tlx/sort/strings/parallel_sample_sort.hpp
@@ -448,10 +448,13 @@ public:
         assert(ss_front_ == 0);
         assert(ss_stack_.size() == 0);
 
-        std::uint16_t* bktcache = reinterpret_cast<std::uint16_t*>(bktcache_.data());
+        // (sort_mkqs_cache() may replace the cache by a bigger one)
+        auto bktcache = [this]() {
+                            return reinterpret_cast<std::uint16_t*>(bktcache_.data());
+                        };
 
         // sort first level
-        ss_stack_.emplace_back(ctx_, strptr, depth, bktcache);
+        ss_stack_.emplace_back(ctx_, strptr, depth, bktcache());
 
         // step 5: "recursion"
 
@@ -502,7 +505,7 @@ public:
                                 << int(s.splitter_lcp[i / 2] & 0x7F);
 
                         ss_stack_.emplace_back(
-                            ctx_, sp, s.depth_ + (s.splitter_lcp[i / 2] & 0x7F), bktcache);
+                            ctx_, sp, s.depth_ + (s.splitter_lcp[i / 2] & 0x7F), bktcache());
                     }
                 }
                 // i is odd -> bkt[i] is equal bucket
@@ -540,7 +543,7 @@ public:
                             << i << " size " << bktsize << " lcp keydepth!";
 
                         ss_stack_.emplace_back(
-                            ctx_, sp, s.depth_ + sizeof(key_type), bktcache);
+                            ctx_, sp, s.depth_ + sizeof(key_type), bktcache());
                     }
                 }
             }
-- 
2.43.0

