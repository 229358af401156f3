From c478e160dfcf9e4c60b7c2350f174f547b2cd8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 01/45] fix: ARTOLC insert reads a node's prefix length once

checkPrefixPessimistic runs under an optimistic read lock and re-read the prefix length
several times; a concurrent prefix change in between made the length of the memcpy of the
remaining prefix underflow to about 4 GB.
---
 ARTOLC/Tree.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index 4f515f9..81fb8f2 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -578,8 +578,10 @@ namespace ART_OLC {
                                                                         LoadKeyFunction loadKey, bool &needRestart) {
         if (n->hasPrefix()) {
             uint32_t prevLevel = level;
+            // read once: a concurrent writer may change it under our optimistic read
+            const uint32_t prefixLength = n->getPrefixLength();
             Key kt;
-            for (uint32_t i = 0; i < n->getPrefixLength(); ++i) {
+            for (uint32_t i = 0; i < prefixLength; ++i) {
                 if (i == maxStoredPrefixLength) {
                     auto anyTID = N::getAnyChildTid(n, needRestart);
                     if (needRestart) return CheckPrefixPessimisticResult::Match;
@@ -588,16 +590,16 @@ namespace ART_OLC {
                 uint8_t curKey = i >= maxStoredPrefixLength ? kt[level] : n->getPrefix()[i];
                 if (curKey != k[level]) {
                     nonMatchingKey = curKey;
-                    if (n->getPrefixLength() > maxStoredPrefixLength) {
+                    if (prefixLength > maxStoredPrefixLength) {
                         if (i < maxStoredPrefixLength) {
                             auto anyTID = N::getAnyChildTid(n, needRestart);
                             if (needRestart) return CheckPrefixPessimisticResult::Match;
                             loadKey(anyTID, kt);
                         }
-                        memcpy(nonMatchingPrefix, &kt[0] + level + 1, std::min((n->getPrefixLength() - (level - prevLevel) - 1),
+                        memcpy(nonMatchingPrefix, &kt[0] + level + 1, std::min((prefixLength - (level - prevLevel) - 1),
                                                                            maxStoredPrefixLength));
                     } else {
-                        memcpy(nonMatchingPrefix, n->getPrefix() + i + 1, n->getPrefixLength() - i - 1);
+                        memcpy(nonMatchingPrefix, n->getPrefix() + i + 1, prefixLength - i - 1);
                     }
                     return CheckPrefixPessimisticResult::NoMatch;
                 }
-- 
2.43.0


From 62a86ae2aa03d34d5b06f73389e01392abc05b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 02/45] fix: ARTOLC remove re-validates the parent after
 reading the child's version

Without it a prefix split between reading the child pointer and reading the child's version
makes remove miss a present key and return without removing it.
---
 ARTOLC/Tree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index 81fb8f2..8d54dda 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -477,6 +477,11 @@ namespace ART_OLC {
             node = nextNode;
             auto v = node->readLockOrRestart(needRestart);
             if (needRestart) goto restart;
+            if (parentNode != nullptr) {
+                // a prefix split may have replaced node in its parent before we read its version
+                parentNode->checkOrRestart(parentVersion, needRestart);
+                if (needRestart) goto restart;
+            }
 
             switch (checkPrefix(node, k, level)) { // increases level
                 case CheckPrefixResult::NoMatch:
-- 
2.43.0


From 27eea2cd3648b46ab87fce0dfdca9671c5d7f838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 03/45] fix: ARTOLC publishes the entered epoch before reading
 nodes

A release store may stay in the store buffer while the following loads execute, so another
thread's cleanup can free nodes the entering thread is about to read.
---
 ARTOLC/Epoche.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ARTOLC/Epoche.cpp b/ARTOLC/Epoche.cpp
index 2ff107b..1ee0338 100644
--- a/ARTOLC/Epoche.cpp
+++ b/ARTOLC/Epoche.cpp
@@ -67,7 +67,7 @@ inline LabelDelete *DeletionList::head() {
 
 __attribute_used__ inline void Epoche::enterEpoche(ThreadInfo &epocheInfo) {
     unsigned long curEpoche = currentEpoche.load(std::memory_order_relaxed);
-    epocheInfo.getDeletionList().localEpoche.store(curEpoche, std::memory_order_release);
+    epocheInfo.getDeletionList().localEpoche.store(curEpoche);  // seq_cst: must be visible before this thread reads any node
 }
 
 __attribute_used__ inline void Epoche::markNodeForDeletion(void *n, ThreadInfo &epocheInfo) {
-- 
2.43.0


From ad31a79d863f73b977362c350b3dd3a34c10cc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:54 +0000
Subject: [PATCH 04/45] fix: ARTOLC range lookup returns exactly the keys of
 the range

It returned keys outside the range (single-child leaves were not compared, N16 returned its
first/last child when the bound's byte was absent), dereferenced null or a leaf when both
bounds share a path, never left its retry loop on an obsolete node or after one failed
parent check, and copied unvalidated children.
---
 ARTOLC/N16.cpp  |  22 ++--
 ARTOLC/N256.cpp |   5 +-
 ARTOLC/N4.cpp   |   5 +-
 ARTOLC/N48.cpp  |   5 +-
 ARTOLC/Tree.cpp | 291 +++++++++++++-----------------------------------
 ARTOLC/Tree.h   |   2 +
 6 files changed, 103 insertions(+), 227 deletions(-)

diff --git a/ARTOLC/N16.cpp b/ARTOLC/N16.cpp
index be6f97e..ef7b731 100644
--- a/ARTOLC/N16.cpp
+++ b/ARTOLC/N16.cpp
@@ -91,19 +91,17 @@ namespace ART_OLC {
         bool needRestart = false;
         uint64_t v;
         v = readLockOrRestart(needRestart);
-        if (needRestart) goto restart;
-        childrenCount = 0;
-        auto startPos = getChildPos(start);
-        auto endPos = getChildPos(end);
-        if (startPos == nullptr) {
-            startPos = this->children;
-        }
-        if (endPos == nullptr) {
-            endPos = this->children + (count - 1);
+        if (needRestart) {
+            if (isObsolete(typeVersionLockObsolete.load())) return 0;  // unlinked: never becomes readable again
+            goto restart;
         }
-        for (auto p = startPos; p <= endPos; ++p) {
-            children[childrenCount] = std::make_tuple(flipSign(keys[p - this->children]), *p);
-            childrenCount++;
+        childrenCount = 0;
+        for (uint32_t i = 0; i < count; ++i) {
+            const uint8_t key = flipSign(keys[i]);
+            if (key >= start && key <= end) {
+                children[childrenCount] = std::make_tuple(key, this->children[i]);
+                childrenCount++;
+            }
         }
         readUnlockOrRestart(v, needRestart);
         if (needRestart) goto restart;
diff --git a/ARTOLC/N256.cpp b/ARTOLC/N256.cpp
index c667a79..e568841 100644
--- a/ARTOLC/N256.cpp
+++ b/ARTOLC/N256.cpp
@@ -69,7 +69,10 @@ namespace ART_OLC {
         bool needRestart = false;
         uint64_t v;
         v = readLockOrRestart(needRestart);
-        if (needRestart) goto restart;
+        if (needRestart) {
+            if (isObsolete(typeVersionLockObsolete.load())) return 0;  // unlinked: never becomes readable again
+            goto restart;
+        }
         childrenCount = 0;
         for (unsigned i = start; i <= end; i++) {
             if (this->children[i] != nullptr) {
diff --git a/ARTOLC/N4.cpp b/ARTOLC/N4.cpp
index 0a3d4ea..11e00c8 100644
--- a/ARTOLC/N4.cpp
+++ b/ARTOLC/N4.cpp
@@ -94,7 +94,10 @@ namespace ART_OLC {
         bool needRestart = false;
         uint64_t v;
         v = readLockOrRestart(needRestart);
-        if (needRestart) goto restart;
+        if (needRestart) {
+            if (isObsolete(typeVersionLockObsolete.load())) return 0;  // unlinked: never becomes readable again
+            goto restart;
+        }
         childrenCount = 0;
         for (uint32_t i = 0; i < count; ++i) {
             if (this->keys[i] >= start && this->keys[i] <= end) {
diff --git a/ARTOLC/N48.cpp b/ARTOLC/N48.cpp
index b9d1bfb..058e67b 100644
--- a/ARTOLC/N48.cpp
+++ b/ARTOLC/N48.cpp
@@ -81,7 +81,10 @@ namespace ART_OLC {
         bool needRestart = false;
         uint64_t v;
         v = readLockOrRestart(needRestart);
-        if (needRestart) goto restart;
+        if (needRestart) {
+            if (isObsolete(typeVersionLockObsolete.load())) return 0;  // unlinked: never becomes readable again
+            goto restart;
+        }
         childrenCount = 0;
         for (unsigned i = start; i <= end; i++) {
             if (this->childIndex[i] != emptyMarker) {
diff --git a/ARTOLC/Tree.cpp b/ARTOLC/Tree.cpp
index 8d54dda..33ef02b 100644
--- a/ARTOLC/Tree.cpp
+++ b/ARTOLC/Tree.cpp
@@ -99,235 +99,91 @@ namespace ART_OLC {
         }
         EpocheGuard epocheGuard(threadEpocheInfo);
         TID toContinue = 0;
-        std::function<void(const N *)> copy = [&result, &resultSize, &resultsFound, &toContinue, &copy](const N *node) {
-            if (N::isLeaf(node)) {
-                if (resultsFound == resultSize) {
-                    toContinue = N::getLeaf(node);
-                    return;
-                }
-                result[resultsFound] = N::getLeaf(node);
-                resultsFound++;
-            } else {
-                std::tuple<uint8_t, N *> children[256];
-                uint32_t childrenCount = 0;
-                N::getChildren(node, 0u, 255u, children, childrenCount);
-                for (uint32_t i = 0; i < childrenCount; ++i) {
-                    const N *n = std::get<1>(children[i]);
-                    copy(n);
-                    if (toContinue != 0) {
-                        break;
-                    }
+        resultsFound = 0;
+        // lower bound of what is still to be read: start, or (exclusively) the last key already in result
+        const Key *from = &start;
+        Key lastKey;
+
+        auto addLeaf = [&](TID tid, bool checkStart, bool checkEnd) {
+            if (checkStart || checkEnd) {
+                Key key;
+                loadKey(tid, key);
+                if (checkStart) {
+                    int c = compareKeys(key, *from, 0);
+                    if (c < 0 || (c == 0 && from != &start)) return;
                 }
+                if (checkEnd && compareKeys(key, end, 255) >= 0) return;
             }
-        };
-        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart = [&copy, &start, &findStart, &toContinue, this](
-                N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
-            if (N::isLeaf(node)) {
-                copy(node);
+            if (resultsFound == resultSize) {
+                toContinue = tid;
                 return;
             }
-            uint64_t v;
-            PCCompareResults prefixResult;
-
-            {
-                readAgain:
-                bool needRestart = false;
-                v = node->readLockOrRestart(needRestart);
-                if (needRestart) goto readAgain;
-
-                prefixResult = checkPrefixCompare(node, start, 0, level, loadKey, needRestart);
-                if (needRestart) goto readAgain;
-
+            result[resultsFound] = tid;
+            resultsFound++;
+        };
+        // adds the part of the subtree that lies in the range; sets needRestart if a node was changed meanwhile
+        std::function<void(N *, uint32_t, const N *, uint64_t, bool, bool, bool &)> addSubtree = [&](
+                N *node, uint32_t level, const N *parentNode, uint64_t vp, bool checkStart, bool checkEnd, bool &needRestart) {
+            uint64_t v = node->readLockOrRestart(needRestart);
+            if (needRestart) return;
+            if (parentNode != nullptr) {
                 parentNode->readUnlockOrRestart(vp, needRestart);
-                if (needRestart) {
-                    readParentAgain:
-		  needRestart = false;
-                    vp = parentNode->readLockOrRestart(needRestart);
-                    if (needRestart) goto readParentAgain;
-
-                    node = N::getChild(nodeK, parentNode);
-
-                    parentNode->readUnlockOrRestart(vp, needRestart);
-                    if (needRestart) goto readParentAgain;
-
-                    if (node == nullptr) {
-                        return;
-                    }
-                    if (N::isLeaf(node)) {
-                        copy(node);
-                        return;
-                    }
-                    goto readAgain;
-                }
-                node->readUnlockOrRestart(v, needRestart);
-                if (needRestart) goto readAgain;
+                if (needRestart) return;
             }
-
-            switch (prefixResult) {
-                case PCCompareResults::Bigger:
-                    copy(node);
-                    break;
-                case PCCompareResults::Equal: {
-                    uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
-                    std::tuple<uint8_t, N *> children[256];
-                    uint32_t childrenCount = 0;
-                    v = N::getChildren(node, startLevel, 255, children, childrenCount);
-                    for (uint32_t i = 0; i < childrenCount; ++i) {
-                        const uint8_t k = std::get<0>(children[i]);
-                        N *n = std::get<1>(children[i]);
-                        if (k == startLevel) {
-                            findStart(n, k, level + 1, node, v);
-                        } else if (k > startLevel) {
-                            copy(n);
-                        }
-                        if (toContinue != 0) {
-                            break;
-                        }
-                    }
-                    break;
-                }
-                case PCCompareResults::Smaller:
-                    break;
+            auto startResult = PCCompareResults::Bigger;
+            auto endResult = PCCompareResults::Smaller;
+            uint32_t nextLevel = level;
+            if (checkStart) {
+                startResult = checkPrefixCompare(node, *from, 0, nextLevel, loadKey, needRestart);
+                if (needRestart) return;
             }
-        };
-        std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd = [&copy, &end, &toContinue, &findEnd, this](
-                N *node, uint8_t nodeK, uint32_t level, const N *parentNode, uint64_t vp) {
-            if (N::isLeaf(node)) {
+            if (checkEnd) {
+                nextLevel = level;
+                endResult = checkPrefixCompare(node, end, 255, nextLevel, loadKey, needRestart);
+                if (needRestart) return;
+            }
+            level = level + node->getPrefixLength();
+            node->readUnlockOrRestart(v, needRestart);
+            if (needRestart) return;
+            if (startResult == PCCompareResults::Smaller || endResult == PCCompareResults::Bigger) {
                 return;
             }
-            uint64_t v;
-            PCCompareResults prefixResult;
-            {
-                readAgain:
-                bool needRestart = false;
-                v = node->readLockOrRestart(needRestart);
-                if (needRestart) goto readAgain;
-
-                prefixResult = checkPrefixCompare(node, end, 255, level, loadKey, needRestart);
-                if (needRestart) goto readAgain;
-
-                parentNode->readUnlockOrRestart(vp, needRestart);
-                if (needRestart) {
-                    readParentAgain:
-                    vp = parentNode->readLockOrRestart(needRestart);
-                    if (needRestart) goto readParentAgain;
-
-                    node = N::getChild(nodeK, parentNode);
-
-                    parentNode->readUnlockOrRestart(vp, needRestart);
-                    if (needRestart) goto readParentAgain;
-
-                    if (node == nullptr) {
-                        return;
-                    }
-                    if (N::isLeaf(node)) {
-                        return;
-                    }
-                    goto readAgain;
+            checkStart = startResult == PCCompareResults::Equal;
+            checkEnd = endResult == PCCompareResults::Equal;
+
+            uint8_t startLevel = !checkStart ? 0 : (from->getKeyLen() > level) ? (*from)[level] : 0;
+            uint8_t endLevel = !checkEnd ? 255 : (end.getKeyLen() > level) ? end[level] : 255;
+            std::tuple<uint8_t, N *> children[256];
+            uint32_t childrenCount = 0;
+            N::getChildren(node, startLevel, endLevel, children, childrenCount);
+            node->readUnlockOrRestart(v, needRestart);
+            if (needRestart) return;
+            for (uint32_t i = 0; i < childrenCount; ++i) {
+                const uint8_t k = std::get<0>(children[i]);
+                N *n = std::get<1>(children[i]);
+                bool onStart = checkStart && k == startLevel;
+                bool onEnd = checkEnd && k == endLevel;
+                if (N::isLeaf(n)) {
+                    addLeaf(N::getLeaf(n), onStart, onEnd);
+                } else {
+                    addSubtree(n, level + 1, node, v, onStart, onEnd, needRestart);
                 }
-                node->readUnlockOrRestart(v, needRestart);
-                if (needRestart) goto readAgain;
-            }
-            switch (prefixResult) {
-                case PCCompareResults::Smaller:
-                    copy(node);
-                    break;
-                case PCCompareResults::Equal: {
-                    uint8_t endLevel = (end.getKeyLen() > level) ? end[level] : 255;
-                    std::tuple<uint8_t, N *> children[256];
-                    uint32_t childrenCount = 0;
-                    v = N::getChildren(node, 0, endLevel, children, childrenCount);
-                    for (uint32_t i = 0; i < childrenCount; ++i) {
-                        const uint8_t k = std::get<0>(children[i]);
-                        N *n = std::get<1>(children[i]);
-                        if (k == endLevel) {
-                            findEnd(n, k, level + 1, node, v);
-                        } else if (k < endLevel) {
-                            copy(n);
-                        }
-                        if (toContinue != 0) {
-                            break;
-                        }
-                    }
-                    break;
+                if (needRestart || toContinue != 0) {
+                    return;
                 }
-                case PCCompareResults::Bigger:
-                    break;
             }
         };
 
-
         int restartCount = 0;
-    restart:
-        if (restartCount++)
-           yield(restartCount);
-        bool needRestart = false;
-
-        resultsFound = 0;
-
-        uint32_t level = 0;
-        N *node = nullptr;
-        N *nextNode = root;
-        N *parentNode;
-        uint64_t v = 0;
-        uint64_t vp;
-
         while (true) {
-            parentNode = node;
-            vp = v;
-            node = nextNode;
-            PCEqualsResults prefixResult;
-            v = node->readLockOrRestart(needRestart);
-            if (needRestart) goto restart;
-            prefixResult = checkPrefixEquals(node, level, start, end, loadKey, needRestart);
-            if (needRestart) goto restart;
-            if (parentNode != nullptr) {
-                parentNode->readUnlockOrRestart(vp, needRestart);
-                if (needRestart) goto restart;
+            bool needRestart = false;
+            addSubtree(root, 0, nullptr, 0, true, true, needRestart);
+            if (!needRestart) break;
+            if (resultsFound != 0) {
+                loadKey(result[resultsFound - 1], lastKey);
+                from = &lastKey;
             }
-            node->readUnlockOrRestart(v, needRestart);
-            if (needRestart) goto restart;
-
-            switch (prefixResult) {
-                case PCEqualsResults::NoMatch: {
-                    return false;
-                }
-                case PCEqualsResults::Contained: {
-                    copy(node);
-                    break;
-                }
-                case PCEqualsResults::BothMatch: {
-                    uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
-                    uint8_t endLevel = (end.getKeyLen() > level) ? end[level] : 255;
-                    if (startLevel != endLevel) {
-                        std::tuple<uint8_t, N *> children[256];
-                        uint32_t childrenCount = 0;
-                        v = N::getChildren(node, startLevel, endLevel, children, childrenCount);
-                        for (uint32_t i = 0; i < childrenCount; ++i) {
-                            const uint8_t k = std::get<0>(children[i]);
-                            N *n = std::get<1>(children[i]);
-                            if (k == startLevel) {
-                                findStart(n, k, level + 1, node, v);
-                            } else if (k > startLevel && k < endLevel) {
-                                copy(n);
-                            } else if (k == endLevel) {
-                                findEnd(n, k, level + 1, node, v);
-                            }
-                            if (toContinue) {
-                                break;
-                            }
-                        }
-                    } else {
-                        nextNode = N::getChild(startLevel, node);
-                        node->readUnlockOrRestart(v, needRestart);
-                        if (needRestart) goto restart;
-                        level++;
-                        continue;
-                    }
-                    break;
-                }
-            }
-            break;
+            yield(++restartCount);
         }
         if (toContinue != 0) {
             loadKey(toContinue, continueKey);
@@ -337,6 +193,17 @@ namespace ART_OLC {
         }
     }
 
+    // compares key with bound; where bound is shorter, it continues with fillKey
+    int Tree::compareKeys(const Key &key, const Key &bound, uint8_t fillKey) {
+        for (uint32_t i = 0; i < key.getKeyLen(); ++i) {
+            uint8_t boundLevel = (bound.getKeyLen() > i) ? bound[i] : fillKey;
+            if (key[i] != boundLevel) {
+                return key[i] < boundLevel ? -1 : 1;
+            }
+        }
+        return bound.getKeyLen() > key.getKeyLen() ? -1 : 0;
+    }
+
 
     TID Tree::checkKey(const TID tid, const Key &k) const {
         Key kt;
diff --git a/ARTOLC/Tree.h b/ARTOLC/Tree.h
index c104314..4e03d82 100644
--- a/ARTOLC/Tree.h
+++ b/ARTOLC/Tree.h
@@ -19,6 +19,8 @@ namespace ART_OLC {
 
         TID checkKey(const TID tid, const Key &k) const;
 
+        static int compareKeys(const Key &key, const Key &bound, uint8_t fillKey);
+
         LoadKeyFunction loadKey;
 
         Epoche epoche{256};
-- 
2.43.0


From 621a28f76e8a9565217fd3b333cf8a3e0d210fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 05/45] fix: OptiQL remove re-validates the parent after
 reading the child's version

Without it a prefix split between reading the child pointer and reading the child's version
makes remove miss a present key and return without removing it.
---
 OptiQL/Tree.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index a5fafb9..711fed8 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -1231,6 +1231,10 @@ restart:
     node = nextNode;
     auto v = node->readLockOrRestart(needRestart);
     if (needRestart) goto restart;
+    if (parentNode != nullptr) {
+      parentNode->readUnlockOrRestart(parentVersion, needRestart);
+      if (needRestart) goto restart;
+    }
 
     switch (checkPrefix(node, k, level)) {  // increases level
       case CheckPrefixResult::NoMatch:
-- 
2.43.0


From ce1c541e691725aa9945ac3c1c73520f1cd25a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 06/45] fix: OptiQL update validates the node before it decides
 on the child it read

A writer shifting the entries of a last-level node made update report a present key as absent.
---
 OptiQL/Tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index 711fed8..1d9c3f3 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -648,7 +648,7 @@ restart:
         }
         parentNode = node;
         node = N::getChild(k[level], parentNode);
-        if (level < k.getKeyLen() - 1) {
+        if (!lockAcquired) {
           parentNode->checkOrRestart(v, needRestart);
           if (needRestart) goto restart;
         }
-- 
2.43.0


From 2316fd39d4e04b318ac759fa9650bc0da2483a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 07/45] fix: OptiQL range lookup returns exactly the keys of
 the range

Both overloads now check every key against the bounds, keep the order, restart from the last
returned key when a node changed, and do not spin on a node that was unlinked.
---
 OptiQL/N16.cpp  |  22 +--
 OptiQL/N256.cpp |   5 +-
 OptiQL/N4.cpp   |   5 +-
 OptiQL/N48.cpp  |   5 +-
 OptiQL/Tree.cpp | 482 ++++++++++--------------------------------------
 OptiQL/Tree.h   |   5 +
 6 files changed, 126 insertions(+), 398 deletions(-)

diff --git a/OptiQL/N16.cpp b/OptiQL/N16.cpp
index 09d27a3..eb37862 100644
--- a/OptiQL/N16.cpp
+++ b/OptiQL/N16.cpp
@@ -90,19 +90,17 @@ restart:
   bool needRestart = false;
   uint64_t v;
   v = readLockOrRestart(needRestart);
-  if (needRestart) goto restart;
-  childrenCount = 0;
-  auto startPos = getChildPos(start);
-  auto endPos = getChildPos(end);
-  if (startPos == nullptr) {
-    startPos = this->children;
-  }
-  if (endPos == nullptr) {
-    endPos = this->children + (count - 1);
+  if (needRestart) {
+    if (isObsolete()) return 0;  // unlinked: never becomes readable again
+    goto restart;
   }
-  for (auto p = startPos; p <= endPos; ++p) {
-    children[childrenCount] = std::make_tuple(flipSign(keys[p - this->children]), *p);
-    childrenCount++;
+  childrenCount = 0;
+  for (uint32_t i = 0; i < count; ++i) {
+    const uint8_t key = flipSign(keys[i]);
+    if (key >= start && key <= end) {
+      children[childrenCount] = std::make_tuple(key, this->children[i]);
+      childrenCount++;
+    }
   }
   readUnlockOrRestart(v, needRestart);
   if (needRestart) goto restart;
diff --git a/OptiQL/N256.cpp b/OptiQL/N256.cpp
index f267577..12a940d 100644
--- a/OptiQL/N256.cpp
+++ b/OptiQL/N256.cpp
@@ -65,7 +65,10 @@ restart:
   bool needRestart = false;
   uint64_t v;
   v = readLockOrRestart(needRestart);
-  if (needRestart) goto restart;
+  if (needRestart) {
+    if (isObsolete()) return 0;  // unlinked: never becomes readable again
+    goto restart;
+  }
   childrenCount = 0;
   for (unsigned i = start; i <= end; i++) {
     if (this->children[i] != nullptr) {
diff --git a/OptiQL/N4.cpp b/OptiQL/N4.cpp
index 8ad79bf..1670345 100644
--- a/OptiQL/N4.cpp
+++ b/OptiQL/N4.cpp
@@ -93,7 +93,10 @@ restart:
   bool needRestart = false;
   uint64_t v;
   v = readLockOrRestart(needRestart);
-  if (needRestart) goto restart;
+  if (needRestart) {
+    if (isObsolete()) return 0;  // unlinked: never becomes readable again
+    goto restart;
+  }
   childrenCount = 0;
   for (uint32_t i = 0; i < count; ++i) {
     if (this->keys[i] >= start && this->keys[i] <= end) {
diff --git a/OptiQL/N48.cpp b/OptiQL/N48.cpp
index a40d6c0..0f79707 100644
--- a/OptiQL/N48.cpp
+++ b/OptiQL/N48.cpp
@@ -80,7 +80,10 @@ restart:
   bool needRestart = false;
   uint64_t v;
   v = readLockOrRestart(needRestart);
-  if (needRestart) goto restart;
+  if (needRestart) {
+    if (isObsolete()) return 0;  // unlinked: never becomes readable again
+    goto restart;
+  }
   childrenCount = 0;
   for (unsigned i = start; i <= end; i++) {
     if (this->childIndex[i] != emptyMarker) {
diff --git a/OptiQL/Tree.cpp b/OptiQL/Tree.cpp
index 1d9c3f3..e6d53d7 100644
--- a/OptiQL/Tree.cpp
+++ b/OptiQL/Tree.cpp
@@ -75,248 +75,122 @@ restart:
   }
 }
 
-bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID result[],
-                       std::size_t resultSize, std::size_t &resultsFound) const {
-  for (uint32_t i = 0; i < std::min(start.getKeyLen(), end.getKeyLen()); ++i) {
-    if (start[i] > end[i]) {
-      resultsFound = 0;
-      return false;
-    } else if (start[i] < end[i]) {
-      break;
-    }
-  }
+// adds the keys in [start, end) to result, in order; a null end means no upper bound
+void Tree::scan(const Key &start, const Key *end, TID &toContinue, TID result[],
+                std::size_t resultSize, std::size_t &resultsFound) const {
+  toContinue = 0;
+  resultsFound = 0;
+  // lower bound of what is still to be read: start, or (exclusively) the last key already in result
+  const Key *from = &start;
+  Key lastKey;
 
-  TID toContinue = 0;
-  std::function<void(const N *)> copy = [&result, &resultSize, &resultsFound, &toContinue,
-                                         &copy](const N *node) {
-    if (N::isLeaf(node)) {
-      if (resultsFound == resultSize) {
-        toContinue = N::getLeaf(node);
-        return;
-      }
-      result[resultsFound] = N::getLeaf(node);
-      resultsFound++;
-    } else {
-      std::tuple<uint8_t, N *> children[256];
-      uint32_t childrenCount = 0;
-      N::getChildren(node, 0u, 255u, children, childrenCount);
-      for (uint32_t i = 0; i < childrenCount; ++i) {
-        const N *n = std::get<1>(children[i]);
-        copy(n);
-        if (toContinue != 0) {
-          break;
-        }
+  auto addLeaf = [&](TID tid, bool checkStart, bool checkEnd) {
+    if (checkStart || checkEnd) {
+      Key key;
+      loadKey(tid, key);
+      if (checkStart) {
+        int c = compareKeys(key, *from, 0);
+        if (c < 0 || (c == 0 && from != &start)) return;
       }
+      if (checkEnd && compareKeys(key, *end, 255) >= 0) return;
+    }
+    if (resultsFound == resultSize) {
+      toContinue = tid;
+      return;
     }
+    result[resultsFound] = tid;
+    resultsFound++;
   };
-  std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart =
-      [&copy, &start, &findStart, &toContinue, this](N *node, uint8_t nodeK, uint32_t level,
-                                                     const N *parentNode, uint64_t vp) {
-        if (N::isLeaf(node)) {
-          copy(node);
-          return;
-        }
-        uint64_t v;
-        PCCompareResults prefixResult;
-
-        {
-        readAgain:
-          bool needRestart = false;
-          v = node->readLockOrRestart(needRestart);
-          if (needRestart) goto readAgain;
-
-          prefixResult = checkPrefixCompare(node, start, 0, level, loadKey, needRestart);
-          if (needRestart) goto readAgain;
-
+  // adds the part of the subtree that lies in the range; sets needRestart if a node was changed
+  // meanwhile
+  std::function<void(N *, uint32_t, const N *, uint64_t, bool, bool, bool &)> addSubtree =
+      [&](N *node, uint32_t level, const N *parentNode, uint64_t vp, bool checkStart,
+          bool checkEnd, bool &needRestart) {
+        uint64_t v = node->readLockOrRestart(needRestart);
+        if (needRestart) return;
+        if (parentNode != nullptr) {
           parentNode->readUnlockOrRestart(vp, needRestart);
-          if (needRestart) {
-          readParentAgain:
-            needRestart = false;
-            vp = parentNode->readLockOrRestart(needRestart);
-            if (needRestart) goto readParentAgain;
-
-            node = N::getChild(nodeK, parentNode);
-
-            parentNode->readUnlockOrRestart(vp, needRestart);
-            if (needRestart) goto readParentAgain;
-
-            if (node == nullptr) {
-              return;
-            }
-            if (N::isLeaf(node)) {
-              copy(node);
-              return;
-            }
-            goto readAgain;
-          }
-          node->readUnlockOrRestart(v, needRestart);
-          if (needRestart) goto readAgain;
+          if (needRestart) return;
         }
-
-        switch (prefixResult) {
-          case PCCompareResults::Bigger:
-            copy(node);
-            break;
-          case PCCompareResults::Equal: {
-            uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
-            std::tuple<uint8_t, N *> children[256];
-            uint32_t childrenCount = 0;
-            v = N::getChildren(node, startLevel, 255, children, childrenCount);
-            for (uint32_t i = 0; i < childrenCount; ++i) {
-              const uint8_t k = std::get<0>(children[i]);
-              N *n = std::get<1>(children[i]);
-              if (k == startLevel) {
-                findStart(n, k, level + 1, node, v);
-              } else if (k > startLevel) {
-                copy(n);
-              }
-              if (toContinue != 0) {
-                break;
-              }
-            }
-            break;
-          }
-          case PCCompareResults::Smaller:
-            break;
+        auto startResult = PCCompareResults::Bigger;
+        auto endResult = PCCompareResults::Smaller;
+        uint32_t nextLevel = level;
+        if (checkStart) {
+          startResult = checkPrefixCompare(node, *from, 0, nextLevel, loadKey, needRestart);
+          if (needRestart) return;
         }
-      };
-  std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findEnd =
-      [&copy, &end, &toContinue, &findEnd, this](N *node, uint8_t nodeK, uint32_t level,
-                                                 const N *parentNode, uint64_t vp) {
-        if (N::isLeaf(node)) {
+        if (checkEnd) {
+          nextLevel = level;
+          endResult = checkPrefixCompare(node, *end, 255, nextLevel, loadKey, needRestart);
+          if (needRestart) return;
+        }
+        level = level + node->getPrefixLength();
+        node->readUnlockOrRestart(v, needRestart);
+        if (needRestart) return;
+        if (startResult == PCCompareResults::Smaller || endResult == PCCompareResults::Bigger) {
           return;
         }
-        uint64_t v;
-        PCCompareResults prefixResult;
-        {
-        readAgain:
-          bool needRestart = false;
-          v = node->readLockOrRestart(needRestart);
-          if (needRestart) goto readAgain;
-
-          prefixResult = checkPrefixCompare(node, end, 255, level, loadKey, needRestart);
-          if (needRestart) goto readAgain;
-
-          parentNode->readUnlockOrRestart(vp, needRestart);
-          if (needRestart) {
-          readParentAgain:
-            needRestart = false;
-            vp = parentNode->readLockOrRestart(needRestart);
-            if (needRestart) goto readParentAgain;
-
-            node = N::getChild(nodeK, parentNode);
-
-            parentNode->readUnlockOrRestart(vp, needRestart);
-            if (needRestart) goto readParentAgain;
-
-            if (node == nullptr) {
-              return;
-            }
-            if (N::isLeaf(node)) {
-              return;
-            }
-            goto readAgain;
+        checkStart = startResult == PCCompareResults::Equal;
+        checkEnd = endResult == PCCompareResults::Equal;
+
+        uint8_t startLevel = !checkStart ? 0 : (from->getKeyLen() > level) ? (*from)[level] : 0;
+        uint8_t endLevel = !checkEnd ? 255 : (end->getKeyLen() > level) ? (*end)[level] : 255;
+        std::tuple<uint8_t, N *> children[256];
+        uint32_t childrenCount = 0;
+        N::getChildren(node, startLevel, endLevel, children, childrenCount);
+        node->readUnlockOrRestart(v, needRestart);
+        if (needRestart) return;
+        for (uint32_t i = 0; i < childrenCount; ++i) {
+          const uint8_t k = std::get<0>(children[i]);
+          N *n = std::get<1>(children[i]);
+          bool onStart = checkStart && k == startLevel;
+          bool onEnd = checkEnd && k == endLevel;
+          if (N::isLeaf(n)) {
+            addLeaf(N::getLeaf(n), onStart, onEnd);
+          } else {
+            addSubtree(n, level + 1, node, v, onStart, onEnd, needRestart);
           }
-          node->readUnlockOrRestart(v, needRestart);
-          if (needRestart) goto readAgain;
-        }
-        switch (prefixResult) {
-          case PCCompareResults::Smaller:
-            copy(node);
-            break;
-          case PCCompareResults::Equal: {
-            uint8_t endLevel = (end.getKeyLen() > level) ? end[level] : 255;
-            std::tuple<uint8_t, N *> children[256];
-            uint32_t childrenCount = 0;
-            v = N::getChildren(node, 0, endLevel, children, childrenCount);
-            for (uint32_t i = 0; i < childrenCount; ++i) {
-              const uint8_t k = std::get<0>(children[i]);
-              N *n = std::get<1>(children[i]);
-              if (k == endLevel) {
-                findEnd(n, k, level + 1, node, v);
-              } else if (k < endLevel) {
-                copy(n);
-              }
-              if (toContinue != 0) {
-                break;
-              }
-            }
-            break;
+          if (needRestart || toContinue != 0) {
+            return;
           }
-          case PCCompareResults::Bigger:
-            break;
         }
       };
 
-restart:
-  bool needRestart = false;
-
-  resultsFound = 0;
-
-  uint32_t level = 0;
-  N *node = nullptr;
-  N *nextNode = root;
-  N *parentNode;
-  uint64_t v = 0;
-  uint64_t vp;
-
   while (true) {
-    parentNode = node;
-    vp = v;
-    node = nextNode;
-    PCEqualsResults prefixResult;
-    v = node->readLockOrRestart(needRestart);
-    if (needRestart) goto restart;
-    prefixResult = checkPrefixEquals(node, level, start, end, loadKey, needRestart);
-    if (needRestart) goto restart;
-    if (parentNode != nullptr) {
-      parentNode->readUnlockOrRestart(vp, needRestart);
-      if (needRestart) goto restart;
+    bool needRestart = false;
+    addSubtree(root, 0, nullptr, 0, true, end != nullptr, needRestart);
+    if (!needRestart) break;
+    if (resultsFound != 0) {
+      loadKey(result[resultsFound - 1], lastKey);
+      from = &lastKey;
     }
-    node->readUnlockOrRestart(v, needRestart);
-    if (needRestart) goto restart;
+  }
+}
 
-    switch (prefixResult) {
-      case PCEqualsResults::NoMatch: {
-        return false;
-      }
-      case PCEqualsResults::Contained: {
-        copy(node);
-        break;
-      }
-      case PCEqualsResults::BothMatch: {
-        uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
-        uint8_t endLevel = (end.getKeyLen() > level) ? end[level] : 255;
-        if (startLevel != endLevel) {
-          std::tuple<uint8_t, N *> children[256];
-          uint32_t childrenCount = 0;
-          v = N::getChildren(node, startLevel, endLevel, children, childrenCount);
-          for (uint32_t i = 0; i < childrenCount; ++i) {
-            const uint8_t k = std::get<0>(children[i]);
-            N *n = std::get<1>(children[i]);
-            if (k == startLevel) {
-              findStart(n, k, level + 1, node, v);
-            } else if (k > startLevel && k < endLevel) {
-              copy(n);
-            } else if (k == endLevel) {
-              findEnd(n, k, level + 1, node, v);
-            }
-            if (toContinue) {
-              break;
-            }
-          }
-        } else {
-          nextNode = N::getChild(startLevel, node);
-          node->readUnlockOrRestart(v, needRestart);
-          if (needRestart) goto restart;
-          level++;
-          continue;
-        }
-        break;
-      }
+// compares key with bound; where bound is shorter, it continues with fillKey
+int Tree::compareKeys(const Key &key, const Key &bound, uint8_t fillKey) {
+  for (uint32_t i = 0; i < key.getKeyLen(); ++i) {
+    uint8_t boundLevel = (bound.getKeyLen() > i) ? bound[i] : fillKey;
+    if (key[i] != boundLevel) {
+      return key[i] < boundLevel ? -1 : 1;
+    }
+  }
+  return bound.getKeyLen() > key.getKeyLen() ? -1 : 0;
+}
+
+bool Tree::lookupRange(const Key &start, const Key &end, Key &continueKey, TID result[],
+                       std::size_t resultSize, std::size_t &resultsFound) const {
+  for (uint32_t i = 0; i < std::min(start.getKeyLen(), end.getKeyLen()); ++i) {
+    if (start[i] > end[i]) {
+      resultsFound = 0;
+      return false;
+    } else if (start[i] < end[i]) {
+      break;
     }
-    break;
   }
+
+  TID toContinue;
+  scan(start, &end, toContinue, result, resultSize, resultsFound);
   if (toContinue != 0) {
     loadKey(toContinue, continueKey);
     return true;
@@ -327,166 +201,8 @@ restart:
 
 bool Tree::lookupRange(const Key &start, TID result[], std::size_t resultSize,
                        std::size_t &resultsFound) const {
-  TID toContinue = 0;
-  std::function<void(const N *)> copy = [&result, &resultSize, &resultsFound, &toContinue,
-                                         &copy](const N *node) {
-    if (N::isLeaf(node)) {
-      if (resultsFound == resultSize) {
-        toContinue = N::getLeaf(node);
-        return;
-      }
-      result[resultsFound] = N::getLeaf(node);
-      resultsFound++;
-    } else {
-      std::tuple<uint8_t, N *> children[256];
-      uint32_t childrenCount = 0;
-      N::getChildren(node, 0u, 255u, children, childrenCount);
-      for (uint32_t i = 0; i < childrenCount; ++i) {
-        const N *n = std::get<1>(children[i]);
-        copy(n);
-        if (toContinue != 0) {
-          break;
-        }
-      }
-    }
-  };
-  std::function<void(N *, uint8_t, uint32_t, const N *, uint64_t)> findStart =
-      [&copy, &start, &findStart, &toContinue, this](N *node, uint8_t nodeK, uint32_t level,
-                                                     const N *parentNode, uint64_t vp) {
-        if (N::isLeaf(node)) {
-          copy(node);
-          return;
-        }
-        uint64_t v;
-        PCCompareResults prefixResult;
-
-        {
-        readAgain:
-          bool needRestart = false;
-          v = node->readLockOrRestart(needRestart);
-          if (needRestart) goto readAgain;
-
-          prefixResult = checkPrefixCompare(node, start, 0, level, loadKey, needRestart);
-          if (needRestart) goto readAgain;
-
-          parentNode->readUnlockOrRestart(vp, needRestart);
-          if (needRestart) {
-          readParentAgain:
-            needRestart = false;
-            vp = parentNode->readLockOrRestart(needRestart);
-            if (needRestart) goto readParentAgain;
-
-            node = N::getChild(nodeK, parentNode);
-
-            parentNode->readUnlockOrRestart(vp, needRestart);
-            if (needRestart) goto readParentAgain;
-
-            if (node == nullptr) {
-              return;
-            }
-            if (N::isLeaf(node)) {
-              copy(node);
-              return;
-            }
-            goto readAgain;
-          }
-          node->readUnlockOrRestart(v, needRestart);
-          if (needRestart) goto readAgain;
-        }
-
-        switch (prefixResult) {
-          case PCCompareResults::Bigger:
-            copy(node);
-            break;
-          case PCCompareResults::Equal: {
-            uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
-            std::tuple<uint8_t, N *> children[256];
-            uint32_t childrenCount = 0;
-            v = N::getChildren(node, startLevel, 255, children, childrenCount);
-            for (uint32_t i = 0; i < childrenCount; ++i) {
-              const uint8_t k = std::get<0>(children[i]);
-              N *n = std::get<1>(children[i]);
-              if (k == startLevel) {
-                findStart(n, k, level + 1, node, v);
-              } else if (k > startLevel) {
-                copy(n);
-              }
-              if (toContinue != 0) {
-                break;
-              }
-            }
-            break;
-          }
-          case PCCompareResults::Smaller:
-            break;
-        }
-      };
-
-restart:
-  bool needRestart = false;
-
-  resultsFound = 0;
-
-  uint32_t level = 0;
-  N *node = nullptr;
-  N *nextNode = root;
-  N *parentNode;
-  uint64_t v = 0;
-  uint64_t vp;
-
-  while (true) {
-    parentNode = node;
-    vp = v;
-    node = nextNode;
-    PCCompareResults compareResult;
-    v = node->readLockOrRestart(needRestart);
-    if (needRestart) goto restart;
-    compareResult = checkPrefixCompare(node, start, 0, level, loadKey, needRestart);
-    if (needRestart) goto restart;
-    if (parentNode != nullptr) {
-      parentNode->readUnlockOrRestart(vp, needRestart);
-      if (needRestart) goto restart;
-    }
-    node->readUnlockOrRestart(v, needRestart);
-    if (needRestart) goto restart;
-
-    switch (compareResult) {
-      case PCCompareResults::Smaller: {
-        return false;
-      }
-      case PCCompareResults::Equal:
-      case PCCompareResults::Bigger: {
-        uint8_t startLevel = (start.getKeyLen() > level) ? start[level] : 0;
-        uint8_t endLevel = 255;
-        if (startLevel != endLevel) {
-          std::tuple<uint8_t, N *> children[256];
-          uint32_t childrenCount = 0;
-          v = N::getChildren(node, startLevel, endLevel, children, childrenCount);
-          for (uint32_t i = 0; i < childrenCount; ++i) {
-            const uint8_t k = std::get<0>(children[i]);
-            N *n = std::get<1>(children[i]);
-            if (k == startLevel) {
-              findStart(n, k, level + 1, node, v);
-            } else if (k > startLevel) {
-              copy(n);
-            }
-            if (toContinue) {
-              break;
-            }
-          }
-        } else {
-          nextNode = N::getChild(startLevel, node);
-          node->readUnlockOrRestart(v, needRestart);
-          if (needRestart) goto restart;
-          level++;
-          continue;
-        }
-        break;
-      }
-    }
-    break;
-  }
-
+  TID toContinue;
+  scan(start, nullptr, toContinue, result, resultSize, resultsFound);
   return false;
 }
 
diff --git a/OptiQL/Tree.h b/OptiQL/Tree.h
index 1b2123c..aa36962 100644
--- a/OptiQL/Tree.h
+++ b/OptiQL/Tree.h
@@ -71,6 +71,11 @@ class Tree {
 
   void tryExpand(const Key &k, N *parentNode, uint32_t level, N *tid);
 
+  static int compareKeys(const Key &key, const Key &bound, uint8_t fillKey);
+
+  void scan(const Key &start, const Key *end, TID &toContinue, TID result[],
+            std::size_t resultLen, std::size_t &resultCount) const;
+
  public:
   Tree(LoadKeyFunction loadKey, RemoveNodeFunction removeNode);
 
-- 
2.43.0


From e54d2657fd6ece3416ed7cac7cffddc0714708b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 08/45] fix: BTreeOLC lookup of an absent key returns false

---
 BTreeOLC/BTreeOLC.h              | 2 +-
 BTreeOLC/BTreeOLC_child_layout.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/BTreeOLC/BTreeOLC.h b/BTreeOLC/BTreeOLC.h
index e7826a9..10cc283 100644
--- a/BTreeOLC/BTreeOLC.h
+++ b/BTreeOLC/BTreeOLC.h
@@ -391,7 +391,7 @@ struct BTree {
 
     BTreeLeaf<Key,Value>* leaf = static_cast<BTreeLeaf<Key,Value>*>(node);
     unsigned pos = leaf->lowerBound(k);
-    bool success;
+    bool success = false;
     if ((pos<leaf->count) && (leaf->keys[pos]==k)) {
       success = true;
       result = leaf->payloads[pos];
diff --git a/BTreeOLC/BTreeOLC_child_layout.h b/BTreeOLC/BTreeOLC_child_layout.h
index 2f8e953..94fd1e2 100644
--- a/BTreeOLC/BTreeOLC_child_layout.h
+++ b/BTreeOLC/BTreeOLC_child_layout.h
@@ -390,7 +390,7 @@ struct BTree {
 
     BTreeLeaf<Key,Value>* leaf = static_cast<BTreeLeaf<Key,Value>*>(node);
     unsigned pos = leaf->lowerBound(k);
-    bool success;
+    bool success = false;
     if ((pos<leaf->count) && (leaf->data[pos].first==k)) {
       success = true;
       result = leaf->data[pos].second;
-- 
2.43.0


From 63616eb5827aba958435e19c495ca2e24bce5f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:41 +0000
Subject: [PATCH 09/45] wormhole: guarded hook to scale node sizes down under
 simulation (WH_SIM_CONFIG)

---
 wormhole/wh.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wormhole/wh.c b/wormhole/wh.c
index ffb1da6..2949cf0 100644
--- a/wormhole/wh.c
+++ b/wormhole/wh.c
@@ -35,6 +35,9 @@
 #define WH_FO  ((256u)) // index fan-out
 // number of bits in a bitmap
 #define WH_BMNR ((WH_FO >> 6)) // number of u64
+#ifdef WH_SIM_CONFIG // simulation only: a header that scales the sizes above down
+#include WH_SIM_CONFIG
+#endif
 // }}} def
 
 // struct {{{
-- 
2.43.0


From 0b34ee180b51815df0d96439ba35a1bc24518fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:49 +0000
Subject: [PATCH 10/45] fix: qsbr_wait does not follow the empty pointer of a
 reference that is just being registered

---
 wormhole/lib.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wormhole/lib.c b/wormhole/lib.c
index 8c67e10..65531f4 100644
--- a/wormhole/lib.c
+++ b/wormhole/lib.c
@@ -2865,7 +2865,13 @@ struct qsbr {
 qsbr_create(void)
 {
   struct qsbr * const q = yalloc(sizeof(*q));
+  if (q == NULL)
+    return NULL;
   memset(q, 0, sizeof(*q));
+  // a waiter can see a shard's bit before the new user has stored its pointer
+  for (u32 i = 0; i < QSBR_SHARD_NR; i++)
+    for (u32 j = 0; j < QSBR_STATES_NR; j++)
+      atomic_store_explicit(&q->shards[i].ptrs[j], (u64)(&q->target), MO_RELAXED);
   return q;
 }
 
-- 
2.43.0


From c6f441df9012da21ab380208df7368f8fb7c750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:48 +0000
Subject: [PATCH 11/45] fix: qsbr_register and qsbr_resume make the reference
 visible before the user's next loads

---
 wormhole/lib.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wormhole/lib.c b/wormhole/lib.c
index 65531f4..a521900 100644
--- a/wormhole/lib.c
+++ b/wormhole/lib.c
@@ -2904,7 +2904,8 @@ qsbr_register(struct qsbr * const q, struct qsbr_ref * const qref)
 
     const u64 bits1 = bits | (1lu << pos);
     if (atomic_compare_exchange_weak_explicit(&shard->bitmap, &bits, bits1, MO_ACQUIRE, MO_RELAXED)) {
-      atomic_store_explicit(&shard->ptrs[pos], (u64)ref, MO_RELAXED);
+      // must be visible before this user's next loads, or a waiter can miss it
+      atomic_store_explicit(&shard->ptrs[pos], (u64)ref, MO_SEQ_CST);
       //shard->ptrs[pos] = ref;
 
       ref->pptr = &(shard->ptrs[pos]);
@@ -2968,7 +2969,8 @@ qsbr_park(struct qsbr_ref * const qref)
 qsbr_resume(struct qsbr_ref * const qref)
 {
   struct qsbr_ref_real * const ref = (typeof(ref))qref;
-  atomic_store_explicit(ref->pptr, (u64)ref, MO_RELAXED);
+  // must be visible before this user's next loads, or a waiter can miss it
+  atomic_store_explicit(ref->pptr, (u64)ref, MO_SEQ_CST);
 #ifdef QSBR_DEBUG
   ref->status = 0xf; // resumed
 #endif
-- 
2.43.0


From 08c889c7236ef85b9ebdf83cfc6cc8e52fd4871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:08 +0000
Subject: [PATCH 12/45] fix: whunsafe_delr of an empty range removes nothing

---
 wormhole/wh.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wormhole/wh.c b/wormhole/wh.c
index 2949cf0..ce57c75 100644
--- a/wormhole/wh.c
+++ b/wormhole/wh.c
@@ -3050,6 +3050,9 @@ whsafe_delr(struct wormref * const ref, const struct kref * const start,
 whunsafe_delr(struct wormhole * const map, const struct kref * const start,
     const struct kref * const end)
 {
+  if (end && (kref_compare(start, end) >= 0)) // do nothing if end <= start
+    return 0;
+
   // first leaf
   struct wormhmap * const hmap = map->hmap;
   struct wormleaf * const leafa = wormhole_jump_leaf(hmap, start);
-- 
2.43.0


From 8017455469bfb4a0ad3df2cc57948452fa7bf545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 13/45] fix: whunsafe_split_meta does not release the meta lock
 it never took

---
 wormhole/wh.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/wormhole/wh.c b/wormhole/wh.c
index ce57c75..3f65089 100644
--- a/wormhole/wh.c
+++ b/wormhole/wh.c
@@ -2474,7 +2474,6 @@ whunsafe_split_meta(struct wormhole * const map, struct wormleaf * const leaf2)
 
   const bool sr = wormhole_slab_reserve(map, mkey->klen);
   if (unlikely(!sr)) {
-    wormhmap_unlock(map);
     wormhole_free_mkey(mkey);
     return false;
   }
-- 
2.43.0


From 5a2e24042f2e64a285fca32a4f66dda5606370d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:06 +0000
Subject: [PATCH 14/45] fix: HOTRowex::upsert: the second key of a trie is
 reported as an insertion, not as an update of itself

---
 HOT/include/hot/rowex/HOTRowex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index ac38163..f2ff1b1 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -164,7 +164,7 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 				upsertCompleted = mRoot.compareAndSwap(currentRoot, HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
 				upsertResult = { true, existingValue };
 			} else {
-				insertGuarded(newValue);
+				upsertCompleted = insertGuarded(newValue);
 			}
 		} else {
 			HOTRowexChildPointer newRootPointer(idx::contenthelpers::valueToTid(newValue));
-- 
2.43.0


From 061468f00ba3663dd3149f482e80dac285106475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:42 +0000
Subject: [PATCH 15/45] fix: HOTRowex::lookup: an empty trie has no root node
 to search

---
 HOT/include/hot/rowex/HOTRowex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index f2ff1b1..9ef3328 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -64,6 +64,9 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 	uint8_t const* byteKey = idx::contenthelpers::interpretAsByteArray(fixedSizeKey);
 
 	HOTRowexChildPointer current =  mRoot;
+	if(current.isEmpty()) {
+		return {};
+	}
 	while(!current.isLeaf()) {
 		current = *(current.search(byteKey));
 	}
-- 
2.43.0


From 2b0b9ee42c5529d8ba09d2a665a48fa87331f240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 16/45] fix: HOTRowex::lower_bound/upper_bound: find the only
 key of a trie when the search key is smaller

---
 HOT/include/hot/rowex/HOTRowexIterator.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/HOT/include/hot/rowex/HOTRowexIterator.hpp b/HOT/include/hot/rowex/HOTRowexIterator.hpp
index 1718c7a..fbe0343 100644
--- a/HOT/include/hot/rowex/HOTRowexIterator.hpp
+++ b/HOT/include/hot/rowex/HOTRowexIterator.hpp
@@ -57,11 +57,9 @@ public:
 
 	static inline HOTRowexSynchronizedIterator getBounded(HOTRowexChildPointer const * rootPointer, KeyType const & searchKey, bool isLowerBound, EpochBasedMemoryReclamationStrategy * const & memoryReclamationStrategy) {
 		MemoryGuard guard(memoryReclamationStrategy);
-		HOTRowexChildPointer const & currentRoot = *rootPointer;
+		HOTRowexChildPointer const currentRoot = *rootPointer;
 
-		return (currentRoot.isLeaf()
-				&& idx::contenthelpers::contentEquals(searchKey, extractKey(idx::contenthelpers::tidToValue<ValueType>(currentRoot.getTid())))
-			   ) || currentRoot.isAValidNode()
+		return currentRoot.isUsed()
 			   ? HOTRowexSynchronizedIterator(rootPointer, currentRoot, searchKey, isLowerBound, memoryReclamationStrategy, guard)
 			   : END_ITERATOR;
 	}
@@ -208,7 +206,10 @@ private:
 
 		idx::contenthelpers::OptionalValue<hot::commons::DiscriminativeBit> mismatchingBit = hot::commons::getMismatchingBit(existingKeyBytes, searchKeyBytes, idx::contenthelpers::getMaxKeyLength<KeyType>());
 
-		if(mismatchingBit.mIsValid) {
+		if(mismatchingBit.mIsValid && currentStackEntry == currentStackRoot) {
+			//the root is a leaf: it is the bound unless the search key is larger
+			return fillBuffer({ bufferRoot }, { currentStackRoot, mismatchingBit.mValue.mValue ? ITERATOR_FILL_BUFFER_STATE_END : ITERATOR_FILL_BUFFER_STATE_STORE, currentStackEntry }, guard);
+		} else if(mismatchingBit.mIsValid) {
 			HOTRowexChildPointer const * childPointerLocation = currentStackEntry->getCurrentPointerLocation();
 			--mMostSignificantBitIndex;
 			--currentStackEntry;
-- 
2.43.0


From b162b04659f51e025066ed5a016ab40f0223ee6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 17/45] fix: HOTRowex::upsert: replace a leaf only if it is
 still where it was found

---
 HOT/include/hot/rowex/HOTRowex.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/HOT/include/hot/rowex/HOTRowex.hpp b/HOT/include/hot/rowex/HOTRowex.hpp
index 9ef3328..eaf560a 100644
--- a/HOT/include/hot/rowex/HOTRowex.hpp
+++ b/HOT/include/hot/rowex/HOTRowex.hpp
@@ -152,12 +152,15 @@ template<typename ValueType, template <typename> typename KeyExtractor> inline i
 			} else {
 				InsertStackEntryType &leafEntry = *insertStack.mLeafEntry;
 				InsertStackEntryType* parentEntry = insertStack.mLeafEntry - 1;
-				if(parentEntry->tryLock()) { //Check for consistency
-					ValueType const &existingValue = idx::contenthelpers::tidToValue<ValueType>(
-						leafEntry.getChildPointer().getTid());
-					leafEntry.updateChildPointer(HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
-					upsertResult = idx::contenthelpers::OptionalValue<ValueType> {true, existingValue};
-					upsertCompleted = true;
+				if(parentEntry->tryLock()) {
+					//Check for consistency: the leaf could have been replaced or pushed down before the node was locked
+					if(leafEntry.isConsistent()) {
+						ValueType const &existingValue = idx::contenthelpers::tidToValue<ValueType>(
+							leafEntry.getChildPointer().getTid());
+						leafEntry.updateChildPointer(HOTRowexChildPointer(idx::contenthelpers::valueToTid(newValue)));
+						upsertResult = idx::contenthelpers::OptionalValue<ValueType> {true, existingValue};
+						upsertCompleted = true;
+					}
 					parentEntry->unlock();
 				}
 			}
-- 
2.43.0


From f6ee12c9a8751ff0b77ea62aa35ade932352e4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:49 +0000
Subject: [PATCH 18/45] fix: HOTRowex bound search: an entry of the search path
 is not read twice

---
 HOT/include/hot/rowex/HOTRowexIterator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/HOT/include/hot/rowex/HOTRowexIterator.hpp b/HOT/include/hot/rowex/HOTRowexIterator.hpp
index fbe0343..d0e9fe1 100644
--- a/HOT/include/hot/rowex/HOTRowexIterator.hpp
+++ b/HOT/include/hot/rowex/HOTRowexIterator.hpp
@@ -231,7 +231,11 @@ private:
 				if(nextEntryLocation >= existingNode.end()) {
 					return HOTRowexSynchronizedIteratorStackState(currentStackRoot, HOTRowexSynchronizedIterator::ascendOrAdvance(currentStackEntry), currentStackEntry);
 				} else {
-					(++currentStackEntry)->init(nextEntryLocation, existingNode.end());
+					++currentStackEntry;
+					//an entry on the search path must not be read again, it could meanwhile contain keys preceding the search key
+					if(currentStackEntry->getCurrentPointerLocation() != nextEntryLocation) {
+						currentStackEntry->init(nextEntryLocation, existingNode.end());
+					}
 					return HOTRowexSynchronizedIteratorStackState(currentStackRoot, HOTRowexSynchronizedIterator::descendOrStore(currentStackEntry), currentStackEntry );
 				}
 			}), guard);
-- 
2.43.0


From 41f9be14d8cd7a64e49cc55b20c8eac21ceaa9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 19/45] fix: HOT epoch reclamation: a thread is visible in the
 current epoch before it reads nodes

---
 .../hot/rowex/EpochBasedMemoryReclamationStrategy.hpp     | 8 +++++++-
 .../ThreadSpecificEpochBasedReclamationInformation.hpp    | 4 ++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp b/HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp
index 162e3d2..04c8aac 100644
--- a/HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp
+++ b/HOT/include/hot/rowex/EpochBasedMemoryReclamationStrategy.hpp
@@ -33,8 +33,14 @@ public:
 
 	void enterCriticalSection() {
 		ThreadSpecificEpochBasedReclamationInformation & currentMemoryInformation = mThreadSpecificInformations.local();
-		uint32_t currentEpoch = mCurrentEpoch.load(std::memory_order_acquire);
+		uint32_t currentEpoch = mCurrentEpoch.load();
 		currentMemoryInformation.enter(currentEpoch);
+		//the epoch could have been advanced before this thread was visible in it
+		for(uint32_t newEpoch = mCurrentEpoch.load(); newEpoch != currentEpoch; newEpoch = mCurrentEpoch.load()) {
+			currentMemoryInformation.leave();
+			currentEpoch = newEpoch;
+			currentMemoryInformation.enter(currentEpoch);
+		}
 		if(currentMemoryInformation.doesThreadWantToAdvanceEpoch() && canAdvance(currentEpoch)) {
 			mCurrentEpoch.compare_exchange_strong(currentEpoch, NEXT_EPOCH[currentEpoch]);
 		}
diff --git a/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp b/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp
index da04228..023d52f 100644
--- a/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp
+++ b/HOT/include/hot/rowex/ThreadSpecificEpochBasedReclamationInformation.hpp
@@ -40,7 +40,7 @@ public:
 	}
 
 	uint32_t getLocalEpoch() const {
-		return mLocalEpoch.load(std::memory_order_acquire);
+		return mLocalEpoch.load();
 	}
 
 	void enter(uint32_t newEpoch) {
@@ -50,7 +50,7 @@ public:
 			mThreadWantsToAdvance = false;
 			mPreviouslyAccessedEpoch = newEpoch;
 		}
-		mLocalEpoch.store(newEpoch, std::memory_order_release);
+		mLocalEpoch.store(newEpoch);
 	}
 
 	void leave()  {
-- 
2.43.0


From 6f4f605bfbdcda1261dba858038fff71f9c95069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:01 +0000
Subject: [PATCH 20/45] fix: wormhole meta hash map: cuckoo displacement always
 terminates

---
 wormhole/wh.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wormhole/wh.c b/wormhole/wh.c
index 3f65089..01b65d9 100644
--- a/wormhole/wh.c
+++ b/wormhole/wh.c
@@ -996,9 +996,9 @@ wormhmap_cuckoo(struct wormhmap * const hmap, const u32 mid0,
     const u32 midy = wormhole_bswap(hash32) & hmap->mask;
     const u32 midt = (midx != mid0) ? midx : midy;
     if (midt != mid0) { // possible
-      // no penalty if moving someone back to its 1st hash location
-      const u32 depth1 = (midt == midx) ? depth : (depth - 1);
-      if (wormhmap_cuckoo(hmap, midt, bkt->e[i], sv[i], depth1)) {
+      // every move costs one level: with free moves back to the 1st hash location,
+      // two full buckets can bounce each other's entries forever
+      if (wormhmap_cuckoo(hmap, midt, bkt->e[i], sv[i], depth - 1)) {
         bkt->e[i] = e0;
         sv[i] = s0;
         return true;
-- 
2.43.0


From 691ec3572d472cda06b6de230136457c9141d460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:00 +0000
Subject: [PATCH 21/45] hook: MASSTREE_SIM frees reclaimed nodes individually
 when pools are off

---
 MassTree/kvthread.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/MassTree/kvthread.hh b/MassTree/kvthread.hh
index fc03339..ffc802f 100644
--- a/MassTree/kvthread.hh
+++ b/MassTree/kvthread.hh
@@ -330,6 +330,13 @@ class threadinfo {
             (*static_cast<mrcu_callback*>(p))(*this);
         else {
             p = memdebug::check_free_after_rcu(p, tag);
+#ifdef MASSTREE_SIM
+            // simulation: pools off means every node is a block of its own, as in pool_deallocate()
+            if (!use_pool()) {
+                ::free(p);
+                return;
+            }
+#endif
             int nl = tag & memtag_pool_mask;
             *reinterpret_cast<void**>(p) = pool_[nl - 1];
             pool_[nl - 1] = p;
-- 
2.43.0


From 567dafe3f9dab32b9e059f811933e430ded6baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:38 +0000
Subject: [PATCH 22/45] fix: masstree layer collection: the callback holds a
 node that outlives it

---
 MassTree/masstree_remove.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MassTree/masstree_remove.hh b/MassTree/masstree_remove.hh
index b1a749d..62d7d5e 100644
--- a/MassTree/masstree_remove.hh
+++ b/MassTree/masstree_remove.hh
@@ -151,6 +151,11 @@ template <typename P>
 void gc_layer_rcu_callback<P>::make(node_base<P>* root, Str prefix,
                                     threadinfo& ti)
 {
+    // The callback may run long after the grace period, when an internode that
+    // was the tree's root at some time has been removed and freed. The leftmost
+    // leaf is never removed.
+    typename node_base<P>::nodeversion_type v;
+    root = root->reach_leaf(typename node_base<P>::key_type(typename P::ikey_type(0), 0), v, ti);
     size_t sz = prefix.len + sizeof(gc_layer_rcu_callback<P>);
     void *data = ti.allocate(sz, memtag_masstree_gc);
     gc_layer_rcu_callback<P> *cb =
-- 
2.43.0


From f54791689b7e146ccfc273516ebeeb1aa6294b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 23/45] fix: masstree removal: nodes are handed to the
 reclaimer after they are unlinked

---
 MassTree/masstree_remove.hh  | 34 ++++++++++++++++++++--------------
 MassTree/masstree_tcursor.hh |  2 +-
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/MassTree/masstree_remove.hh b/MassTree/masstree_remove.hh
index 62d7d5e..dfca4da 100644
--- a/MassTree/masstree_remove.hh
+++ b/MassTree/masstree_remove.hh
@@ -21,7 +21,7 @@
 namespace Masstree {
 
 template <typename P>
-bool tcursor<P>::gc_layer(threadinfo& ti)
+leaf<P>* tcursor<P>::gc_layer(threadinfo& ti)
 {
     find_locked(ti);
     masstree_precondition(!n_->deleted() && !n_->deleted_layer());
@@ -30,7 +30,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
     // succeeded at removing multiple tree layers. So check that the whole
     // key has been consumed
     if (ka_.has_suffix()) {
-        return false;
+        return nullptr;
     }
 
     // find the slot for the child tree
@@ -40,12 +40,12 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
     // length ikey_size; we need to adjust ki_.
     kx_.i += has_value();
     if (kx_.i >= n_->size()) {
-        return false;
+        return nullptr;
     }
     permuter_type perm(n_->permutation_);
     kx_.p = perm[kx_.i];
     if (n_->ikey0_[kx_.p] != ka_.ikey() || !n_->is_layer(kx_.p)) {
-        return false;
+        return nullptr;
     }
 
     // remove redundant internode layers
@@ -63,7 +63,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
 
         internode_type *in = static_cast<internode_type *>(layer);
         if (in->size() > 0) {
-            return false;
+            return nullptr;
         }
         in->lock(*layer, ti.lock_fence(tc_internode_lock));
         if (!in->is_root() || in->size() > 0) {
@@ -88,7 +88,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
     {
         leaf_type* lf = static_cast<leaf_type*>(layer);
         if (lf->size() > 0) {
-            return false;
+            return nullptr;
         }
         lf->lock(*lf, ti.lock_fence(tc_leaf_lock));
         if (!lf->is_root() || lf->size() > 0) {
@@ -105,13 +105,12 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
         }
         lf->mark_deleted_layer();   // NB DO NOT mark as deleted (see above)
         lf->unlock();
-        lf->deallocate_rcu(ti);
-        return true;
+        return lf;
     }
 
  unlock_layer:
     layer->unlock();
-    return false;
+    return nullptr;
 }
 
 template <typename P>
@@ -139,10 +138,13 @@ void gc_layer_rcu_callback<P>::operator()(threadinfo& ti)
     }
     if (!root_->deleted()) {    // if not destroying tree...
         tcursor<P> lp(root_, s_, len_);
-        bool do_remove = lp.gc_layer(ti);
-        if (!do_remove || !lp.finish_remove(ti)) {
+        leaf<P>* dead = lp.gc_layer(ti);
+        if (!dead || !lp.finish_remove(ti)) {
             lp.n_->unlock();
         }
+        if (dead) {             // no longer reachable
+            dead->deallocate_rcu(ti);
+        }
         ti.deallocate(this, size(), memtag_masstree_gc);
     }
 }
@@ -191,9 +193,8 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         return false;
     }
 
-    // mark leaf deleted, RCU-free
+    // mark leaf deleted
     leaf->mark_deleted();
-    leaf->deallocate_rcu(ti);
 
     // Ensure node that becomes responsible for our keys has its phantom epoch
     // kept up to date
@@ -243,6 +244,12 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
 
         n->unlock();
+        // RCU-free, now that no operation that begins later can reach n
+        if (n->isleaf()) {
+            static_cast<leaf_type*>(n)->deallocate_rcu(ti);
+        } else {
+            static_cast<internode_type*>(n)->deallocate_rcu(ti);
+        }
         n = p;
 
         if (p->nkeys_ || p->is_root()) {
@@ -250,7 +257,6 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
 
         p->mark_deleted();
-        p->deallocate_rcu(ti);
         replacement = p->child_[0];
         p->child_[0] = nullptr;
     }
diff --git a/MassTree/masstree_tcursor.hh b/MassTree/masstree_tcursor.hh
index b3782dd..6b65d03 100644
--- a/MassTree/masstree_tcursor.hh
+++ b/MassTree/masstree_tcursor.hh
@@ -193,7 +193,7 @@ class tcursor {
     static bool remove_leaf(leaf_type* leaf, node_type* root,
                             Str prefix, threadinfo& ti);
 
-    bool gc_layer(threadinfo& ti);
+    leaf_type* gc_layer(threadinfo& ti);
     friend struct gc_layer_rcu_callback<P>;
 };
 
-- 
2.43.0


From 2371df6f7a50fdd9b208dc84c45cd6fc63ba1d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:53 +0000
Subject: [PATCH 24/45] fix: masstree removal: a leaf leaves the leaf list
 after the tree stops leading to it

---
 MassTree/masstree_remove.hh | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/MassTree/masstree_remove.hh b/MassTree/masstree_remove.hh
index dfca4da..907aa4a 100644
--- a/MassTree/masstree_remove.hh
+++ b/MassTree/masstree_remove.hh
@@ -211,9 +211,6 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
     }
 
-    // Unlink leaf from doubly-linked leaf list
-    btree_leaflink<leaf_type>::unlink(leaf);
-
     // Remove leaf from tree, collapse trivial chains, and rewrite
     // ikey bounds.
     ikey_type ikey = leaf->ikey_bound();
@@ -243,11 +240,9 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
             ikey = p->ikey0_[0];
         }
 
-        n->unlock();
-        // RCU-free, now that no operation that begins later can reach n
-        if (n->isleaf()) {
-            static_cast<leaf_type*>(n)->deallocate_rcu(ti);
-        } else {
+        if (n != leaf) {
+            n->unlock();
+            // RCU-free, now that no operation that begins later can reach n
             static_cast<internode_type*>(n)->deallocate_rcu(ti);
         }
         n = p;
@@ -262,6 +257,13 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
     }
 
     n->unlock();
+
+    // Unlink leaf from doubly-linked leaf list. Not earlier: an operation that
+    // comes along the list would take the left neighbor for our keys, and its
+    // split could add our ikey bound to the tree once more.
+    btree_leaflink<leaf_type>::unlink(leaf);
+    leaf->unlock();
+    leaf->deallocate_rcu(ti);
     return true;
 }
 
-- 
2.43.0


From 52776879ea8d6b4c1b5e1fe7cc5d92461c18ecc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:29 +0000
Subject: [PATCH 25/45] fix: MassTreeWrapper::upsert: the old value is retired
 after it has been replaced

---
 MassTree/MassTreeWrapper.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MassTree/MassTreeWrapper.h b/MassTree/MassTreeWrapper.h
index b37388f..88ed992 100644
--- a/MassTree/MassTreeWrapper.h
+++ b/MassTree/MassTreeWrapper.h
@@ -78,11 +78,12 @@ class MassTreeWrapper {
     mass_thd_info->rcu_start();
     locked_cursor_t lp(tree_, key, klen);
     bool find = lp.find_insert(*mass_thd_info);
-    if(find) {
-      retire(lp.value(), vtag());
-    }
+    V old_value{};
+    if(find) old_value = lp.value();
     lp.value() = value;
     lp.finish(1, *mass_thd_info);
+    /* retire the old value after it has been replaced */
+    if(find) retire(old_value, vtag());
     mass_thd_info->rcu_stop();
 
     return !find;
-- 
2.43.0


From f058f458b189304a64bb12ce7954795b6cdcbc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:26 +0000
Subject: [PATCH 26/45] fix: masstree threadinfo::make: concurrent
 registrations do not lose a thread

---
 MassTree/kvthread.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MassTree/kvthread.cc b/MassTree/kvthread.cc
index cf199fb..66023f5 100644
--- a/MassTree/kvthread.cc
+++ b/MassTree/kvthread.cc
@@ -54,8 +54,10 @@ threadinfo *threadinfo::make(int purpose, int index) {
     static int threads_initialized;
 
     threadinfo* ti = new(malloc(8192)) threadinfo(purpose, index);
-    ti->next_ = allthreads;
-    allthreads = ti;
+    // threads may register themselves concurrently (MassTreeWrapper::thread_init)
+    do {
+        ti->next_ = allthreads;
+    } while (!bool_cmpxchg(&allthreads, ti->next_, ti));
 
     if (!threads_initialized) {
 #if ENABLE_ASSERTIONS
-- 
2.43.0


From 5e13ba96fe3c5675bd2089dc93b95174b458db49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:26 +0000
Subject: [PATCH 27/45] fix: masstree leaf insert: the suffix storage exists
 before the slot claims a suffix

---
 MassTree/masstree_struct.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MassTree/masstree_struct.hh b/MassTree/masstree_struct.hh
index 494dcca..42d9563 100644
--- a/MassTree/masstree_struct.hh
+++ b/MassTree/masstree_struct.hh
@@ -500,8 +500,11 @@ class leaf : public node_base<P> {
         if (!ka.has_suffix()) {
             keylenx_[p] = ka.length();
         } else {
-            keylenx_[p] = ksuf_keylenx;
+            // readers with an old permutation may look at slot p, and must not
+            // find a suffix length before there is suffix storage
             assign_ksuf(p, ka.suffix(), false, ti);
+            fence();
+            keylenx_[p] = ksuf_keylenx;
         }
     }
     inline void assign_initialize(int p, const key_type& ka, threadinfo& ti) {
-- 
2.43.0


From 7e0e6f7920df2eb2d4e43aefa6ac1581569f4fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:45 +0000
Subject: [PATCH 28/45] fix: give each logger its own copy of the log file name

loginfo::initialize() shared the caller's string, whose non-atomic reference
count was then used by the caller and by the new logger thread at once.
---
 MassTree/log.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index 0cad68b..698cb73 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -212,9 +212,14 @@ void* loginfo::trampoline(void* x) {
 void loginfo::initialize(const String& logfile) {
     assert(!ti_);
 
+    // The logger thread uses filename_, and reference counts are not atomic:
+    // don't share logfile's representation with our caller.
     f_.filename_.deref();
-    f_.filename_ = logfile.internal_rep();
-    f_.filename_.ref();
+    {
+        String filename(logfile.data(), logfile.length());
+        f_.filename_ = filename.internal_rep();
+        f_.filename_.ref();
+    }
 
     ti_ = threadinfo::make(threadinfo::TI_LOG, logindex_);
     int r = pthread_create(&ti_->pthread(), 0, trampoline, this);
-- 
2.43.0


From 853f910a4eb7fdea885036b29ee8df1889abebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:45 +0000
Subject: [PATCH 29/45] fix: keep a put's key alive until it is logged

onego() overwrote request[2] with the result before recording the operation
under the key it had taken from request[2], so the log could be given freed
memory.
---
 MassTree/mtd.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index a2b725d..5ea54b8 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -968,10 +968,10 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
         q.run_get(tree->table(), request, ti);
     } else if (command == Cmd_Put && request.size() > 3
                && (request.size() % 2) == 1) { // insert or update
-        Str key(request[2].as_s());
+        lcdf::String key = request[2].as_s(); // outlives the reply
         const Json* req = request.array_data() + 3;
         const Json* end_req = request.end_array_data();
-        request[2] = q.run_put(tree->table(), request[2].as_s(),
+        request[2] = q.run_put(tree->table(), key,
                                req, end_req, ti);
         if (ti.logger() && request_str) {
             // use the client's parsed version of the request
@@ -982,7 +982,8 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
             ti.logger()->record(logcmd_put, q.query_times(), key, req, end_req);
         request.resize(3);
     } else if (command == Cmd_Replace) { // insert or update
-        Str key(request[2].as_s()), value(request[3].as_s());
+        lcdf::String key = request[2].as_s(); // outlives the reply
+        Str value(request[3].as_s());
         request[2] = q.run_replace(tree->table(), key, value, ti);
         if (ti.logger()) // NB may block
             ti.logger()->record(logcmd_replace, q.query_times(), key, value);
-- 
2.43.0


From fafc175b89f46db8b58b7dd2e3d0fce9dcc9db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:53 +0000
Subject: [PATCH 30/45] fix: log a reassembled put in the format that replay
 reads

A put request that straddled two input buffers was logged with a msgpack array
header in front of its changes. parse_changeset() doesn't expect one, so
recovery died on (or misread) such a record.
---
 MassTree/log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index 698cb73..501e11d 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -376,7 +376,7 @@ void loginfo::record(int command, const query_times& qtimes, Str key,
                      const lcdf::Json* req, const lcdf::Json* end_req) {
     lcdf::StringAccum sa(128);
     msgpack::unparser<lcdf::StringAccum> cu(sa);
-    cu.write_array_header(end_req - req);
+    // no array header: replay expects the same format as a client's request
     for (; req != end_req; ++req)
         cu << *req;
     record(command, qtimes, key, Str(sa.data(), sa.length()));
-- 
2.43.0


From 84960b03aa301bd01704a42a48151963fef0e708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:04 +0000
Subject: [PATCH 31/45] fix: replay a logged remove as a removal marker

logrecord::apply() parsed the marker that logrecord::run() substitutes for a
removed row's value as a list of column changes; recovery died on (or misread)
every remove in the log.
---
 MassTree/log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index 501e11d..bc76747 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -555,7 +555,7 @@ inline void logrecord::apply(row_type*& value, bool found,
         }
 
     // actually apply change
-    if (command == logcmd_replace)
+    if (command == logcmd_replace || command == logcmd_remove)
         *cur_value = row_type::create1(val, ts, ti);
     else if (command != logcmd_modify
              || (*cur_value && (*cur_value)->timestamp() == prev_ts)) {
-- 
2.43.0


From 7551929de27cc721146fe644c200fc3dcea29461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:48 +0000
Subject: [PATCH 32/45] fix: removing a row that recovery marked removed
 reports that it was absent

---
 MassTree/kvrow.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MassTree/kvrow.hh b/MassTree/kvrow.hh
index a92c9b2..4660a4f 100644
--- a/MassTree/kvrow.hh
+++ b/MassTree/kvrow.hh
@@ -241,10 +241,11 @@ inline bool query<R>::apply_replace(R*& value, bool found, Str new_value,
 template <typename R> template <typename T>
 bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     typename T::cursor_type lp(table, key);
-    bool found = lp.find_locked(ti);
+    // a marker left by recovery is an absent row
+    bool found = lp.find_locked(ti) && !row_is_marker(lp.value());
     if (found)
         apply_remove(lp.value(), lp.node()->phantom_epoch_[0], ti);
-    lp.finish(-1, ti);
+    lp.finish(found ? -1 : 0, ti);
     return found;
 }
 
-- 
2.43.0


From 97f0e620d6fc5c202ca2f2f87af0c5b030f72ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:54 +0000
Subject: [PATCH 33/45] MASSTREE_SIM: simulated log buffers may be smaller

---
 MassTree/log.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index bc76747..f008f6d 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -176,6 +176,10 @@ void logset::free(logset* ls) {
 }
 
 
+#ifdef MASSTREE_SIM
+uint32_t masstree_sim_log_buffer;
+#endif
+
 loginfo::loginfo(logset* ls, int logindex) {
     f_.lock_ = 0;
     f_.waiting_ = 0;
@@ -183,6 +187,10 @@ loginfo::loginfo(logset* ls, int logindex) {
     f_.filename_.ref();
 
     len_ = 20 * 1024 * 1024;
+#ifdef MASSTREE_SIM
+    if (masstree_sim_log_buffer)
+        len_ = masstree_sim_log_buffer;
+#endif
     pos_ = 0;
     buf_ = (char *) malloc(len_);
     always_assert(buf_);
-- 
2.43.0


From 51ef467acae970608312fe08be997dd03f6256b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:13 +0000
Subject: [PATCH 34/45] fix: a logger whose fsync failed does not carry on

loginfo::run() ignored the result of fsync() and counted the epoch as flushed,
although the kernel may have dropped the data. Give up as for a failed write.
---
 MassTree/log.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index f008f6d..f11a6e7 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -286,7 +286,8 @@ void* loginfo::run() {
             release();
             ssize_t r = write(fd, x_buf, x_pos);
             always_assert(r == ssize_t(x_pos));
-            fsync(fd);
+            r = fsync(fd);
+            always_assert(r == 0);
             flushed_epoch_ = x_epoch;
             // printf("log %d %d\n", ti_->index(), x_pos);
             nb = x_pos;
-- 
2.43.0


From 37f1506e703f491834354a6d580f50aa30b0c25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:39 +0000
Subject: [PATCH 35/45] fix: serve only after every log recorded the run's
 first epoch

A log that had not been flushed since the server started (empty, or quiescent
since the run before) did not bound recovery: its lost records were ignored
and later records of other logs were replayed. Also initialise the log infos,
which stay untouched for a missing log.
---
 MassTree/mtd.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index 5ea54b8..b1f0780 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1384,7 +1384,7 @@ recover(threadinfo *)
   recphase(nckthreads, REC_CKP);
 
   // find minimum maximum timestamp of entries in each log
-  rec_log_infos = new logreplay::info_type[nlogger];
+  rec_log_infos = new logreplay::info_type[nlogger]();
   recphase(nlogger, REC_LOG_TS);
 
   // replay log entries, remove inconsistent entries, and append
@@ -1496,6 +1496,13 @@ recover(threadinfo *)
   recovering = false;
   if (recovery_only)
       exit(0);
+
+  // Don't serve until every log on disk says which epoch it continues in.
+  // A later recovery can't tell that it lacks the records of a log that says
+  // nothing about this run, and would keep other logs' later records.
+  for (int i = 0; i != nlogger; ++i)
+      while (!logs->log(i).flushed_epoch())
+          napms(10);
 }
 
 void
-- 
2.43.0


From 48d511fbbad66c73a09b9bfe492fe1f2ccb5c3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:09 +0000
Subject: [PATCH 36/45] fix: a logger doesn't record the epoch from before
 recovery

loginfo::run() read global_log_epoch before it looked at recovering; when
recovery ended between the two it logged epoch 1 after the recovered epochs,
and the next recovery died on the log (or cut it there).
---
 MassTree/log.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index f11a6e7..b6c036b 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -260,6 +260,9 @@ void* loginfo::run() {
     while (1) {
         uint32_t nb = 0;
         acquire();
+        // recover() sets global_log_epoch before it clears recovering
+        bool recovered = !recovering;
+        fence();
         kvepoch_t ge = global_log_epoch, we = global_wake_epoch;
         if (wake_epoch_ != we) {
             wake_epoch_ = we;
@@ -268,7 +271,7 @@ void* loginfo::run() {
         // If the writing threads appear quiescent, and aren't about to write
         // to the log (f_.waiting_ != 0), then write a quiescence
         // notification.
-        if (!recovering && pos_ == 0 && !quiescent_epoch_
+        if (recovered && pos_ == 0 && !quiescent_epoch_
             && ge != log_epoch_ && ge != we && !f_.waiting_) {
             quiescent_epoch_ = log_epoch_ = ge;
             char *p = buf_;
@@ -278,7 +281,7 @@ void* loginfo::run() {
             p += logrec_base::store(p, logcmd_quiesce);
             pos_ = p - buf_;
         }
-        if (!recovering && pos_ > 0) {
+        if (recovered && pos_ > 0) {
             uint32_t x_pos = pos_;
             std::swap(buf_, x_buf);
             pos_ = 0;
-- 
2.43.0


From a335b26768a97e3dd153e5a473514c84bf464e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:33 +0000
Subject: [PATCH 37/45] fix: recover a checkpoint that began in a log's first
 epoch

A log has all the records of its first epoch, so a checkpoint whose min_epoch
is that epoch can be completed from the log; recovery gave up instead.
---
 MassTree/log.cc | 3 +--
 MassTree/mtd.cc | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index b6c036b..56bc290 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -723,8 +723,7 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
             break;
         }
         if (lr.command == logcmd_epoch) {
-            if ((min_epoch && lr.epoch < min_epoch)
-                || (!min_epoch && !repbegin))
+            if (!repbegin || (min_epoch && lr.epoch < min_epoch))
                 repbegin = pos;
             if (lr.epoch >= max_epoch) {
                 always_assert(repbegin);
diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index b1f0780..187b00e 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1461,7 +1461,7 @@ recover(threadinfo *)
 
   // Checks.
   if (rec_ckp_min_epoch) {
-      always_assert(rec_ckp_min_epoch > max_first_epoch);
+      always_assert(rec_ckp_min_epoch >= max_first_epoch);
       always_assert(rec_ckp_min_epoch < rec_replay_max_epoch);
       always_assert(rec_ckp_max_epoch < rec_replay_max_epoch);
       fprintf(stderr, "replay [%" PRIu64 ",%" PRIu64 ") from [%" PRIu64 ",%" PRIu64 ") into ckp [%" PRIu64 ",%" PRIu64 "]\n",
-- 
2.43.0


From 7a1677d0c7e1f2f1fbd19d4821c97386fac7f333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:41 +0000
Subject: [PATCH 38/45] fix: replay writes of the empty key

Recovery skipped every logged operation on the empty key as an "empty entry"
(other entries are told apart by their command).
---
 MassTree/log.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index 56bc290..505e533 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -742,12 +742,11 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
         // correctness of checkpoint scheme.
         assert(repbegin);
         repend = nextpos;
-        if (lr.key.len) { // skip empty entry
-            if (lr.command == logcmd_put
-                || lr.command == logcmd_replace
-                || lr.command == logcmd_modify
-                || lr.command == logcmd_remove)
-                lr.run(tree->table(), jrepo, *ti);
+        if (lr.command == logcmd_put
+            || lr.command == logcmd_replace
+            || lr.command == logcmd_modify
+            || lr.command == logcmd_remove) { // NB the empty key is a key
+            lr.run(tree->table(), jrepo, *ti);
             ++nr;
             if (nr % 100000 == 0)
                 fprintf(stderr,
-- 
2.43.0


From 1def958d2fcf201dbe1cbe69b4149d611fac7f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:10 +0000
Subject: [PATCH 39/45] fix: checkpoint threads split the keys when a pivot is
 empty

With an empty pivot (no keys, or zero bytes first) the threads before the last
had no bound and wrote the same keys as the last one; recovery then violated
its invariant that no key is in a checkpoint twice.
---
 MassTree/checkpoint.cc | 3 ++-
 MassTree/mtd.cc        | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/MassTree/checkpoint.cc b/MassTree/checkpoint.cc
index 0b43a88..6579dfb 100644
--- a/MassTree/checkpoint.cc
+++ b/MassTree/checkpoint.cc
@@ -18,7 +18,8 @@
 // add one key/value to a checkpoint.
 // called by checkpoint_tree() for each node.
 bool ckstate::visit_value(Str key, const row_type* value, threadinfo&) {
-    if (endkey && key >= endkey)
+    // NB an empty endkey is a bound; the last thread has none
+    if (endkey.s && key >= endkey)
         return false;
     if (!row_is_marker(value)) {
         msgpack::unparser<kvout> up(*vals);
diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index 187b00e..1b95182 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1667,7 +1667,12 @@ void* conc_checkpointer(void* x) {
       ckp_gen = ckp_gen.next_nonzero();
       for (int i = 0; i < nckthreads; i++) {
           cks[i].startkey = pv[i];
-          cks[i].endkey = (i == nckthreads - 1 ? Str() : pv[i + 1]);
+          if (i == nckthreads - 1)
+              cks[i].endkey = Str();
+          else if (pv[i + 1].s)
+              cks[i].endkey = pv[i + 1];
+          else
+              cks[i].endkey = Str("", 0);
           cks[i].state = CKState_Go;
           pthread_cond_signal(&cks[i].state_cond);
       }
-- 
2.43.0


From d55d9e493ab372c5edc1ca335a8594c3b1ad026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:17 +0000
Subject: [PATCH 40/45] fix: wakes that a log notices late keep recovery and
 quiescence consistent

A logger that noticed a wake marked it as recorded without recording it, so
that a write after the wake survived although the waking write was lost. A wake
recorded late, at an epoch after quiescent logs had written their markers, made
recovery drop everything from that epoch on.
---
 MassTree/log.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index 505e533..35d001b 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -264,15 +264,15 @@ void* loginfo::run() {
         bool recovered = !recovering;
         fence();
         kvepoch_t ge = global_log_epoch, we = global_wake_epoch;
-        if (wake_epoch_ != we) {
-            wake_epoch_ = we;
+        // A wake this log missed makes its quiescence marker obsolete: record
+        // another one. wake_epoch_ only changes when a wake is recorded.
+        if (quiescent_epoch_ && quiescent_epoch_ <= we)
             quiescent_epoch_ = 0;
-        }
         // If the writing threads appear quiescent, and aren't about to write
         // to the log (f_.waiting_ != 0), then write a quiescence
         // notification.
         if (recovered && pos_ == 0 && !quiescent_epoch_
-            && ge != log_epoch_ && ge != we && !f_.waiting_) {
+            && ge != log_epoch_ && !f_.waiting_) {
             quiescent_epoch_ = log_epoch_ = ge;
             char *p = buf_;
             p += logrec_epoch::store(p, logcmd_epoch, log_epoch_);
@@ -319,6 +319,7 @@ void loginfo::record(int command, const query_times& qtimes,
         if (len_ - pos_ >= n
             && (wait.next == &wait || f_.waiting_ == &wait)) {
             kvepoch_t we = global_wake_epoch;
+            bool wake = we != wake_epoch_;
 
             // Potentially record a new epoch.
             if (qtimes.epoch != log_epoch_) {
@@ -334,9 +335,13 @@ void loginfo::record(int command, const query_times& qtimes,
                 if (flushed_epoch_ == quiescent_epoch_)
                     flushed_epoch_ = qtimes.epoch;
                 quiescent_epoch_ = 0;
+                wake = true;
+            }
+            // Quiescent logs must become quiescent again after the epoch of
+            // every recorded wake command, even of one recorded late.
+            if (wake)
                 while (we < qtimes.epoch)
                     we = cmpxchg(&global_wake_epoch, we, qtimes.epoch);
-            }
 
             // Log epochs should be recorded in monotonically increasing
             // order, but the wake epoch may be ahead of the query epoch (if
-- 
2.43.0


From 4b98bfbe55642be781f0776e4dc81bb45f8e20ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:26 +0000
Subject: [PATCH 41/45] fix: commit a checkpoint only when recovery can replay
 past its last epoch

Logs that had not flushed anything counted as no logs, and a quiescent log that
had missed a wake, or woken without flushing, counted as flushed.
---
 MassTree/log.cc | 8 +++-----
 MassTree/log.hh | 4 +++-
 MassTree/mtd.cc | 9 +++++++--
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/MassTree/log.cc b/MassTree/log.cc
index 35d001b..4332067 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -329,11 +329,9 @@ void loginfo::record(int command, const query_times& qtimes,
 
             if (quiescent_epoch_) {
                 // We're recording a new log record on a log that's been
-                // quiescent for a while. If the quiescence marker has been
-                // flushed, then all epochs less than the query epoch are
-                // effectively on disk.
-                if (flushed_epoch_ == quiescent_epoch_)
-                    flushed_epoch_ = qtimes.epoch;
+                // quiescent for a while. flushed_epoch_ stays: until this
+                // record is flushed, recovery might see the quiescence
+                // marker and a wake, and replay less than the query epoch.
                 quiescent_epoch_ = 0;
                 wake = true;
             }
diff --git a/MassTree/log.hh b/MassTree/log.hh
index 3df07fa..cc7c58b 100644
--- a/MassTree/log.hh
+++ b/MassTree/log.hh
@@ -187,7 +187,9 @@ inline kvepoch_t loginfo::flushed_epoch() const {
 }
 
 inline bool loginfo::quiescent() const {
-    return quiescent_epoch_ && quiescent_epoch_ == flushed_epoch_;
+    // a quiescent log that missed a wake bounds what recovery replays
+    return quiescent_epoch_ && quiescent_epoch_ == flushed_epoch_
+        && global_wake_epoch < quiescent_epoch_;
 }
 
 inline int logset::size() const {
diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index 1b95182..26c7d15 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1600,10 +1600,15 @@ static kvepoch_t
 max_flushed_epoch()
 {
     kvepoch_t mfe = 0, ge = global_log_epoch;
+    // queries from epochs before ge hold their log's lock until recorded
+    for (int i = 0; i < nlogger; ++i) {
+        logs->log(i).acquire();
+        logs->log(i).release();
+    }
     for (int i = 0; i < nlogger; ++i) {
         loginfo& log = logs->log(i);
         kvepoch_t fe = log.quiescent() ? ge : log.flushed_epoch();
-        if (!mfe || fe < mfe)
+        if (i == 0 || fe < mfe)
             mfe = fe;
     }
     return mfe;
@@ -1648,7 +1653,7 @@ void* conc_checkpointer(void* x) {
 
       if (uncommitted_ckp) {
           kvepoch_t mfe = max_flushed_epoch();
-          if (!mfe || mfe > uncommitted_ckp["max_epoch"].to_u64()) {
+          if (nlogger == 0 || mfe > uncommitted_ckp["max_epoch"].to_u64()) {
               commit_checkpoint(uncommitted_ckp);
               uncommitted_ckp = Json();
           }
-- 
2.43.0


From 5e759802f7606e81b360dd0cd65ecd964e9b00d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:38 +0000
Subject: [PATCH 42/45] fix: epochs after recovery follow those that replay
 left in the logs

---
 MassTree/mtd.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index 26c7d15..9fb3c4d 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1490,7 +1490,8 @@ recover(threadinfo *)
   always_assert(deltas_created == deltas_removed);
 #endif
 
-  global_log_epoch = rec_replay_max_epoch.next_nonzero();
+  // replay leaves the first epoch past rec_replay_max_epoch in each log
+  global_log_epoch = max_epoch.next_nonzero();
 
   always_assert(pthread_mutex_unlock(&rec_mu) == 0);
   recovering = false;
-- 
2.43.0


From 6f9c946791eabb66e62fa9414da16ca921afa026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:28 +0000
Subject: [PATCH 43/45] fix: a checkpoint begins after the queries of earlier
 epochs are done

A query reads global_log_epoch under its log's lock, then changes the tree and
records. If it is held up in between while the epoch advances, a checkpoint
could read a later min_epoch and scan the row before the change. Recovery
skips the query's log record, since its epoch precedes min_epoch, and the
write is lost though later ones survive. Pass through every log's lock after
reading min_epoch.
---
 MassTree/mtd.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index 9fb3c4d..5d82f7b 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1597,15 +1597,22 @@ commit_checkpoint(Json ckpj)
     }
 }
 
-static kvepoch_t
-max_flushed_epoch()
+// Queries hold their log's lock from when they read global_log_epoch until
+// their effects are visible and recorded. Wait for those of earlier epochs.
+static void
+wait_for_earlier_epochs()
 {
-    kvepoch_t mfe = 0, ge = global_log_epoch;
-    // queries from epochs before ge hold their log's lock until recorded
     for (int i = 0; i < nlogger; ++i) {
         logs->log(i).acquire();
         logs->log(i).release();
     }
+}
+
+static kvepoch_t
+max_flushed_epoch()
+{
+    kvepoch_t mfe = 0, ge = global_log_epoch;
+    wait_for_earlier_epochs();
     for (int i = 0; i < nlogger; ++i) {
         loginfo& log = logs->log(i);
         kvepoch_t fe = log.quiescent() ? ge : log.flushed_epoch();
@@ -1669,6 +1676,7 @@ void* conc_checkpointer(void* x) {
       ti->rcu_stop();
 
       kvepoch_t min_epoch = global_log_epoch;
+      wait_for_earlier_epochs(); // recovery skips their log records
       pthread_mutex_lock(&checkpoint_mu);
       ckp_gen = ckp_gen.next_nonzero();
       for (int i = 0; i < nckthreads; i++) {
-- 
2.43.0


From 37cf6bb7b8fdf9cab2120fbd73d4039cb48706ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:28 +0000
Subject: [PATCH 44/45] fix: checkpoints wait until every log has begun

conc_checkpointer could read min_epoch before a log had written its first
epoch record. When that log then began in a later epoch, recovery failed the
check rec_ckp_min_epoch >= max_first_epoch and the server never started
again.
---
 MassTree/mtd.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/MassTree/mtd.cc b/MassTree/mtd.cc
index 5d82f7b..5f7d050 100644
--- a/MassTree/mtd.cc
+++ b/MassTree/mtd.cc
@@ -1349,6 +1349,15 @@ recphase(int nactive, int state)
     always_assert(pthread_cond_wait(&rec_cond, &rec_mu) == 0);
 }
 
+// wait until every log on disk says which epoch it continues in
+static void
+wait_for_log_epochs()
+{
+  for (int i = 0; i != nlogger; ++i)
+      while (!logs->log(i).flushed_epoch())
+          napms(10);
+}
+
 // read the checkpoint file.
 // read each log file.
 // insert will ignore attempts to update with timestamps
@@ -1501,9 +1510,7 @@ recover(threadinfo *)
   // Don't serve until every log on disk says which epoch it continues in.
   // A later recovery can't tell that it lacks the records of a log that says
   // nothing about this run, and would keep other logs' later records.
-  for (int i = 0; i != nlogger; ++i)
-      while (!logs->log(i).flushed_epoch())
-          napms(10);
+  wait_for_log_epochs();
 }
 
 void
@@ -1635,6 +1642,8 @@ void* conc_checkpointer(void* x) {
     sleep(1);
   if (checkpoint_interval <= 0)
       return 0;
+  // recovery expects the logs to begin before a checkpoint's min_epoch
+  wait_for_log_epochs();
   if (ti->index() == 0) {
     for (int i = 1; i < nckthreads; i++)
       while (cks[i].state != CKState_Ready)
-- 
2.43.0


From f086c1de92a2c71904b7f88a4ba0771601e3b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:49 +0000
Subject: [PATCH 45/45] fix: a query on a quiescent log announces the wake
 before its effects can be seen

The wake epoch was raised in loginfo::record(), after the query had changed
the tree and released the row. Another query could see and change the row,
record without a wake, and survive a crash that lost the first query's
record, since recovery took that log for quiescent.
---
 MassTree/kvrow.hh | 18 ++++++------------
 MassTree/log.cc   |  4 +---
 MassTree/log.hh   | 23 ++++++++++++++++++++++-
 3 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/MassTree/kvrow.hh b/MassTree/kvrow.hh
index 4660a4f..7fb9d7d 100644
--- a/MassTree/kvrow.hh
+++ b/MassTree/kvrow.hh
@@ -179,10 +179,8 @@ result_t query<R>::run_put(T& table, Str key,
 template <typename R>
 inline bool query<R>::apply_put(R*& value, bool found, const Json* firstreq,
                                 const Json* lastreq, threadinfo& ti) {
-    if (loginfo* log = ti.logger()) {
-        log->acquire();
-        qtimes_.epoch = global_log_epoch;
-    }
+    if (loginfo* log = ti.logger())
+        qtimes_.epoch = log->acquire_for_query();
 
     if (!found) {
     insert:
@@ -221,10 +219,8 @@ result_t query<R>::run_replace(T& table, Str key, Str value, threadinfo& ti) {
 template <typename R>
 inline bool query<R>::apply_replace(R*& value, bool found, Str new_value,
                                     threadinfo& ti) {
-    if (loginfo* log = ti.logger()) {
-        log->acquire();
-        qtimes_.epoch = global_log_epoch;
-    }
+    if (loginfo* log = ti.logger())
+        qtimes_.epoch = log->acquire_for_query();
 
     bool inserted = !found || row_is_marker(value);
     if (!found) {
@@ -252,10 +248,8 @@ bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
 template <typename R>
 inline void query<R>::apply_remove(R*& value, kvtimestamp_t& node_ts,
                                    threadinfo& ti) {
-    if (loginfo* log = ti.logger()) {
-        log->acquire();
-        qtimes_.epoch = global_log_epoch;
-    }
+    if (loginfo* log = ti.logger())
+        qtimes_.epoch = log->acquire_for_query();
 
     R* old_value = value;
     assign_timestamp(ti, old_value->timestamp());
diff --git a/MassTree/log.cc b/MassTree/log.cc
index 4332067..fab79e7 100644
--- a/MassTree/log.cc
+++ b/MassTree/log.cc
@@ -31,7 +31,6 @@
 using lcdf::String;
 
 kvepoch_t global_log_epoch;
-kvepoch_t global_wake_epoch;
 struct timeval log_epoch_interval;
 static struct timeval log_epoch_time;
 extern Masstree::default_table* tree;
@@ -338,8 +337,7 @@ void loginfo::record(int command, const query_times& qtimes,
             // Quiescent logs must become quiescent again after the epoch of
             // every recorded wake command, even of one recorded late.
             if (wake)
-                while (we < qtimes.epoch)
-                    we = cmpxchg(&global_wake_epoch, we, qtimes.epoch);
+                we = raise_wake_epoch(qtimes.epoch);
 
             // Log epochs should be recorded in monotonically increasing
             // order, but the wake epoch may be ahead of the query epoch (if
diff --git a/MassTree/log.hh b/MassTree/log.hh
index cc7c58b..b53bf7e 100644
--- a/MassTree/log.hh
+++ b/MassTree/log.hh
@@ -32,6 +32,9 @@ class loginfo {
 
     inline void acquire();
     inline void release();
+    // Acquire the lock for a query that will change the tree and record();
+    // returns the query's epoch.
+    inline kvepoch_t acquire_for_query();
 
     inline kvepoch_t flushed_epoch() const;
     inline bool quiescent() const;
@@ -95,6 +98,7 @@ class loginfo {
 
     loginfo(logset* ls, int logindex);
     ~loginfo();
+    static inline kvepoch_t raise_wake_epoch(kvepoch_t e);
     void* run();
     static void* trampoline(void*);
 
@@ -115,7 +119,7 @@ class logset {
 };
 
 extern kvepoch_t global_log_epoch;
-extern kvepoch_t global_wake_epoch;
+inline kvepoch_t global_wake_epoch;
 extern struct timeval log_epoch_interval;
 
 enum logcommand {
@@ -182,6 +186,23 @@ inline void loginfo::release() {
     test_and_set_release(&f_.lock_);
 }
 
+inline kvepoch_t loginfo::acquire_for_query() {
+    acquire();
+    kvepoch_t e = global_log_epoch;
+    if (quiescent_epoch_)
+        // Announce the wake before the query's effects can be seen: whoever
+        // sees them and records something must record the wake first.
+        raise_wake_epoch(e);
+    return e;
+}
+
+inline kvepoch_t loginfo::raise_wake_epoch(kvepoch_t e) {
+    kvepoch_t we = global_wake_epoch;
+    while (we < e)
+        we = cmpxchg(&global_wake_epoch, we, e);
+    return we;
+}
+
 inline kvepoch_t loginfo::flushed_epoch() const {
     return flushed_epoch_;
 }
-- 
2.43.0

