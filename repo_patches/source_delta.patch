From 85e0f0a992983d8da725d693a7e5ff510221b86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:20 +0000
Subject: [PATCH 001/119] fix: parallel_for must not visit elements before the
 start of its range

---
 include/trident/utils/parallel.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/trident/utils/parallel.h b/include/trident/utils/parallel.h
index c0b6a24..ebfeb65 100644
--- a/include/trident/utils/parallel.h
+++ b/include/trident/utils/parallel.h
@@ -148,8 +148,8 @@ class ParallelTasks {
                 assert(nthreads >= 1);
                 const size_t delta = std::max(grainsize, (size_t) (end - begin + nthreads - 1) / nthreads);
                 std::vector<std::future<void>> threads;
-                size_t currentbegin = 0;
-                size_t currentend = 0;
+                size_t currentbegin = begin;
+                size_t currentend = begin;
                 for (size_t i = 0; i < nthreads && currentend < end; ++i) {
                     currentbegin = currentend;
                     currentend = currentbegin + delta;
-- 
2.43.0


From 473a354ffc7c8866e171dd51f51824acc080c5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:45 +0000
Subject: [PATCH 002/119] fix: loading with a number of readers that does not
 divide the number of threads must not lose input parts

---
 src/trident/kb/loader.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/trident/kb/loader.cpp b/src/trident/kb/loader.cpp
index 1b6f867..d032000 100644
--- a/src/trident/kb/loader.cpp
+++ b/src/trident/kb/loader.cpp
@@ -1473,6 +1473,14 @@ void Loader::load(ParamsLoad p) {
         p.maxReadingThreads = p.parallelThreads;
     }
 
+    //The parts of the input are divided equally among the readers
+    if (p.maxReadingThreads < 1) {
+        p.maxReadingThreads = 1;
+    }
+    while (p.parallelThreads % p.maxReadingThreads != 0) {
+        p.maxReadingThreads--;
+    }
+
     if (p.dictionaries > p.parallelThreads) {
         LOG(WARNL) << "The dictionary partitions cannot be higher than the maximum number of threads. I set it to = " << p.parallelThreads;
         p.dictionaries = p.parallelThreads;
-- 
2.43.0


From c60a73731eee6013de98e5336322207325b56176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 003/119] fix: B+tree nodes with steps larger than 127 must be
 read back with the right keys

---
 include/trident/tree/node.h |  2 ++
 src/trident/tree/node.cpp   | 29 ++++++++++++++++++++++++++---
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/include/trident/tree/node.h b/include/trident/tree/node.h
index c1dcaed..7151b19 100644
--- a/include/trident/tree/node.h
+++ b/include/trident/tree/node.h
@@ -53,6 +53,8 @@ private:
     int consecutiveStep;
     char state;
 
+    void expandSteps();
+
 protected:
     int pos(int64_t key);
 
diff --git a/src/trident/tree/node.cpp b/src/trident/tree/node.cpp
index ae28591..d593137 100644
--- a/src/trident/tree/node.cpp
+++ b/src/trident/tree/node.cpp
@@ -97,11 +97,15 @@ int Node::unserialize(char* bytes, int pos) {
     setCurrentSize(size);
     pos += 4;
 
+    if (size <= 1) {
+        consecutive = true;
+        consecutiveStep = 1;
+    }
     if (size > 0) {
         firstKey = Utils::decode_long(bytes, pos);
         pos += 8;
         if (size > 1) {
-            char step = bytes[pos++];
+            uint8_t step = (uint8_t) bytes[pos++];
             if (step > 0) {
                 consecutive = true;
                 consecutiveStep = step;
@@ -137,8 +141,9 @@ int Node::serialize(char* bytes, int pos) {
         if (getCurrentSize() > 1) {
             // Check if we can make it consecutive
             uint8_t step = 0;
-            if (consecutive
-                    || (keys[0] == 1
+            if (consecutive) {
+                step = (uint8_t) consecutiveStep;
+            } else if ((keys[0] == 1
                         && keys[getCurrentSize() - 2]
                         == getCurrentSize() - 1)) {
                 step = 1;
@@ -221,8 +226,24 @@ bool Node::shouldSplit() {
     return getCurrentSize() == context->getMaxElementsPerNode();
 }
 
+void Node::expandSteps() {
+    //The routines that modify the keys only know sequences with step one
+    if (!consecutive || consecutiveStep == 1)
+        return;
+    if (keys == NULL) {
+        keys = context->getNodesKeyFactory()->get();
+    }
+    for (int i = 0; i < getCurrentSize() - 1; ++i) {
+        keys[i] = (int64_t)(i + 1) * consecutiveStep;
+    }
+    consecutive = false;
+    consecutiveStep = 1;
+}
+
 void Node::split(Node *node) {
+    expandSteps();
     currentSize = node->currentSize = context->getMinElementsPerNode();
+    node->consecutiveStep = 1;
 
     if (consecutive) {
         node->firstKey = firstKey + currentSize;
@@ -246,6 +267,7 @@ void Node::split(Node *node) {
 }
 
 void Node::putkeyAt(nTerm key, int pos) {
+    expandSteps();
     if (pos == 0) {
         // Need to change the first key
         if (getCurrentSize() == 0) {
@@ -302,6 +324,7 @@ void Node::putkeyAt(tTerm *key, int sizeKey, int pos) {
 }
 
 void Node::removeKeyAtPos(int pos) {
+    expandSteps();
     if (getCurrentSize() > 1 && pos < getCurrentSize() - 1) {
         if (consecutive) {
             if (pos == 0) {
-- 
2.43.0


From ea7be6f0f0f2cc9e9b178b58f5f4b8324c0f0893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 004/119] fix: a flat tree must not return values for keys
 beyond its end

---
 src/trident/tree/flatroot.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/trident/tree/flatroot.cpp b/src/trident/tree/flatroot.cpp
index 2d38d22..50b2163 100644
--- a/src/trident/tree/flatroot.cpp
+++ b/src/trident/tree/flatroot.cpp
@@ -28,8 +28,12 @@ void FlatRoot::__set(int permid, char *block, TermCoordinates *value) {
 }
 
 bool FlatRoot::get(nTerm key, TermCoordinates *value) {
-    char *start = raw + key * sizeblock;
     value->clear();
+    if (key < 0 || (uint64_t) key >= len / sizeblock) {
+        //The term does not occur in any triple
+        return false;
+    }
+    char *start = raw + key * sizeblock;
     __set(IDX_SOP, start + 5, value);
     if (!unlabeled || !undirected) {
         __set(IDX_OSP, start + 18, value);
-- 
2.43.0


From 49d80b3350f52a0a85f91d398c03733c78f6b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 005/119] fix: iterators that subtract removals must be exact
 after moveto, mark, and when ignoring the second column

---
 .../trident/iterators/rmcompositetermitr.h    |  15 +-
 include/trident/iterators/rmitr.h             |  50 ++--
 src/trident/iterators/rmitr.cpp               | 220 ++++++++++--------
 3 files changed, 150 insertions(+), 135 deletions(-)

diff --git a/include/trident/iterators/rmcompositetermitr.h b/include/trident/iterators/rmcompositetermitr.h
index 62d9517..c82ed88 100644
--- a/include/trident/iterators/rmcompositetermitr.h
+++ b/include/trident/iterators/rmcompositetermitr.h
@@ -33,7 +33,7 @@ private:
     PairItr *rmitr;
     int64_t currentCount, nextCount;
 
-    bool hnc, hn;
+    bool hnc, hn, rmvalid;
 
     static bool _sorter(PairItr *i1, PairItr *i2) {
         return i1->getKey() > i2->getKey();
@@ -88,7 +88,7 @@ public:
             if (nextCount != -1) {
                 currentCount = nextCount;
             }
-            else if (rmitr->getKey() != mainitr->getKey()) {
+            else if (!rmvalid || rmitr->getKey() != mainitr->getKey()) {
                 currentCount = mainitr->getCount();
             } else {
                 currentCount = mainitr->getCount() - rmitr->getCount();
@@ -106,10 +106,12 @@ public:
         if (mainitr->hasNext()) {
             mainitr->next();
             while (true) {
-                while (rmitr->getKey() < mainitr->getKey() && rmitr->hasNext()) {
-                    rmitr->next();
+                while (rmvalid && rmitr->getKey() < mainitr->getKey()) {
+                    rmvalid = rmitr->hasNext();
+                    if (rmvalid)
+                        rmitr->next();
                 }
-                if (rmitr->getKey() != mainitr->getKey()) {
+                if (!rmvalid || rmitr->getKey() != mainitr->getKey()) {
                     hn = true;
                     break;
                 } else {
@@ -158,7 +160,8 @@ public:
 	initializeConstraints();
         this->mainitr = mainitr;
         this->rmitr = rmitr;
-        if (rmitr->hasNext())
+        rmvalid = rmitr->hasNext();
+        if (rmvalid)
             rmitr->next();
         hnc = false;
         hn = false;
diff --git a/include/trident/iterators/rmitr.h b/include/trident/iterators/rmitr.h
index b130215..2a6ab1c 100644
--- a/include/trident/iterators/rmitr.h
+++ b/include/trident/iterators/rmitr.h
@@ -30,18 +30,34 @@ class RmItr : public PairItr {
 private:
     PairItr *itr;
     PairItr *rmitr;
-    int64_t delnfirstterms;
     bool rmitrvalid;
     bool noseccol;
     int64_t v1, v2;
-    int64_t curCount, nextCount;
+    int64_t curCount;
+    //Element of itr that was read ahead by hasNext()
+    int64_t nextKey, nextv1, nextv2;
+    //Current element of rmitr (valid only if rmitrvalid is true)
+    int64_t rmKey, rmv1, rmv2;
     bool hnc, hn;
+    //If true, then next() must return the current element once more
+    bool stay;
 
-    bool savedrmitrvalid;
-    int64_t savedv1, savedv2, savedcurCount, savednextCount;
+    bool savedrmitrvalid, savedhnc, savedhn, savedstay;
+    int64_t savedkey, savedv1, savedv2, savedcurCount;
+    int64_t savednextKey, savednextv1, savednextv2;
+    int64_t savedrmKey, savedrmv1, savedrmv2;
 
+    void nextRm();
 
-    int cmp(PairItr *itr1, PairItr *itr2);
+    bool readAhead();
+
+    void skipSecondColumn();
+
+    int cmpRm();
+
+    bool isSmaller(int64_t a1, int64_t a2, int64_t b1, int64_t b2) {
+        return a1 < b1 || (!noseccol && a1 == b1 && a2 < b2);
+    }
 
 public:
     int getTypeItr() {
@@ -59,29 +75,9 @@ public:
     void clear() {
     }
 
-    void mark() {
-        savedrmitrvalid = rmitrvalid;
-	savedv1 = v1;
-	savedv2 = v2;
-	savedcurCount = curCount;
-	savednextCount = nextCount;
-	itr->mark();
-	rmitr->mark();
-    }
+    void mark();
 
-    void reset(const char i) {
-        rmitrvalid = savedrmitrvalid;
-	hnc = false;
-	if (i == 0) {
-	    v1 = savedv1;
-	} else {
-	    v2 = savedv2;
-	}
-	curCount = savedcurCount;
-	nextCount = savednextCount;
-	itr->reset(i);
-	rmitr->reset(i);
-    }
+    void reset(const char i);
 
     PairItr *getMainItr() {
         return itr;
diff --git a/src/trident/iterators/rmitr.cpp b/src/trident/iterators/rmitr.cpp
index 813d234..1cc123e 100644
--- a/src/trident/iterators/rmitr.cpp
+++ b/src/trident/iterators/rmitr.cpp
@@ -22,82 +22,109 @@
 
 #include <trident/iterators/rmitr.h>
 
-#include <algorithm>
 #include <assert.h>
 
 void RmItr::init(PairItr *itr, PairItr *rmitr, int64_t nfirstterms) {
     initializeConstraints();
     this->itr = itr;
     this->rmitr = rmitr;
-    this->delnfirstterms = nfirstterms;
     noseccol = false;
-    hnc = hn = false;
+    hnc = hn = stay = false;
     v1 = v2 = key = -1;
+    nextKey = nextv1 = nextv2 = -1;
+    curCount = 0;
+    nextRm();
+}
+
+void RmItr::nextRm() {
     if (rmitr->hasNext()) {
         rmitr->next();
+        rmKey = rmitr->getKey();
+        rmv1 = rmitr->getValue1();
+        rmv2 = rmitr->getValue2();
         rmitrvalid = true;
     } else {
         rmitrvalid = false;
     }
-    curCount = nextCount = 0;
+}
+
+void RmItr::mark() {
+    savedrmitrvalid = rmitrvalid;
+    savedhnc = hnc;
+    savedhn = hn;
+    savedstay = stay;
+    savedkey = key;
+    savedv1 = v1;
+    savedv2 = v2;
+    savedcurCount = curCount;
+    savednextKey = nextKey;
+    savednextv1 = nextv1;
+    savednextv2 = nextv2;
+    savedrmKey = rmKey;
+    savedrmv1 = rmv1;
+    savedrmv2 = rmv2;
+    itr->mark();
+    rmitr->mark();
+}
+
+void RmItr::reset(const char i) {
+    rmitrvalid = savedrmitrvalid;
+    hnc = savedhnc;
+    hn = savedhn;
+    stay = savedstay;
+    key = savedkey;
+    v1 = savedv1;
+    v2 = savedv2;
+    curCount = savedcurCount;
+    nextKey = savednextKey;
+    nextv1 = savednextv1;
+    nextv2 = savednextv2;
+    rmKey = savedrmKey;
+    rmv1 = savedrmv1;
+    rmv2 = savedrmv2;
+    itr->reset(i);
+    rmitr->reset(i);
 }
 
 void RmItr::moveto(const int64_t c1, const int64_t c2) {
     assert(v1 != -1);
-    itr->moveto(c1, c2);
-    rmitr->moveto(c1, c2);
-    if (rmitr->hasNext()) {
-        rmitr->next();
-    } else {
-        rmitrvalid = false;
+    if (!isSmaller(v1, v2, c1, c2)) {
+        //The current element is already good
+        stay = true;
+        return;
     }
+    stay = false;
+    if (hnc && (!hn || nextKey != key || !isSmaller(nextv1, nextv2, c1, c2))) {
+        //Also the element that was read ahead is not before the target
+        return;
+    }
+    itr->moveto(c1, c2);
+    hnc = false;
+    //rmitr reaches the new position in hasNext()
 }
 
 bool RmItr::hasNext() {
+    return stay || readAhead();
+}
+
+bool RmItr::readAhead() {
     if (hnc)
         return hn;
 
     bool valid = false;
-    while (itr->hasNext()) {
+    while (!valid && itr->hasNext()) {
         //Check if there is a valid element
         itr->next();
-        if (rmitrvalid) {
-            //Check if it's equivalent. If so, we move to the next element
-            int cmpres = cmp(rmitr, itr);
-            while (cmpres < 0) {
-                //Move the rmitr to the right position
-                if (rmitr->hasNext()) {
-                    rmitr->next();
-                    cmpres = cmp(rmitr, itr);
-                } else {
-                    break;
-                }
-            }
-            if (cmpres < 0) {//No more triples to remove
-                nextCount = itr->getCount();
-                rmitrvalid = false;
-                valid = true;
-                break;
-            } else if (cmpres > 0) { //The triple is not marked to be removed
-                nextCount = itr->getCount();
-                valid = true;
-                break;
-            } else {
-                //We must continue to find the next valid element
-                if (noseccol) {
-                    //Check the count. If greater than 0 then it's fine
-                    nextCount = itr->getCount() - rmitr->getCount();
-                    if (nextCount > 0) {
-                        valid = true;
-                        break;
-                    }
-                }
-            }
-        } else {
-            nextCount = itr->getCount();
-            valid = true;
-            break;
+        nextKey = itr->getKey();
+        nextv1 = itr->getValue1();
+        nextv2 = itr->getValue2();
+        //Move the rmitr to the right position
+        int cmpres = 1;
+        while (rmitrvalid && (cmpres = cmpRm()) < 0) {
+            nextRm();
         }
+        //If it's equivalent, then we move to the next element
+        valid = !rmitrvalid || cmpres != 0;
     }
     hnc = true;
     hn = valid;
@@ -105,11 +132,26 @@ bool RmItr::hasNext() {
 }
 
 void RmItr::next() {
-    setKey(itr->getKey());
-    v1 = itr->getValue1();
-    v2 = itr->getValue2();
-    curCount = nextCount;
+    if (stay) {
+        stay = false;
+        return;
+    }
+    readAhead();
+    setKey(nextKey);
+    v1 = nextv1;
+    v2 = nextv2;
     hnc = false;
+    if (noseccol)
+        skipSecondColumn();
+}
+
+void RmItr::skipSecondColumn() {
+    //Counts and skips the other valid elements with the same first value
+    curCount = 1;
+    while (readAhead() && nextKey == key && nextv1 == v1) {
+        curCount++;
+        hnc = false;
+    }
 }
 
 int64_t RmItr::getCount() {
@@ -118,7 +160,13 @@ int64_t RmItr::getCount() {
 
 uint64_t RmItr::getCardinality() {
     if (noseccol) {
-        return itr->getCardinality() - delnfirstterms;
+        //Count the remaining values, plus the current one
+        uint64_t card = v1 != -1 && !stay ? 1 : 0;
+        while (hasNext()) {
+            next();
+            card++;
+        }
+        return card;
     } else {
         return itr->getCardinality() - rmitr->getCardinality();
     }
@@ -126,62 +174,30 @@ uint64_t RmItr::getCardinality() {
 
 uint64_t RmItr::estCardinality() {
     uint64_t card = itr->estCardinality();
-    if (rmitrvalid)
-        card -= rmitr->estCardinality();
-    return std::max((uint64_t)0, card);
+    if (rmitrvalid) {
+        const uint64_t rmcard = rmitr->estCardinality();
+        card = card > rmcard ? card - rmcard : 0;
+    }
+    return card;
 }
 
-int RmItr::cmp(PairItr *itr1, PairItr *itr2) {
-    if (noseccol) {
-        if (itr1->getKey() < itr2->getKey()) {
-            return -1;
-        } else if (itr1->getKey() == itr2->getKey()) {
-            int64_t diff = itr1->getValue1() - itr2->getValue1();
-            if (diff < 0)
-                return -1;
-            else if (diff > 0)
-                return 1;
-            else
-                return 0;
-        } else {
-            return 1;
-        }
-    } else {
-        if (itr1->getKey() < itr2->getKey()) {
-            return -1;
-        } else if (itr1->getKey() == itr2->getKey()) {
-            int64_t diff = itr1->getValue1() - itr2->getValue1();
-            if (diff < 0) {
-                return -1;
-            } else if (diff > 0) {
-                return 1;
-            } else {
-                int64_t diff2 = itr1->getValue2() - itr2->getValue2();
-                if (diff2 < 0) {
-                    return -1;
-                } else if (diff2 > 0) {
-                    return 1;
-                } else {
-                    return 0;
-                }
-            }
-        } else {
-            return 1;
-        }
+int RmItr::cmpRm() {
+    //Compares the current element of rmitr to the one read ahead from itr
+    if (rmKey != nextKey) {
+        return rmKey < nextKey ? -1 : 1;
+    } else if (rmv1 != nextv1) {
+        return rmv1 < nextv1 ? -1 : 1;
+    } else if (rmv2 != nextv2) {
+        return rmv2 < nextv2 ? -1 : 1;
     }
+    return 0;
 }
 
 void RmItr::ignoreSecondColumn() {
-    itr->ignoreSecondColumn();
-    rmitr->ignoreSecondColumn();
+    //The underlying iterators must still return all elements, because only
+    //some of the values of the second column might have been removed
     noseccol = true;
-    if (v1 == -1) {
-        nextCount = itr->getCount();
-        if (rmitr->getValue1() == itr->getValue1())
-            nextCount -= rmitr->getCount();
-    } else {
-        curCount = itr->getCount();
-        if (rmitr->getValue1() == itr->getValue1())
-            curCount -= rmitr->getCount();
+    if (v1 != -1) {
+        skipSecondColumn();
     }
 }
-- 
2.43.0


From b1e5b279643e5c565525904af58ad34139c1d81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 006/119] fix: moveto and reset on merged iterators must
 reconsider exhausted children

---
 include/trident/iterators/compositeitr.h | 11 ++++++++---
 src/trident/iterators/compositeitr.cpp   | 11 ++++++-----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/trident/iterators/compositeitr.h b/include/trident/iterators/compositeitr.h
index 3f76fbe..e195b88 100644
--- a/include/trident/iterators/compositeitr.h
+++ b/include/trident/iterators/compositeitr.h
@@ -49,7 +49,8 @@ class CompositeItr: public PairItr {
 
         int64_t savedv1, savedv2, savedcurrentCount;
         int savedlastIdx;
-        bool savedhn, savedhnc;
+        bool savedhn, savedhnc, savedisSorted, saveddecreasedKey;
+        std::vector<PairItr*> savedchildren;
 
         void rearrangeChildren();
 
@@ -92,7 +93,9 @@ class CompositeItr: public PairItr {
             savedlastIdx = lastIdx;
             savedhn = hn;
             savedhnc = hnc;
-            kbitr->mark();
+            savedisSorted = isSorted;
+            saveddecreasedKey = decreasedKey;
+            savedchildren = children;
             for (int64_t i = children.size() - 1; i >= 0; i--) {
                 children[i]->mark();
             }
@@ -106,7 +109,9 @@ class CompositeItr: public PairItr {
             lastIdx = savedlastIdx;
             hn = savedhn;
             hnc = savedhnc;
-            kbitr->reset(r);
+            isSorted = savedisSorted;
+            decreasedKey = saveddecreasedKey;
+            children = savedchildren;
             for (int64_t i = children.size() - 1; i >= 0; i--) {
                 children[i]->reset(r);
             }
diff --git a/src/trident/iterators/compositeitr.cpp b/src/trident/iterators/compositeitr.cpp
index 3736de7..8d1b48c 100644
--- a/src/trident/iterators/compositeitr.cpp
+++ b/src/trident/iterators/compositeitr.cpp
@@ -200,11 +200,12 @@ uint64_t CompositeItr::estCardinality() {
 }
 
 void CompositeItr::moveto(const int64_t c1, const int64_t c2) {
-    if (c1 == v1 && (ignseccol || c2 == v2)) {
-        //I might have to reconsider also the iterators that were removed
-        while (lastIdx < children.size() - 1 &&
-                children[lastIdx + 1]->getValue1() == c1 &&
-                (ignseccol || children[lastIdx + 1]->getValue2() == c2)) {
+    if (c1 < v1 || (c1 == v1 && (ignseccol || c2 <= v2))) {
+        //The current element is already good. I might have to reconsider also
+        //the iterators that were removed
+        while (lastIdx < (int) children.size() - 1 &&
+                children[lastIdx + 1]->getValue1() == v1 &&
+                (ignseccol || children[lastIdx + 1]->getValue2() == v2)) {
             lastIdx++;
         }
     }
-- 
2.43.0


From b8402a16e16fae78c7004637bde2110c12546ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 007/119] fix: reset must restore the current values, and
 reordered iterators must reposition correctly

---
 include/trident/binarytables/newrowtable.h |  7 +++++++
 include/trident/iterators/arrayitr.h       |  1 +
 include/trident/iterators/reorderitr.h     | 15 +++++++++++++--
 src/trident/iterators/arrayitr.cpp         |  5 +++++
 src/trident/iterators/reorderitr.cpp       | 15 +++++++++++----
 5 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/include/trident/binarytables/newrowtable.h b/include/trident/binarytables/newrowtable.h
index 9b3e86e..ac53d7f 100644
--- a/include/trident/binarytables/newrowtable.h
+++ b/include/trident/binarytables/newrowtable.h
@@ -43,6 +43,7 @@ class NewRowTable: public AbsNewTable {
         bool isSecondColumnIgnored;
 
         const char *currentMark;
+        int64_t markValue1, markValue2, markCount;
 
     public:
         int64_t getValue1() {
@@ -289,10 +290,16 @@ class NewRowTable: public AbsNewTable {
 
         void mark() {
             currentMark = current;
+            markValue1 = currentValue1;
+            markValue2 = currentValue2;
+            markCount = count;
         }
 
         void reset(const char i) {
             current = currentMark;
+            currentValue1 = markValue1;
+            currentValue2 = markValue2;
+            count = markCount;
         }
 
         void ignoreSecondColumn() {
diff --git a/include/trident/iterators/arrayitr.h b/include/trident/iterators/arrayitr.h
index 1a0632e..a165e5a 100644
--- a/include/trident/iterators/arrayitr.h
+++ b/include/trident/iterators/arrayitr.h
@@ -40,6 +40,7 @@ private:
     int64_t v1, v2;
 
     int markPos;
+    int64_t markV1, markV2;
     bool hasNextChecked;
     bool n;
     bool ignSecondColumn;
diff --git a/include/trident/iterators/reorderitr.h b/include/trident/iterators/reorderitr.h
index 53de0ba..dbfc125 100644
--- a/include/trident/iterators/reorderitr.h
+++ b/include/trident/iterators/reorderitr.h
@@ -113,7 +113,14 @@ public:
     LIBEXP void next();
 
     LIBEXP void mark() {
+        if (m_itr != NULL && m_itr != itr) {
+            m_itr->clear();
+            delete m_itr;
+        }
         m_itr = itr;
+        if (itr != NULL) {
+            itr->mark();
+        }
         m_key = key;
         m_nextKeyIndex = nextKeyIndex;
     }
@@ -124,6 +131,9 @@ public:
             delete itr;
         }
         itr = m_itr;
+        if (itr != NULL) {
+            itr->reset(i);
+        }
         key = m_key;
         nextKeyIndex = m_nextKeyIndex;
     }
@@ -146,11 +156,12 @@ public:
     }
 
     LIBEXP void moveto(const int64_t c1, const int64_t c2) {
-        if (itr == NULL || ! itr->hasNext()) {
+        if (itr == NULL) {
 	    // Should itr == NULL even be allowed here?
-	    // Anyway, moveto should not move to a next key.
 	    return;
         }
+	// Note that the current element may satisfy the condition also if it
+	// is the last one.
         itr->moveto(c1, c2);
     }
 
diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index 6e2bf88..b57f747 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -100,10 +100,15 @@ void ArrayItr::clear() {
 
 void ArrayItr::mark() {
     markPos = pos;
+    markV1 = v1;
+    markV2 = v2;
 }
 
 void ArrayItr::reset(const char i) {
     pos = markPos;
+    v1 = markV1;
+    v2 = markV2;
+    countElems = 0;
     hasNextChecked = false;
 }
 
diff --git a/src/trident/iterators/reorderitr.cpp b/src/trident/iterators/reorderitr.cpp
index 78977d7..cf4424b 100644
--- a/src/trident/iterators/reorderitr.cpp
+++ b/src/trident/iterators/reorderitr.cpp
@@ -23,6 +23,13 @@
 #include <trident/kb/partial.h>
 #include <fstream>
 
+static void skipKey(PairItr *helper, int64_t key) {
+    // Only a scan on the main indices supports this optimization
+    if (helper->getTypeItr() == SCAN_ITR) {
+        helper->gotoKey(key);
+    }
+}
+
 void ReOrderItr::fillValue(google::dense_hash_map<uint64_t, std::shared_ptr<Pairs>> &keyToPair, uint64_t key, uint64_t v1, uint64_t v2) {
 
     if (constraint1 != NO_CONSTRAINT && v1 != constraint1) {
@@ -50,7 +57,7 @@ void ReOrderItr::fillValuesOSP(google::dense_hash_map<uint64_t, std::shared_ptr<
         uint64_t key = helper->getValue2();
         if (p >= 0 && v2 != p) {
             if (v2 > p) {
-                helper->gotoKey(v1+1);
+                skipKey(helper, v1+1);
             }
             continue;
         }
@@ -74,7 +81,7 @@ void ReOrderItr::fillValuesPSO(google::dense_hash_map<uint64_t, std::shared_ptr<
         uint64_t v2 = helper->getValue2();
         if (p >= 0 && key != p) {
             if (key > p) {
-                helper->gotoKey(v1+1);
+                skipKey(helper, v1+1);
             }
             continue;
         }
@@ -99,7 +106,7 @@ void ReOrderItr::fillValuesPOS(google::dense_hash_map<uint64_t, std::shared_ptr<
         uint64_t v1 = helper->getValue2();
         if (p >= 0 && key != p) {
             if (key > p) {
-                helper->gotoKey(v2+1);
+                skipKey(helper, v2+1);
             }
             continue;
         }
@@ -124,7 +131,7 @@ void ReOrderItr::fillValuesOPS(google::dense_hash_map<uint64_t, std::shared_ptr<
         uint64_t key = helper->getValue2();
         if (p >= 0 && v1 != p) {
             if (v1 > p) {
-                helper->gotoKey(v2+1);
+                skipKey(helper, v2+1);
             }
             continue;
         }
-- 
2.43.0


From 354c58bb882bc4f4ff30444483a3448270e6ae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 008/119] fix: reordered term lists must count every key

---
 include/trident/iterators/reordertermitr.h | 10 +++++-----
 src/trident/iterators/reordertermitr.cpp   | 18 +++++++-----------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/include/trident/iterators/reordertermitr.h b/include/trident/iterators/reordertermitr.h
index b12582b..78ba8a8 100644
--- a/include/trident/iterators/reordertermitr.h
+++ b/include/trident/iterators/reordertermitr.h
@@ -29,8 +29,7 @@
 
 #include <inttypes.h>
 #include <vector>
-
-#include <google/dense_hash_set>
+#include <map>
 
 class ReOrderTermItr: public PairItr {
 private:
@@ -38,15 +37,16 @@ private:
     Querier *q;
     PairItr *helper;
     std::vector<uint64_t> keys;
+    std::vector<int64_t> counts;
     size_t nextKeyIndex;
     int idx;
     bool initialized;
     size_t m_nextKeyIndex;
     size_t m_key;
 
-    void fillValuesO(google::dense_hash_set<uint64_t> &keys);
+    void fillValuesO(std::map<uint64_t, int64_t> &keys);
 
-    void fillValuesP(google::dense_hash_set<uint64_t> &keys);
+    void fillValuesP(std::map<uint64_t, int64_t> &keys);
 
     void fillValues();
 
@@ -68,7 +68,7 @@ public:
     }
 
 	LIBEXP int64_t getCount() {
-        return 1;
+        return counts[nextKeyIndex - 1];
     }
 
 	LIBEXP uint64_t getCardinality();
diff --git a/src/trident/iterators/reordertermitr.cpp b/src/trident/iterators/reordertermitr.cpp
index fef346c..a3ab67d 100644
--- a/src/trident/iterators/reordertermitr.cpp
+++ b/src/trident/iterators/reordertermitr.cpp
@@ -21,26 +21,23 @@
 
 #include <trident/iterators/reordertermitr.h>
 
-void ReOrderTermItr::fillValuesO(google::dense_hash_set<uint64_t> &keys) {
+void ReOrderTermItr::fillValuesO(std::map<uint64_t, int64_t> &keys) {
     while (helper->hasNext()) {
         helper->next();
-        uint64_t key = helper->getValue2();
-        keys.insert(key);
+        keys[helper->getValue2()]++;
     }
 }
 
-void ReOrderTermItr::fillValuesP(google::dense_hash_set<uint64_t> &keys) {
+void ReOrderTermItr::fillValuesP(std::map<uint64_t, int64_t> &keys) {
     helper->ignoreSecondColumn();
     while (helper->hasNext()) {
         helper->next();
-        uint64_t key = helper->getValue1();
-        keys.insert(key);
+        keys[helper->getValue1()] += helper->getCount();
     }
 }
 
 void ReOrderTermItr::fillValues() {
-    google::dense_hash_set<uint64_t> keySet;
-    keySet.set_empty_key(0xFFFFFFFFFFFFFFFF);
+    std::map<uint64_t, int64_t> keySet;
     switch(idx) {
     case IDX_OSP:
     case IDX_OPS:
@@ -56,12 +53,11 @@ void ReOrderTermItr::fillValues() {
     }
 
     for (auto v = keySet.begin(); v != keySet.end(); v++) {
-        keys.push_back(*v);
+        keys.push_back(v->first);
+        counts.push_back(v->second);
     }
 
     initialized = true;
-
-    std::sort(keys.begin(), keys.end());
 }
 
 uint64_t ReOrderTermItr::getCardinality() {
-- 
2.43.0


From 8b15cd6a2d511dc55763a60d3a627c4322a4054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 009/119] fix: scans over updates must ignore the second column
 on all children

---
 src/trident/iterators/compositescanitr.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/trident/iterators/compositescanitr.cpp b/src/trident/iterators/compositescanitr.cpp
index 61557cd..821043b 100644
--- a/src/trident/iterators/compositescanitr.cpp
+++ b/src/trident/iterators/compositescanitr.cpp
@@ -118,9 +118,11 @@ void CompositeScanItr::addChild(PairItr *itr) {
 
 void CompositeScanItr::ignoreSecondColumn() {
     ignseccol = true;
-    for (int i = 0; i < children.size(); ++i) {
+    for (int i = children.size() - 1; i >= 0; --i) {
         children[i]->ignoreSecondColumn();
-        if (children[i]->getValue1() == v1 &&
+        //If next() was already called, then skip the remaining values of the
+        //current pair
+        if (v1 != -1 && children[i]->getValue1() == v1 &&
                 children[i]->getKey() == getKey()) {
             if (children[i]->hasNext()) {
                 children[i]->next();
@@ -129,6 +131,7 @@ void CompositeScanItr::ignoreSecondColumn() {
             }
         }
     }
+    hnc = false;
 }
 
 int64_t CompositeScanItr::getCount() {
@@ -139,7 +142,7 @@ void CompositeScanItr::init(int perm) {
     initializeConstraints();
     hnc = false;
     hn = false;
-    v1 = v2 = 0;
+    v1 = v2 = -1;
     ignseccol = false;
     count = 1;
     this->perm = perm;
-- 
2.43.0


From eecc2508f19fd2accd676f86fa484b49573e6234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 010/119] fix: moveto over aggregated tables must continue with
 the next value

---
 src/trident/iterators/aggritr.cpp | 72 ++++++++++++++-----------------
 src/trident/kb/querier.cpp        |  7 ++-
 2 files changed, 36 insertions(+), 43 deletions(-)

diff --git a/src/trident/iterators/aggritr.cpp b/src/trident/iterators/aggritr.cpp
index 8b76cf4..a6d158e 100644
--- a/src/trident/iterators/aggritr.cpp
+++ b/src/trident/iterators/aggritr.cpp
@@ -48,7 +48,9 @@ bool AggrItr::hasNext() {
                 if (!noSecColumn) {
                     setup_second_itr(idx);
                     n = secondItr->hasNext();
-                    secondItr->next();
+                    if (n) {
+                        secondItr->next();
+                    }
                 } else {
                     n = true;
                 }
@@ -119,53 +121,45 @@ void AggrItr::clear() {
 }
 
 void AggrItr::moveto(const int64_t c1, const int64_t c2) {
-    if (c1 < value1 || (c1 == value1 && (noSecColumn || c2 <= value2))) {
-        mainItr->moveto(value1, mainItr->getValue2());
-        n = mainItr->hasNext();
-        if (n) {
-            mainItr->next();
-            if (!noSecColumn) {
-                if (secondItr == NULL) {
-                    setup_second_itr(idx);
-                } else {
-                    secondItr->moveto(getKey(), value2);
-                }
-                n = secondItr->hasNext();
-                if (n) {
-                    secondItr->next();
-                }
-            }
+    if (!hasNextChecked) {
+        if (value1 < 0) {
+            hasNext(); //No element was read so far. Move to the first one
+        } else {
+            //The element to consider is the current one
+            n = true;
+            hasNextChecked = true;
         }
-        hasNextChecked = true;
+    }
+    if (!n) {
         return;
     }
 
-    mainItr->moveto(c1, 0);
-    hasNextChecked = true;
-    n = mainItr->hasNext();
-    if (n) {
-        mainItr->next();
-        if (mainItr->getValue1() < c1) { //End of the stream. Stop
-            n = false;
-        } else {
-            if (!noSecColumn) {
-                if (secondItr != NULL) {
-                    q->releaseItr(secondItr);
-                }
-                setup_second_itr(idx);
-                n = secondItr->hasNext();
-                if (n)
-                    secondItr->next();
+    if (mainItr->getValue1() < c1) {
+        if (secondItr != NULL) {
+            q->releaseItr(secondItr);
+            secondItr = NULL;
+        }
+        mainItr->moveto(c1, 0);
+        n = mainItr->hasNext();
+        if (n) {
+            mainItr->next();
+            n = mainItr->getValue1() >= c1; //Otherwise, it's the end of the stream
+        }
+        if (n && !noSecColumn) {
+            setup_second_itr(idx);
+            n = secondItr->hasNext();
+            if (n) {
+                secondItr->next();
             }
         }
     }
 
-    if (n && !noSecColumn) {
+    if (n && !noSecColumn && mainItr->getValue1() == c1
+            && secondItr->getValue2() < c2) {
         secondItr->moveto(getKey(), c2);
-        hasNextChecked = true;
-        n = secondItr->hasNext();
-        if (n)
-            secondItr->next();
+        //If there is nothing left, then hasNext continues with the next value
+        hasNextChecked = false;
+        hasNext();
     }
 }
 
diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index eef5b40..83775c2 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -924,10 +924,9 @@ PairItr *Querier::get(const int idx, TermCoordinates &value,
                         true, true), this);
             itr->setKey(key);
             if (v2 != -1) {
-                if (itr->hasNext()) {
-                    itr->setConstraint2(v2);
-                    itr->moveto(v1, v2);
-                }
+                //The constraint is enforced when the second table is opened
+                itr->setConstraint2(v2);
+                itr->hasNext();
             }
             return itr;
         } else {
-- 
2.43.0


From cf942265e9dc9377acbf72f6571d0ae1c240b1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 011/119] fix: graph API must count and filter on the requested
 fields

---
 include/trident/iterators/filtersameitr.h | 15 +++---
 include/trident/kb/querier.h              | 66 +++++++++++++----------
 src/trident/kb/querier.cpp                |  6 +--
 3 files changed, 49 insertions(+), 38 deletions(-)

diff --git a/include/trident/iterators/filtersameitr.h b/include/trident/iterators/filtersameitr.h
index c01f7a8..46cc6c1 100644
--- a/include/trident/iterators/filtersameitr.h
+++ b/include/trident/iterators/filtersameitr.h
@@ -46,6 +46,8 @@ class FilterSameItr: public PairItr {
             this->underlying = underlying;
             this->pos1 = pos1;
             this->pos2 = pos2;
+            initializeConstraints();
+            hn = hnc = false;
         }
 
         int getTypeItr() {
@@ -60,14 +62,6 @@ class FilterSameItr: public PairItr {
             return underlying->getValue2();
         }
 
-        int64_t getKey() {
-            return underlying->getKey();
-        }
-
-        void setKey(int64_t key) {
-            underlying->setKey(key);
-        }
-
         bool hasNext() {
             if (! hnc) {
                 hnc = true;
@@ -100,6 +94,11 @@ class FilterSameItr: public PairItr {
         }
 
         void next() {
+            if (! hnc) {
+                hasNext();
+            }
+            //getKey() is not virtual, thus it returns the key of this object
+            setKey(underlying->getKey());
             hnc = false;
         }
 
diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index 288d300..7d18b6e 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -45,6 +45,7 @@
 
 #include <kognac/factory.h>
 
+#include <algorithm>
 #include <iostream>
 
 class TableStorage;
@@ -136,6 +137,11 @@ class EdgeItr {
             }
         }
 
+        //Get the subject (0), predicate (1), or object (2)
+        uint64_t getField(int i) {
+            return getValue(order[i]);
+        }
+
         void getTriple(uint64_t *v) {
             v[0] = getSubject();
             v[1] = getPredicate();
@@ -158,6 +164,7 @@ class EdgeItr {
 class OneKeyCardItr: public KeyCardItr {
     private:
         EdgeItr *itr;
+        const int field1;
         bool hn;
         bool hnDone;
         bool nextDone;
@@ -165,7 +172,8 @@ class OneKeyCardItr: public KeyCardItr {
         uint64_t nextKey1;
 
     public:
-        OneKeyCardItr(EdgeItr *itr) : itr(itr), hnDone(false), nextDone(false) {
+        //field1 is the field (0=s,1=r,2=d) used for the grouping
+        OneKeyCardItr(EdgeItr *itr, int field1) : itr(itr), field1(field1), hnDone(false), nextDone(false) {
         }
 
         bool hasNext() {
@@ -182,10 +190,10 @@ class OneKeyCardItr: public KeyCardItr {
                 if (hn) {
                     nextDone = false;
                     nextCard = 1;
-                    nextKey1 = itr->getValue(0);
+                    nextKey1 = itr->getField(field1);
                     while (itr->hasNext()) {
                         itr->next();
-                        if (itr->getValue(0) != nextKey1) {
+                        if (itr->getField(field1) != nextKey1) {
                             nextDone = true;
                             break;
                         }
@@ -213,6 +221,7 @@ class OneKeyCardItr: public KeyCardItr {
 class TwoKeyCardItr: public KeyCardItr {
     private:
         EdgeItr *itr;
+        const int field1, field2;
         bool hn;
         bool hnDone;
         bool nextDone;
@@ -221,7 +230,8 @@ class TwoKeyCardItr: public KeyCardItr {
         uint64_t nextKey2;
 
     public:
-        TwoKeyCardItr(EdgeItr *itr) : itr(itr), hnDone(false), nextDone(false) {
+        TwoKeyCardItr(EdgeItr *itr, int field1, int field2) : itr(itr),
+            field1(field1), field2(field2), hnDone(false), nextDone(false) {
         }
 
         bool hasNext() {
@@ -238,11 +248,11 @@ class TwoKeyCardItr: public KeyCardItr {
                 if (hn) {
                     nextDone = false;
                     nextCard = 1;
-                    nextKey1 = itr->getValue(0);
-                    nextKey2 = itr->getValue(1);
+                    nextKey1 = itr->getField(field1);
+                    nextKey2 = itr->getField(field2);
                     while (itr->hasNext()) {
                         itr->next();
-                        if (itr->getValue(0) != nextKey1 || itr->getValue(1) != nextKey2) {
+                        if (itr->getField(field1) != nextKey1 || itr->getField(field2) != nextKey2) {
                             nextDone = true;
                             break;
                         }
@@ -422,7 +432,10 @@ class Querier {
             if (sameVar(s, r, d, p1, p2)) {
                 PairItr *it = getIterator(idx, s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d);
                 FilterSameItr *fi = factory16.get();
-                fi->init(it, p1, p2);
+                //Map the fields to their position in the permutation
+                p1 = getInvOrder(idx)[p1];
+                p2 = getInvOrder(idx)[p2];
+                fi->init(it, std::min(p1, p2), std::max(p1, p2));
                 itr = fi;
             } else {
                 itr = getIterator(idx, s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d);
@@ -704,17 +717,16 @@ class Querier {
             int p1, p2;
             if (sameVar(s, r, d, p1, p2)) {
                 uint64_t cnt = 0;
-                PairItr *it = getIterator(IDX_SPO, s, r, d);
-                FilterSameItr *fi = factory16.get();
-                fi->init(it, p1, p2);
-                while (fi->hasNext()) {
-                    fi->next();
+                //The constants must come first in the permutation
+                EdgeItr *it = getEdgeItr(getIndex(s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d), s, r, d);
+                while (it->hasNext()) {
+                    it->next();
                     cnt++;
                 }
-                releaseItr(fi);
+                delete it;
                 return cnt;
             } else {
-                return getCard(s, r, d);
+                return getCard(s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d);
             }
         }
 
@@ -723,7 +735,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, s);
             }
             EdgeItr *it = d >= 0 ? edg_sdr(s, r, d) : edg_srd(s, r, d);
-            return new OneKeyCardItr(it);
+            return new OneKeyCardItr(it, 0);
         }
 
         DDLEXPORT KeyCardItr *grp_r(const int64_t s, const int64_t r, const int64_t d) {
@@ -731,7 +743,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, r);
             }
             EdgeItr *it = d >= 0 ? edg_rds(s, r, d) : edg_rsd(s, r, d);
-            return new OneKeyCardItr(it);
+            return new OneKeyCardItr(it, 1);
         }
 
         DDLEXPORT KeyCardItr *grp_d(const int64_t s, const int64_t r, const int64_t d) {
@@ -739,7 +751,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, d);
             }
             EdgeItr *it = r >= 0 ? edg_drs(s, r, d) : edg_dsr(s, r, d);
-            return new OneKeyCardItr(it);
+            return new OneKeyCardItr(it, 2);
         }
 
         DDLEXPORT KeyCardItr *grp_sr(const int64_t s, const int64_t r, const int64_t d) {
@@ -747,7 +759,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, s, r);
             }
             EdgeItr *it = edg_srd(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 0, 1);
         }
 
         DDLEXPORT KeyCardItr *grp_sd(const int64_t s, const int64_t r, const int64_t d) {
@@ -755,7 +767,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, s, d);
             }
             EdgeItr *it = edg_sdr(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 0, 2);
         }
 
         DDLEXPORT KeyCardItr *grp_rs(const int64_t s, const int64_t r, const int64_t d) {
@@ -763,7 +775,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, r, s);
             }
             EdgeItr *it = edg_rsd(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 1, 0);
         }
 
         DDLEXPORT KeyCardItr *grp_rd(const int64_t s, const int64_t r, const int64_t d) {
@@ -771,7 +783,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, r, d);
             }
             EdgeItr *it = edg_rds(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 1, 2);
         }
 
         DDLEXPORT KeyCardItr *grp_ds(const int64_t s, const int64_t r, const int64_t d) {
@@ -779,7 +791,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, d, s);
             }
             EdgeItr *it = edg_dsr(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 2, 0);
         }
 
         DDLEXPORT KeyCardItr *grp_dr(const int64_t s, const int64_t r, const int64_t d) {
@@ -787,7 +799,7 @@ class Querier {
                 return new ConstKeyCardItr(this, s, r, d, d, r);
             }
             EdgeItr *it = edg_drs(s, r, d);
-            return new TwoKeyCardItr(it);
+            return new TwoKeyCardItr(it, 2, 1);
         }
 
         DDLEXPORT uint64_t cnt_grp_s(const int64_t s, const int64_t r, const int64_t d) {
@@ -795,7 +807,7 @@ class Querier {
                 ConstKeyCardItr v(this, s, r, d, s);
                 return v.hasNext() ? 1 : 0;
             }
-            return getCard(s, r, d, 0);
+            return getCard(s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d, 0);
         }
 
         DDLEXPORT uint64_t cnt_grp_r(const int64_t s, const int64_t r, const int64_t d) {
@@ -803,7 +815,7 @@ class Querier {
                 ConstKeyCardItr v(this, s, r, d, r);
                 return v.hasNext() ? 1 : 0;
             }
-            return getCard(s, r, d, 1);
+            return getCard(s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d, 1);
         }
 
         DDLEXPORT uint64_t cnt_grp_d(const int64_t s, const int64_t r, const int64_t d) {
@@ -811,7 +823,7 @@ class Querier {
                 ConstKeyCardItr v(this, s, r, d, d);
                 return v.hasNext() ? 1 : 0;
             }
-            return getCard(s, r, d, 2);
+            return getCard(s < 0 ? -1 : s, r < 0 ? -1 : r, d < 0 ? -1 : d, 2);
         }
 
         DDLEXPORT uint64_t cnt_grp_sr(const int64_t s, const int64_t r, const int64_t d) {
diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index 83775c2..6e693ec 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -56,14 +56,14 @@ EmptyItr emptyItr;
 // It cannot happen that for perm = 0, 1, 2: perm+3 exists but perm does not.
 ConstKeyCardItr::ConstKeyCardItr(Querier *q, uint64_t s, uint64_t r, uint64_t d, uint64_t key) {
     currentKey1 = key;
-    currentCard = q->getCard(s, r, d);
+    currentCard = q->countEdges(s, r, d);
     hn = currentCard > 0;
 }
 
 ConstKeyCardItr::ConstKeyCardItr(Querier *q, uint64_t s, uint64_t r, uint64_t d, uint64_t key1, uint64_t key2) {
     currentKey1 = key1;
-    currentKey1 = key2;
-    currentCard = q->getCard(s, r, d);
+    currentKey2 = key2;
+    currentCard = q->countEdges(s, r, d);
     hn = currentCard > 0;
 }
 
-- 
2.43.0


From 0e807362a98ba5bbee5611151b23b97ea1038eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 012/119] fix: term lists and summaries of updates must
 consider all the updates

---
 src/trident/kb/querier.cpp | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index 6e693ec..e2ce6c0 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -558,18 +558,8 @@ bool Querier::exists(const int64_t s, const int64_t p, const int64_t o) {
 
 bool Querier::isEmpty(const int64_t s, const int64_t p, const int64_t o) {
     if (s < 0 && p < 0 && o < 0) {
-        //They are all variables. Return the input size...
-        if (inputSize != 0) {
-            return false;
-        }
-        if (diffIndices.size() > 0) {
-            for (size_t i = 0; i < diffIndices.size(); ++i) {
-                if (diffIndices[i]->getSize() > 0) {
-                    return false;
-                }
-            }
-        }
-        return true;
+        //They are all variables. Consider also the updates
+        return getInputSize() == 0;
     }
 
     int idx = getIndex(s, p, o);
@@ -786,7 +776,7 @@ PairItr *Querier::getTermList(const int perm) {
 
     //Add differential updates
     for (size_t i = 0; i < diffIndices.size(); ++i) {
-        if (diffIndices[i]->getNUniqueKeys(perm) > 0) {
+        if (diffIndices[i]->getSize() > 0) {
             if (diffIndices[i]->getType() == DiffIndex::TypeUpdate::ADDITION_df) {
                 DiffTermItr *itr = factory10.get();
                 diffIndices[i]->getTermListItr(perm, itr);
@@ -801,7 +791,7 @@ PairItr *Querier::getTermList(const int perm) {
                 }
             } else {
                 DiffTermItr *itr = factory10.get();
-                diffIndices[i]->getTermListItr(IDX_SPO, itr);
+                diffIndices[i]->getTermListItr(perm, itr);
                 RmCompositeTermItr *newitr = factory15.get();
                 newitr->init(finalItr, itr);
                 finalItr = newitr;
@@ -846,7 +836,7 @@ PairItr *Querier::summaryDiff(const int perm, DiffIndex::TypeUpdate tp) {
 
     //Add differential updates
     for (size_t i = 0; i < diffIndices.size(); ++i) {
-        if (diffIndices[i]->getNUniqueKeys(perm) > 0) {
+        if (diffIndices[i]->getSize() > 0) {
             LOG(DEBUGL) << "diffIndices " << i;
             if (diffIndices[i]->getType() == tp) {
                 DiffScanItr *itr = factory11.get();
@@ -864,7 +854,7 @@ PairItr *Querier::summaryDiff(const int perm, DiffIndex::TypeUpdate tp) {
                     LOG(DEBUGL) << "CompositeScanItr, hasNext = " << newitr->hasNext();
                     finalItr = newitr;
                 } else {
-                    ((CompositeScanItr*)finalItr)->addChild(itr);
+                    ((CompositeScanItr*)finalItr)->addChild(it);
                 }
             } else {
                 if (finalItr == NULL) {
@@ -1114,7 +1104,12 @@ PairItr *Querier::getIterator(const int idx, const int64_t s, const int64_t p, c
                     } else {
                         releaseItr(out);
                     }
-                    assert(!iterators.empty());
+                    if (iterators.empty()) {
+                        //Nothing to remove from
+                        releaseItr(diffItr);
+                        out = &emptyItr;
+                        continue;
+                    }
                     //Merge all of them in a rmitr...
                     PairItr *mainitr;
                     if (iterators.size() > 1) {
-- 
2.43.0


From 8f631631e537c17e455970bd8e6ae309f5976979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 013/119] fix: cardinalities must take the updates into account

---
 src/trident/kb/querier.cpp | 54 +++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index e2ce6c0..a5e987f 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -131,6 +131,22 @@ char Querier::getStrategy(const int idx, const int64_t v) {
   return currentValue.getNElements(idx);
   }*/
 
+//Counts the different values on the first column
+static uint64_t countFirstColumn(PairItr *itr) {
+    itr->ignoreSecondColumn();
+    const int type = itr->getTypeItr();
+    if (type != COMPOSITE_ITR && type != RM_ITR) {
+        return itr->getCardinality();
+    }
+    //The same value can occur both in the KB and in the updates
+    uint64_t card = 0;
+    while (itr->hasNext()) {
+        itr->next();
+        card++;
+    }
+    return card;
+}
+
 uint64_t Querier::getCardOnIndex(const int idx, const int64_t first, const int64_t second,
         const int64_t third, bool skipLast) {
     //Check if first element is variable
@@ -160,8 +176,7 @@ uint64_t Querier::getCardOnIndex(const int idx, const int64_t first, const int64
         if (third < 0) countUnbound++;
         if (countUnbound >= 2) {
             if (skipLast) {
-                itr->ignoreSecondColumn();
-                uint64_t card = itr->getCardinality();
+                uint64_t card = countFirstColumn(itr);
                 releaseItr(itr);
                 return card;
             } else {
@@ -259,8 +274,7 @@ int64_t Querier::getCard(const int64_t s, const int64_t p, const int64_t o, uint
                 itr = getIterator(idx2, s, p, o);
             }
 
-            itr->ignoreSecondColumn();
-            int64_t nElements = itr->getCardinality();
+            int64_t nElements = countFirstColumn(itr);
             releaseItr(itr);
             return nElements;
         } else {
@@ -467,22 +481,6 @@ int64_t Querier::estCard(const int64_t s, const int64_t p, const int64_t o) {
     throw 10;
 }
 
-template <typename R, typename... Args>
-std::function<R (Args...)> memo(R (*fn)(Args...)) {
-    static std::map<std::tuple<Args...>, R> table;
-    return [fn](Args... args) mutable -> R {
-        auto argt = std::make_tuple(args...);
-        auto memoized = table.find(argt);
-        if(memoized == table.end()) {
-            auto result = fn(args...);
-            table[argt] = result;
-            return result;
-        } else {
-            return memoized->second;
-        }
-    };
-}
-
 int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p, const int64_t o) {
     if (s < 0 && p < 0 && o < 0) {
         //They are all variables. Return the input size...
@@ -508,11 +506,19 @@ int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p,
             q->lastKeyQueried = key;
         }
         int64_t nElements = 0;
-        if (q->lastKeyFound && q->currentValue.exists(idx)) {
-            nElements += q->currentValue.getNElements(idx);
+        if (q->lastKeyFound) {
+            if (q->currentValue.exists(idx)) {
+                nElements += q->currentValue.getNElements(idx);
+            } else if (idx >= 3 && q->currentValue.exists(idx - 3)) {
+                nElements += q->currentValue.getNElements(idx - 3);
+            }
         }
         for (size_t i = 0; i < q->diffIndices.size(); ++i) {
-            nElements += q->diffIndices[i]->getCard(idx, key);
+            if (q->diffIndices[i]->getType() == DiffIndex::TypeUpdate::ADDITION_df) {
+                nElements += q->diffIndices[i]->getCard(idx, key);
+            } else {
+                nElements -= q->diffIndices[i]->getCard(idx, key);
+            }
         }
         return nElements;
     }
@@ -536,7 +542,7 @@ int64_t Querier::getCard_internal(Querier *q, const int64_t s, const int64_t p,
 }
 
 int64_t Querier::getCard(const int64_t s, const int64_t p, const int64_t o) {
-    return memo(getCard_internal)(this, s, p, o);
+    return getCard_internal(this, s, p, o);
 }
 
 
-- 
2.43.0


From ff8abab888a9bab0b9cecdb1e793958a3842bb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 014/119] fix: an unknown term in a removal must not be taken
 for the previous one

---
 src/trident/kb/updater.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/trident/kb/updater.cpp b/src/trident/kb/updater.cpp
index 4b14e1a..72f2f85 100644
--- a/src/trident/kb/updater.cpp
+++ b/src/trident/kb/updater.cpp
@@ -198,7 +198,6 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                         nextID++;
                     } else {
                         itr->nums = UINT64_MAX;
-                        continue;
                     }
                 }
                 previd = itr->nums;
@@ -240,7 +239,6 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                         }
                     } else {
                         itr->nump = UINT64_MAX;
-                        continue;
                     }
                 }
                 previd = itr->nump;
@@ -282,7 +280,6 @@ void Updater::compressUpdate(DiffIndex::TypeUpdate type,
                         }
                     } else {
                         itr->numo = UINT64_MAX;
-                        continue;
                     }
                 }
                 previd = itr->numo;
-- 
2.43.0


From 029fd34e80044af053e5ed137d3dc86a437728b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 015/119] fix: terms added with updates can contain whitespace

---
 src/trident/kb/dictmgmt.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/trident/kb/dictmgmt.cpp b/src/trident/kb/dictmgmt.cpp
index ad3192b..3513af9 100644
--- a/src/trident/kb/dictmgmt.cpp
+++ b/src/trident/kb/dictmgmt.cpp
@@ -59,11 +59,12 @@ DictMgmt::DictMgmt(Dict mainDict, string dirToStoreGUD, bool hash, string e2r,
             ifstream ifs;
             ifs.open(dirToStoreGUD + DIR_SEP + "gud");
             ifs >> gud_largestID;
-            while (!ifs.eof()) {
-                uint64_t id;
+            uint64_t id;
+            while (ifs >> id) {
+                //The text follows a tab, and can contain any whitespace
                 string term;
-                ifs >> id;
-                ifs >> term;
+                ifs.get();
+                getline(ifs, term);
                 if (term.size() > 0) {
                     gud_idtext.insert(make_pair(id, term));
                     gud_textid.insert(make_pair(term, id));
-- 
2.43.0


From 428b68bfc12ac0d55364aa1613f79a8b8105a5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 016/119] fix: merging updates must keep removals after
 additions, and all the terms

---
 src/trident/kb/kb.cpp | 121 +++++++++++++++++++++++-------------------
 1 file changed, 65 insertions(+), 56 deletions(-)

diff --git a/src/trident/kb/kb.cpp b/src/trident/kb/kb.cpp
index 136ddbb..738c948 100644
--- a/src/trident/kb/kb.cpp
+++ b/src/trident/kb/kb.cpp
@@ -608,7 +608,11 @@ void KB::addDiffIndex(string inputdir, const char **globalbuffers, Querier *q) {
         type = DiffIndex::TypeUpdate::DELETE_df;
     }
 
-    if (Utils::exists(inputdir + DIR_SEP + "type1")) {
+    if (!Utils::exists(inputdir + DIR_SEP + "type1")
+            && !Utils::exists(inputdir + DIR_SEP + "s")) {
+        //This update contains only a dictionary
+        q = NULL;
+    } else if (Utils::exists(inputdir + DIR_SEP + "type1")) {
         diffIndices.push_back(std::unique_ptr<DiffIndex>(
                     new DiffIndex1(inputdir, type)));
     } else {
@@ -666,62 +670,42 @@ void KB::createSingleUpdate(DiffIndex::TypeUpdate type, PairItr *itr, std::strin
         return;
     }
 
-    // Filter: the only deletes that should be left are in the db.
-    if (type == DiffIndex::TypeUpdate::DELETE_df) {
-        std::vector<uint64_t> del_s;
-        std::vector<uint64_t> del_p;
-        std::vector<uint64_t> del_o;
-
-        PairItr *kbitr = q->getIterator(IDX_SPO, -1, -1, -1);
-        if (kbitr->hasNext()) {
-            kbitr->next();
-        } else {
-            q->releaseItr(kbitr);
-            kbitr = NULL;
-        }
-
-        size_t i = 0;
-        while (i != all_s.size()) {
-            //move kbitr to the good position
-            int cmpResult;
-            while (kbitr && (cmpResult = cmp(kbitr, all_s[i], all_p[i], all_o[i])) < 0) {
-                if (kbitr->hasNext()) {
-                    kbitr->next();
-                } else {
-                    q->releaseItr(kbitr);
-                    kbitr = NULL;
-                }
-            }
-            if (kbitr) {
-                //do the check
-                if (cmpResult == 0) {
-                    del_s.push_back(all_s[i]);
-                    del_p.push_back(all_p[i]);
-                    del_o.push_back(all_o[i]);
-                    //Must move also the original iterator
-                    if (kbitr->hasNext()) {
-                        kbitr->next();
-                    } else {
-                        break;
-                    }
-                }
-                i++;
+    // Filter: the only deletes that should be left are in the db, while the
+    // only additions that should be left are not in the db.
+    const bool mustExist = type == DiffIndex::TypeUpdate::DELETE_df;
+    std::vector<uint64_t> sel_s;
+    std::vector<uint64_t> sel_p;
+    std::vector<uint64_t> sel_o;
+
+    PairItr *kbitr = q->getIterator(IDX_SPO, -1, -1, -1);
+    bool kbvalid = kbitr->hasNext();
+    if (kbvalid) {
+        kbitr->next();
+    }
+    for (size_t i = 0; i < all_s.size(); ++i) {
+        //move kbitr to the good position
+        int cmpResult = 1;
+        while (kbvalid && (cmpResult = cmp(kbitr, all_s[i], all_p[i], all_o[i])) < 0) {
+            if (kbitr->hasNext()) {
+                kbitr->next();
             } else {
-                break;
+                kbvalid = false;
             }
         }
-        if (kbitr)
-            q->releaseItr(kbitr);
-
-        if (del_s.size() == 0) {
-            return;
+        const bool exists = kbvalid && cmpResult == 0;
+        if (exists == mustExist) {
+            sel_s.push_back(all_s[i]);
+            sel_p.push_back(all_p[i]);
+            sel_o.push_back(all_o[i]);
         }
-        Utils::create_directories(dir);
-        DiffIndex3::createDiffIndex(type, dir, diffDir, del_s, del_p, del_o, true, q, true);
-    } else {
-        Utils::create_directories(dir);
-        DiffIndex3::createDiffIndex(type, dir, diffDir, all_s, all_p, all_o, true, q, true);
     }
+    q->releaseItr(kbitr);
+
+    if (sel_s.size() == 0) {
+        return;
+    }
+    Utils::create_directories(dir);
+    DiffIndex3::createDiffIndex(type, dir, diffDir, sel_s, sel_p, sel_o, true, q, true);
 
     //Write the type of file
     string flagup;
@@ -780,6 +764,12 @@ void KB::mergeUpdates() {
         return;
     }
 
+    // Start from scratch, in case a previous merge was interrupted
+    if (Utils::exists(diffDir)) {
+        Utils::remove_all(diffDir);
+    }
+    Utils::create_directories(diffDir);
+
     Querier *q = query();
     // Create the single updates with respect to a querier that does not have the diffIndices.
     // Create querier with empty diffs
@@ -792,13 +782,17 @@ void KB::mergeUpdates() {
     if (addCount >= 1) {
         PairItr *addItr = q->summaryAddDiff();
 
-        createSingleUpdate(DiffIndex::TypeUpdate::ADDITION_df, addItr, diffDir + DIR_SEP + "0", diffDir, q1);
-        q->releaseItr(addItr);
+        if (addItr != NULL) {
+            createSingleUpdate(DiffIndex::TypeUpdate::ADDITION_df, addItr, diffDir + DIR_SEP + "0", diffDir, q1);
+            q->releaseItr(addItr);
+        }
     }
     if (rmCount >= 1) {
         PairItr *rmItr = q->summaryRmDiff();
-        createSingleUpdate(DiffIndex::TypeUpdate::DELETE_df, rmItr, diffDir + DIR_SEP + (addCount != 0 ? "1" : "0"), diffDir, q1);
-        q->releaseItr(rmItr);
+        if (rmItr != NULL) {
+            createSingleUpdate(DiffIndex::TypeUpdate::DELETE_df, rmItr, diffDir + DIR_SEP + "1", diffDir, q1);
+            q->releaseItr(rmItr);
+        }
     }
 
     delete q1;
@@ -806,6 +800,21 @@ void KB::mergeUpdates() {
 
     if (dictUpdates.size() != 0) {
         createNewDict(diffDir + DIR_SEP + "0");
+        ofstream ofs(diffDir + DIR_SEP + "0" + DIR_SEP + "ADD");
+    }
+    // Keep also the terms that are not in a dedicated dictionary
+    const std::string gud = oldDiffDir + DIR_SEP + std::string("gud");
+    if (Utils::exists(gud)) {
+        std::ifstream src(gud, std::ios_base::binary);
+        std::ofstream dst(diffDir + DIR_SEP + std::string("gud"), std::ios_base::binary);
+        if (src.peek() != std::char_traits<char>::eof()) {
+            dst << src.rdbuf();
+        }
+        dst.close();
+        if (!dst) {
+            LOG(ERRORL) << "Error copying " << gud;
+            throw 10;
+        }
     }
 
     std::string old = oldDiffDir + std::string(".old");
-- 
2.43.0


From 31a80744c904fc8b14f1054334ed3c117a0e7711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 017/119] fix: an interrupted update or merge must leave the
 previous version readable

---
 include/trident/kb/dictmgmt.h |  4 ++++
 include/trident/kb/kb.h       |  3 +++
 src/trident/kb/dictmgmt.cpp   | 43 +++++++++++++++++++++++------------
 src/trident/kb/kb.cpp         | 18 ++++++++++++++-
 src/trident/kb/updater.cpp    | 30 ++++++++++++++++--------
 5 files changed, 73 insertions(+), 25 deletions(-)

diff --git a/include/trident/kb/dictmgmt.h b/include/trident/kb/dictmgmt.h
index fe8beea..aa99848 100644
--- a/include/trident/kb/dictmgmt.h
+++ b/include/trident/kb/dictmgmt.h
@@ -147,6 +147,10 @@ class DictMgmt {
 
         void putInUpdateDict(const uint64_t id, const char *term, const size_t len);
 
+        //Store on disk the terms added with putInUpdateDict. Returns false
+        //if they could not be stored
+        bool storeUpdateDict();
+
         uint64_t getGUDSize() {
             return gud_idtext.size();
         }
diff --git a/include/trident/kb/kb.h b/include/trident/kb/kb.h
index 344ef36..63393d4 100644
--- a/include/trident/kb/kb.h
+++ b/include/trident/kb/kb.h
@@ -200,6 +200,9 @@ class KB {
 
         std::vector<const char*> openAllFiles(int perm);
 
+        //Returns true if the update stored in "dir" was completely written
+        static bool isUpdateComplete(string dir);
+
         void addDiffIndex(string inputdir, const char **globalbuffers, Querier *q);
 
         Partial *getPartial(int idx) {
diff --git a/src/trident/kb/dictmgmt.cpp b/src/trident/kb/dictmgmt.cpp
index 3513af9..7860089 100644
--- a/src/trident/kb/dictmgmt.cpp
+++ b/src/trident/kb/dictmgmt.cpp
@@ -30,6 +30,7 @@
 
 #include <lz4.h>
 
+#include <cstdio>
 #include <iostream>
 #include <fstream>
 
@@ -323,20 +324,34 @@ void DictMgmt::addUpdates(std::vector<Dict> &updates) {
     }
 }
 
+bool DictMgmt::storeUpdateDict() {
+    if (!gud_modified || gud_idtext.empty()) {
+        return true;
+    }
+    //Write down the new version. The old one is replaced only once the new one
+    //is complete
+    std::chrono::system_clock::time_point start = std::chrono::system_clock::now();
+    const string gudFile = gudLocation + DIR_SEP + "gud";
+    const string tmpFile = gudFile + ".tmp";
+    ofstream os;
+    os.open(tmpFile, ios_base::trunc);
+    os << gud_largestID << endl;
+    for (auto it = gud_idtext.begin(); it != gud_idtext.end(); ++it) {
+        os << it->first << '\t' << it->second << endl;
+    }
+    os.close();
+    if (!os || std::rename(tmpFile.c_str(), gudFile.c_str()) != 0) {
+        LOG(ERRORL) << "Failed writing " << gudFile;
+        return false;
+    }
+    gud_modified = false;
+    std::chrono::duration<double> sec = std::chrono::system_clock::now()
+        - start;
+    LOG(DEBUGL) << "Time writing GUD " << sec.count() * 1000;
+    return true;
+}
+
 DictMgmt::~DictMgmt() {
     delete[] insertedNewTerms;
-    if (gud_modified && !gud_idtext.empty()) {
-        //Write down the new version
-        std::chrono::system_clock::time_point start = std::chrono::system_clock::now();
-        ofstream os;
-        os.open(gudLocation + DIR_SEP + "gud", ios_base::trunc);
-        os << gud_largestID << endl;
-        for (auto it = gud_idtext.begin(); it != gud_idtext.end(); ++it) {
-            os << it->first << '\t' << it->second << endl;
-        }
-        os.close();
-        std::chrono::duration<double> sec = std::chrono::system_clock::now()
-            - start;
-        LOG(DEBUGL) << "Time writing GUD " << sec.count() * 1000;
-    }
+    storeUpdateDict();
 }
diff --git a/src/trident/kb/kb.cpp b/src/trident/kb/kb.cpp
index 738c948..3e0a4bc 100644
--- a/src/trident/kb/kb.cpp
+++ b/src/trident/kb/kb.cpp
@@ -62,6 +62,17 @@ KB::KB(const char *path,
             throw 10;
         }
 
+        //If a merge of the updates was interrupted while it was replacing the
+        //old updates, then restore them
+        const string diffDir = string(path) + DIR_SEP + "_diff";
+        if (!Utils::exists(diffDir) && Utils::exists(diffDir + ".old")
+                && Utils::exists(string(path) + DIR_SEP + "_newdiff")) {
+            if (std::rename((diffDir + ".old").c_str(), diffDir.c_str()) != 0) {
+                LOG(ERRORL) << "Error renaming " << diffDir << ".old";
+                throw 10;
+            }
+        }
+
         std::chrono::system_clock::time_point start = std::chrono::system_clock::now();
 
         //Get statistics and configuration
@@ -278,7 +289,7 @@ KB::KB(const char *path,
                 if (!fn.empty() && std::find_if(fn.begin(),  fn.end(),
                             [](char c) {
                             return !isdigit(c);
-                            }) == fn.end()) {
+                            }) == fn.end() && isUpdateComplete(f)) {
                     childrenupdates.push_back(f);
                 }
             }
@@ -600,6 +611,11 @@ KB::~KB() {
     }
 }
 
+bool KB::isUpdateComplete(string dir) {
+    //The flag is the last thing that is written
+    return Utils::exists(dir + DIR_SEP + "ADD") || Utils::exists(dir + DIR_SEP + "DEL");
+}
+
 void KB::addDiffIndex(string inputdir, const char **globalbuffers, Querier *q) {
     DiffIndex::TypeUpdate type;
     if (Utils::exists(inputdir + DIR_SEP + "ADD")) {
diff --git a/src/trident/kb/updater.cpp b/src/trident/kb/updater.cpp
index 72f2f85..54d8937 100644
--- a/src/trident/kb/updater.cpp
+++ b/src/trident/kb/updater.cpp
@@ -30,6 +30,7 @@
 
 #include <kognac/filereader.h>
 
+#include <algorithm>
 #include <string>
 
 void Updater::parseUpdate(std::string update,
@@ -346,6 +347,10 @@ void Updater::creatediffupdate(DiffIndex::TypeUpdate type, std::string kbdir,
         if (type == DiffIndex::TypeUpdate::ADDITION_df) {
             //write also an additional dictionary (if any)
             writeDict(kb.getDictMgmt(), locationupdate, tmpdict);
+            //The terms must be on disk before the update becomes visible
+            if (!kb.getDictMgmt()->storeUpdateDict()) {
+                throw 10;
+            }
             flagup = locationupdate + "/ADD";
         } else {
             flagup = locationupdate + "/DEL";
@@ -367,18 +372,23 @@ void Updater::creatediffupdate(DiffIndex::TypeUpdate type, std::string kbdir,
 
 std::string Updater::getPathForUpdate(std::string kbdir) {
     std::string diffdir = kbdir + "/_diff";
-    if (!Utils::exists(diffdir)) {
-        return diffdir + "/0";
-    } else {
-        //Read all files in the directory that starts with a number
-        int idx = 0;
-        std::string updir = diffdir + "/" + to_string(idx);
-        while (Utils::exists(updir)) {
-            idx++;
-            updir = diffdir + "/" + to_string(idx);
+    //The new update must come after all the existing ones
+    int64_t idx = 0;
+    if (Utils::exists(diffdir)) {
+        for (auto &dir : Utils::getSubdirs(diffdir)) {
+            std::string name = Utils::filename(dir);
+            if (!name.empty() && std::all_of(name.begin(), name.end(), ::isdigit)
+                    && KB::isUpdateComplete(dir)) {
+                idx = std::max(idx, (int64_t) std::stoll(name) + 1);
+            }
         }
-        return updir;
     }
+    std::string updir = diffdir + "/" + to_string(idx);
+    if (Utils::exists(updir)) {
+        //Remains of an update that was interrupted
+        Utils::remove_all(updir);
+    }
+    return updir;
 }
 
 void Updater::match(DiffIndex::TypeUpdate type,
-- 
2.43.0


From 0d82c08c4273885e6a65642f7e66020b6f3e6e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:02 +0000
Subject: [PATCH 018/119] fix: a load that was cut short must not be served as
 a complete KB

---
 include/trident/kb/consts.h |  3 +++
 include/trident/kb/kb.h     |  3 +++
 src/trident/kb/kb.cpp       | 13 +++++++++++++
 src/trident/kb/loader.cpp   | 17 +++++++++++++++++
 4 files changed, 36 insertions(+)

diff --git a/include/trident/kb/consts.h b/include/trident/kb/consts.h
index c1eb790..5d1ffab 100644
--- a/include/trident/kb/consts.h
+++ b/include/trident/kb/consts.h
@@ -94,6 +94,9 @@
 
 //Generic options
 #define N_PARTITIONS 6
+
+//File that exists in the directory of a KB while the KB is being loaded
+#define LOADING_MARKER "_loading"
 #define THRESHOLD_KEEP_MEMORY 1000*1024
 
 #define MAX_N_FILES 4096
diff --git a/include/trident/kb/kb.h b/include/trident/kb/kb.h
index 63393d4..0094f4d 100644
--- a/include/trident/kb/kb.h
+++ b/include/trident/kb/kb.h
@@ -203,6 +203,9 @@ class KB {
         //Returns true if the update stored in "dir" was completely written
         static bool isUpdateComplete(string dir);
 
+        //True if the statistics, the last thing written in a KB, are all there
+        static bool hasCompleteStats(string path);
+
         void addDiffIndex(string inputdir, const char **globalbuffers, Querier *q);
 
         Partial *getPartial(int idx) {
diff --git a/src/trident/kb/kb.cpp b/src/trident/kb/kb.cpp
index 3e0a4bc..ff917d5 100644
--- a/src/trident/kb/kb.cpp
+++ b/src/trident/kb/kb.cpp
@@ -62,6 +62,12 @@ KB::KB(const char *path,
             throw 10;
         }
 
+        if (readOnly && (Utils::exists(string(path) + DIR_SEP + LOADING_MARKER)
+                    || !hasCompleteStats(path))) {
+            LOG(ERRORL) << "The loading of the KB was not completed";
+            throw 10;
+        }
+
         //If a merge of the updates was interrupted while it was replacing the
         //old updates, then restore them
         const string diffDir = string(path) + DIR_SEP + "_diff";
@@ -611,6 +617,13 @@ KB::~KB() {
     }
 }
 
+bool KB::hasCompleteStats(string path) {
+    //Size of what is written in the destructor
+    const int64_t sizeStats = 8 * 4 + 4 + 3 + N_PARTITIONS * 16 + 4 + 1;
+    string fileConf = path + DIR_SEP + string("kbstats");
+    return Utils::exists(fileConf) && Utils::fileSize(fileConf) >= sizeStats;
+}
+
 bool KB::isUpdateComplete(string dir) {
     //The flag is the last thing that is written
     return Utils::exists(dir + DIR_SEP + "ADD") || Utils::exists(dir + DIR_SEP + "DEL");
diff --git a/src/trident/kb/loader.cpp b/src/trident/kb/loader.cpp
index d032000..6cfc4f8 100644
--- a/src/trident/kb/loader.cpp
+++ b/src/trident/kb/loader.cpp
@@ -1445,6 +1445,15 @@ void Loader::load(ParamsLoad p) {
         throw 10;
     }
     Utils::create_directories(p.kbDir);
+    //The marker is removed only once everything is stored: if the loading is
+    //interrupted, then the directory does not contain a valid KB
+    const string marker = p.kbDir + DIR_SEP + LOADING_MARKER;
+    std::ofstream markerFile(marker);
+    markerFile.close();
+    if (!markerFile || !Utils::exists(marker)) {
+        LOG(ERRORL) << "Error creating " << marker;
+        throw 10;
+    }
 
     if (p.timeoutStats != -1) {
         //Activate it only for Linux systems
@@ -1669,6 +1678,14 @@ void Loader::load(ParamsLoad p) {
     if (monitor.joinable()) {
         monitor.join();
     }
+
+    //Close the KB, so that everything is stored, and declare it complete
+    kb.reset();
+    if (!KB::hasCompleteStats(p.kbDir)) {
+        LOG(ERRORL) << "Error writing the statistics of the KB";
+        throw 10;
+    }
+    Utils::remove(marker);
     std::chrono::duration<double> sec = std::chrono::system_clock::now() - start;
     LOG(INFOL) << "Loading is finished: Time (sec) " << sec.count();
 }
-- 
2.43.0


From 66b1e15c2db54534c528c6f2860e7509a484a982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:35 +0000
Subject: [PATCH 019/119] fix: failed writes during a load, an update or a
 merge must be reported

---
 include/trident/tree/flatroot.h            |  4 ++++
 include/trident/utils/tridentutils.h       | 10 ++++++++++
 src/trident/binarytables/tableshandler.cpp |  3 ++-
 src/trident/kb/diffindex1.cpp              |  8 +++++---
 src/trident/kb/diffindex3.cpp              | 11 ++++++-----
 src/trident/kb/kb.cpp                      |  9 ++++++---
 src/trident/kb/updater.cpp                 |  6 +++---
 src/trident/tree/nodemanager.cpp           | 11 ++++++++---
 src/trident/tree/root.cpp                  |  6 ++++--
 src/trident/tree/stringbuffer.cpp          | 14 ++++++++++++--
 10 files changed, 60 insertions(+), 22 deletions(-)

diff --git a/include/trident/tree/flatroot.h b/include/trident/tree/flatroot.h
index 5ce6274..f17bdfd 100644
--- a/include/trident/tree/flatroot.h
+++ b/include/trident/tree/flatroot.h
@@ -68,6 +68,10 @@ class FlatRoot : public Root {
                     ofs.flush();
                     ofs.close();
 		    closeDone = true;
+                    if (!ofs) {
+                        LOG(ERRORL) << "Error writing the flat tree";
+                        throw 10;
+                    }
 		}
 
                 ~FlatTreeWriter() {
diff --git a/include/trident/utils/tridentutils.h b/include/trident/utils/tridentutils.h
index 74202a6..3116920 100644
--- a/include/trident/utils/tridentutils.h
+++ b/include/trident/utils/tridentutils.h
@@ -28,6 +28,7 @@
 #include <vector>
 #include <string>
 #include <sstream>
+#include <fstream>
 #include <thread>
 #include <condition_variable>
 
@@ -52,6 +53,15 @@ class TridentUtils {
         static void loadPairFromFile(std::string inputfile,
                 std::vector<std::pair<int64_t,int64_t>> &values, char sep);
 
+        //Closes the stream, and throws if something could not be written
+        static void closeOrThrow(std::ofstream &out, const std::string &file) {
+            out.close();
+            if (!out) {
+                LOG(ERRORL) << "Error writing " << file;
+                throw 10;
+            }
+        }
+
         static uint64_t spaceLeft(std::string location);
 
         static void monitorPerformance(int seconds,
diff --git a/src/trident/binarytables/tableshandler.cpp b/src/trident/binarytables/tableshandler.cpp
index bd3b3c7..1c13fdb 100644
--- a/src/trident/binarytables/tableshandler.cpp
+++ b/src/trident/binarytables/tableshandler.cpp
@@ -21,6 +21,7 @@
 
 
 #include <trident/binarytables/tableshandler.h>
+#include <trident/utils/tridentutils.h>
 
 #include <kognac/utils.h>
 
@@ -258,7 +259,7 @@ void TableStorage::storeFileIndex(const std::vector<WrittenMarks> &input,
         supportArray[10] = m.strat;
         oFile.write(supportArray, 11);
     }
-    oFile.close();
+    TridentUtils::closeOrThrow(oFile, pathFile);
 }
 
 void TableStorage::stopInsert() {
diff --git a/src/trident/kb/diffindex1.cpp b/src/trident/kb/diffindex1.cpp
index 3f698ca..f510bbf 100644
--- a/src/trident/kb/diffindex1.cpp
+++ b/src/trident/kb/diffindex1.cpp
@@ -24,6 +24,7 @@
 #include <trident/kb/querier.h>
 #include <trident/iterators/diff1itr.h>
 #include <trident/iterators/emptyitr.h>
+#include <trident/utils/tridentutils.h>
 
 #include <kognac/lz4io.h>
 
@@ -391,7 +392,7 @@ void DiffIndex1::createDiffIndex(string outputdir,
     ofstream f;
     f.open(outputdir + "/type1");
     f.put(0);
-    f.close();
+    TridentUtils::closeOrThrow(f, outputdir + "/type1");
 
     if (dumpRawFormat) {
         Utils::create_directories(outputdir);
@@ -419,7 +420,7 @@ void DiffIndex1::createDiffIndex(string outputdir,
     f.open(outputdir + "/values");
     f.seekp(values.size() * nbytes);
     f.put(0);
-    f.close();
+    TridentUtils::closeOrThrow(f, outputdir + "/values");
 
     //Write down the values
     {
@@ -622,7 +623,7 @@ void DiffIndex1::createDiffIndex(string outputdir,
         Utils::encode_long(buffer, nuniquefirstterms[i]);
         f.write(buffer, 8);
     }
-    f.close();
+    TridentUtils::closeOrThrow(f, outputdir + "/stats");
     std::chrono::duration<double> sec = std::chrono::system_clock::now()
         - start;
     LOG(INFOL) << "Runtime creating indices one column = " << sec.count() * 1000;
@@ -658,6 +659,7 @@ int64_t DiffIndex1::outerJoin(PairItr *itr, std::vector<uint64_t> &values, strin
             f << (uint8_t)1;
         }
     }
+    TridentUtils::closeOrThrow(f, fout);
     std::chrono::duration<double> sec = std::chrono::system_clock::now()
         - start;
     LOG(INFOL) << "Runtime checking first pairs = " << sec.count() * 1000;
diff --git a/src/trident/kb/diffindex3.cpp b/src/trident/kb/diffindex3.cpp
index 078118b..7ae2158 100644
--- a/src/trident/kb/diffindex3.cpp
+++ b/src/trident/kb/diffindex3.cpp
@@ -28,6 +28,7 @@
 #include <trident/kb/memoryopt.h>
 #include <trident/kb/querier.h>
 #include <trident/binarytables/storagestrat.h>
+#include <trident/utils/tridentutils.h>
 
 #include <kognac/lz4io.h>
 
@@ -329,7 +330,7 @@ void _sort(std::vector <uint32_t> &idx1,
     f.open(file);
     f.seekp(sizetable);
     f.put(0);
-    f.close();
+    TridentUtils::closeOrThrow(f, file);
     MemoryMappedFile mf(file, false);
     char *currentbuffer = mf.getData();
 
@@ -713,7 +714,7 @@ void DiffIndex3::createDiffIndex(DiffIndex::TypeUpdate update,
     f.write(buffer, 8);
     Utils::encode_long(buffer, ufs->getNewKeys());
     f.write(buffer, 8);
-    f.close();
+    TridentUtils::closeOrThrow(f, outputdir + "/s/stats");
     //Write some general statistics for the P* indices
     f.open(outputdir + "/p/stats");
     Utils::encode_long(buffer, validtriples);
@@ -730,7 +731,7 @@ void DiffIndex3::createDiffIndex(DiffIndex::TypeUpdate update,
     f.write(buffer, 8);
     Utils::encode_long(buffer, ufp->getNewKeys());
     f.write(buffer, 8);
-    f.close();
+    TridentUtils::closeOrThrow(f, outputdir + "/p/stats");
     //Write some general statistics for the O* indices
     f.open(outputdir + "/o/stats");
     Utils::encode_long(buffer, validtriples);
@@ -747,7 +748,7 @@ void DiffIndex3::createDiffIndex(DiffIndex::TypeUpdate update,
     f.write(buffer, 8);
     Utils::encode_long(buffer, ufo->getNewKeys());
     f.write(buffer, 8);
-    f.close();
+    TridentUtils::closeOrThrow(f, outputdir + "/o/stats");
 
 }
 
@@ -1567,7 +1568,7 @@ RWMappedFile::RWMappedFile(std::string file, size_t initialsize) : file(file) {
         f.open(file);
         f.seekp(currentposition + initialsize);
         f.put(0);
-        f.close();
+        TridentUtils::closeOrThrow(f, file);
     } else {
         currentposition = Utils::fileSize(file);
         Utils::resizeFile(file, currentposition + spaceleft);
diff --git a/src/trident/kb/kb.cpp b/src/trident/kb/kb.cpp
index ff917d5..7d3653d 100644
--- a/src/trident/kb/kb.cpp
+++ b/src/trident/kb/kb.cpp
@@ -31,6 +31,7 @@
 #include <trident/tree/flatroot.h>
 #include <trident/tree/stringbuffer.h>
 #include <trident/binarytables/tableshandler.h>
+#include <trident/utils/tridentutils.h>
 
 #include <string>
 #include <iostream>
@@ -744,7 +745,7 @@ void KB::createSingleUpdate(DiffIndex::TypeUpdate type, PairItr *itr, std::strin
         flagup = dir + DIR_SEP +  std::string("DEL");
     }
     ofstream ofs(flagup);
-    ofs.close();
+    TridentUtils::closeOrThrow(ofs, flagup);
 }
 
 int KB::cmp(PairItr *itr, uint64_t s, uint64_t p, uint64_t o) {
@@ -829,7 +830,9 @@ void KB::mergeUpdates() {
 
     if (dictUpdates.size() != 0) {
         createNewDict(diffDir + DIR_SEP + "0");
-        ofstream ofs(diffDir + DIR_SEP + "0" + DIR_SEP + "ADD");
+        const string flagup = diffDir + DIR_SEP + "0" + DIR_SEP + "ADD";
+        ofstream ofs(flagup);
+        TridentUtils::closeOrThrow(ofs, flagup);
     }
     // Keep also the terms that are not in a dedicated dictionary
     const std::string gud = oldDiffDir + DIR_SEP + std::string("gud");
@@ -921,5 +924,5 @@ void KB::createNewDict(std::string dir) {
     ofs.write(data, 8);
     Utils::encode_long(data, maxid + 1);
     ofs.write(data, 8);
-    ofs.close();
+    TridentUtils::closeOrThrow(ofs, dictdir + "/stats");
 }
diff --git a/src/trident/kb/updater.cpp b/src/trident/kb/updater.cpp
index 54d8937..052a3bc 100644
--- a/src/trident/kb/updater.cpp
+++ b/src/trident/kb/updater.cpp
@@ -27,6 +27,7 @@
 #include <trident/kb/dictmgmt.h>
 #include <trident/tree/stringbuffer.h>
 #include <trident/tree/root.h>
+#include <trident/utils/tridentutils.h>
 
 #include <kognac/filereader.h>
 
@@ -143,7 +144,7 @@ void Updater::writeDict(DictMgmt *dictmgmt,
     ofs.write(data, 8);
     Utils::encode_long(data, maxid + 1);
     ofs.write(data, 8);
-    ofs.close();
+    TridentUtils::closeOrThrow(ofs, dictdir + "/stats");
 }
 
 void Updater::compressUpdate(DiffIndex::TypeUpdate type,
@@ -356,8 +357,7 @@ void Updater::creatediffupdate(DiffIndex::TypeUpdate type, std::string kbdir,
             flagup = locationupdate + "/DEL";
         }
         ofstream ofs(flagup);
-        ofs.close();
-
+        TridentUtils::closeOrThrow(ofs, flagup);
 
         std::chrono::duration<double> sec = std::chrono::system_clock::now() - start;
         LOG(DEBUGL) << "Runtime creating the diff index from the update = " << sec.count() * 1000;
diff --git a/src/trident/tree/nodemanager.cpp b/src/trident/tree/nodemanager.cpp
index b173746..da6e340 100644
--- a/src/trident/tree/nodemanager.cpp
+++ b/src/trident/tree/nodemanager.cpp
@@ -21,6 +21,7 @@
 
 
 #include <trident/tree/nodemanager.h>
+#include <trident/utils/tridentutils.h>
 
 #include <iostream>
 #include <fstream>
@@ -274,8 +275,12 @@ void NodeManager::compressSpace(string path) {
             Utils::encode_int(coordinatesSpace, node->id * 4, fileIdx.tellp());
             fileIdx.write(supportBuffer, p);
         }
+        if (!sOldfile) {
+            LOG(ERRORL) << "Error reading " << pOldFile;
+            throw 10;
+        }
         sOldfile.close();
-        sNewFile.close();
+        TridentUtils::closeOrThrow(sNewFile, pNewFile);
 
         //Remove the old file
         int64_t oldSize = Utils::fileSize(pOldFile);
@@ -289,7 +294,7 @@ void NodeManager::compressSpace(string path) {
     }
     fileIdx.seekp(4);
     fileIdx.write(coordinatesSpace, sizeCoordinates);
-    fileIdx.close();
+    TridentUtils::closeOrThrow(fileIdx, sFileIdx);
     delete[] supportBuffer;
     delete[] coordinatesSpace;
 }
@@ -341,7 +346,7 @@ NodeManager::~NodeManager() {
         delete[] coordinatesSpace;
 
         LOG(DEBUGL) << "Wasted space to store the nodes: " << wastedSpace;
-        out.close();
+        TridentUtils::closeOrThrow(out, file);
 
         //Clean the stored nodes
         for (auto itr = storedNodes.begin(); itr != storedNodes.end(); ++itr) {
diff --git a/src/trident/tree/root.cpp b/src/trident/tree/root.cpp
index d98bfd9..a1b5d81 100644
--- a/src/trident/tree/root.cpp
+++ b/src/trident/tree/root.cpp
@@ -28,6 +28,7 @@
 #include <trident/tree/stringbuffer.h>
 #include <trident/tree/leaf.h>
 #include <trident/utils/propertymap.h>
+#include <trident/utils/tridentutils.h>
 
 #include <kognac/utils.h>
 
@@ -280,12 +281,13 @@ void Root::flushChildrenToCache() {
 Root::~Root() {
     if (!readOnly) {
         // Save metainformation about the tree
-        ofstream file(path + DIR_SEP + string("tree"), ios_base::binary);
+        const string fileTree = path + DIR_SEP + string("tree");
+        ofstream file(fileTree, ios_base::binary);
         char buffer[16];
         Utils::encode_long(buffer, 0, rootNode->getId());
         Utils::encode_long(buffer, 8, context->getNewNodeID());
         file.write(buffer, 16);
-        file.close();
+        TridentUtils::closeOrThrow(file, fileTree);
 
         // Flush all the leaves in the cache
         context->getCache()->flushAllCache();
diff --git a/src/trident/tree/stringbuffer.cpp b/src/trident/tree/stringbuffer.cpp
index bf7b716..7e21565 100644
--- a/src/trident/tree/stringbuffer.cpp
+++ b/src/trident/tree/stringbuffer.cpp
@@ -21,6 +21,7 @@
 
 
 #include <trident/tree/stringbuffer.h>
+#include <trident/utils/tridentutils.h>
 
 #include <kognac/logs.h>
 #include <kognac/utils.h>
@@ -65,6 +66,10 @@ StringBuffer::StringBuffer(string dir, bool readOnly, int factorySize,
         Utils::create_directories(dir);
     }
     sb.open((dir + string("/sb")).c_str(), mode);
+    if (!sb && !readOnly) {
+        LOG(ERRORL) << "Error opening " << dir << "/sb";
+        throw 10;
+    }
 
     if (readOnly) {
         //Load the size of the compressed blocks and initialize the other vector
@@ -602,15 +607,20 @@ StringBuffer::~StringBuffer() {
 
         sb.flush();
         sb.close();
+        if (!sb) {
+            LOG(ERRORL) << "Error writing " << dir << "/sb";
+            throw 10;
+        }
 
         //Write all the indices
-        std::ofstream file(dir + string("/sb.idx"), std::ios::binary);
+        const string fileIdx = dir + string("/sb.idx");
+        std::ofstream file(fileIdx, std::ios::binary);
         file.write(reinterpret_cast<char*>(&uncompressedSize), sizeof(int64_t));
         for (int i = 0; i < sizeCompressedBlocks.size(); ++i) {
             file.write(reinterpret_cast<char*>(&(sizeCompressedBlocks[i])),
                        sizeof(int64_t));
         }
-        file.close();
+        TridentUtils::closeOrThrow(file, fileIdx);
     }
 
     //Check whether there are buffers to be released
-- 
2.43.0


From ee1ca54aaccecb56479f7de1e4db756fd4ba9bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:53 +0000
Subject: [PATCH 020/119] fix: the last full block of the string store was
 never written, and blocks could not be read back while compression lagged

---
 src/trident/tree/stringbuffer.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/trident/tree/stringbuffer.cpp b/src/trident/tree/stringbuffer.cpp
index 7e21565..bd06ae2 100644
--- a/src/trident/tree/stringbuffer.cpp
+++ b/src/trident/tree/stringbuffer.cpp
@@ -384,13 +384,9 @@ void StringBuffer::uncompressBlock(int b) {
     }
 
     char *uncompressedBuffer = factory.get();
-    int sizeUncompressed = SB_BLOCK_SIZE;
-    if (b == sizeCompressedBlocks.size() - 1) {
-        sizeUncompressed = uncompressedSize % SB_BLOCK_SIZE;
-    }
     int bytesUncompressed = LZ4_decompress_safe(uncompressSupportBuffer,
                             uncompressedBuffer,
-                            length, sizeUncompressed);
+                            length, SB_BLOCK_SIZE);
     stats->incrNReadIndexBlocks();
     stats->addNReadIndexBytes(length);
     if (bytesUncompressed < 0) {
@@ -587,8 +583,7 @@ int StringBuffer::cmp(int64_t pos, char *string, int sizeString) {
 
 StringBuffer::~StringBuffer() {
     if (!readOnly) {
-        int usedSize = uncompressedSize % SB_BLOCK_SIZE;
-        if (usedSize > 0) {
+        if (writingCurrentBufferSize > 0) {
             compressLastBlock();
         }
 
-- 
2.43.0


From 8a190757b8633e95dfae7307be8de6f287d7d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:53 +0000
Subject: [PATCH 021/119] fix: an empty string at the end of the last string
 store block was read from a block that does not exist

---
 src/trident/tree/stringbuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/tree/stringbuffer.cpp b/src/trident/tree/stringbuffer.cpp
index bd06ae2..b9d1dd2 100644
--- a/src/trident/tree/stringbuffer.cpp
+++ b/src/trident/tree/stringbuffer.cpp
@@ -465,7 +465,7 @@ void StringBuffer::get(int64_t pos, char* outputBuffer, int &size) {
         outputBuffer += sizePrefix;
     }
 
-    if (start == SB_BLOCK_SIZE) {
+    if (start == SB_BLOCK_SIZE && sizeToCopy > 0) {
         start = 0;
         idxBlock++;
         block = getBlock(idxBlock);
-- 
2.43.0


From c2ecd24fd770f2b29224307940daeb8f14a468b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:53 +0000
Subject: [PATCH 022/119] fix: closing the string store could miss the wake-up
 of its compression thread and left it running

---
 include/trident/tree/stringbuffer.h |  8 --------
 src/trident/tree/stringbuffer.cpp   | 11 ++---------
 2 files changed, 2 insertions(+), 17 deletions(-)

diff --git a/include/trident/tree/stringbuffer.h b/include/trident/tree/stringbuffer.h
index 2f956eb..6a2fe11 100644
--- a/include/trident/tree/stringbuffer.h
+++ b/include/trident/tree/stringbuffer.h
@@ -79,14 +79,6 @@ private:
     std::mutex _compressMutex;
     std::thread compressionThread;
 
-    //Used to check for termination
-    std::condition_variable compressTerm;
-    std::mutex _compressTerm;
-    bool threadRunning;
-    bool isThreadFinished() {
-        return !threadRunning;
-    }
-
     std::mutex sizeLock;
 
     int posBaseEntry;
diff --git a/src/trident/tree/stringbuffer.cpp b/src/trident/tree/stringbuffer.cpp
index b9d1dd2..81f0658 100644
--- a/src/trident/tree/stringbuffer.cpp
+++ b/src/trident/tree/stringbuffer.cpp
@@ -90,7 +90,6 @@ StringBuffer::StringBuffer(string dir, bool readOnly, int factorySize,
         addCache(0);
 
         //Start a compression thread
-        threadRunning = true;
         compressionThread = std::thread(
                                 std::bind(&StringBuffer::compressBlocks, this));
     }
@@ -178,7 +177,6 @@ void StringBuffer::addCache(int idx) {
 }
 
 void StringBuffer::compressBlocks() {
-    threadRunning = true;
     const int maxSize = LZ4_compressBound(SB_BLOCK_SIZE);
     char *compressedBuffer = new char[maxSize];
     while (true) {
@@ -225,8 +223,6 @@ void StringBuffer::compressBlocks() {
         fileLock.unlock();
     }
     delete[] compressedBuffer;
-    threadRunning = false;
-    compressTerm.notify_one();
 }
 
 void StringBuffer::setCurrentAsBaseEntry(int size) {
@@ -591,14 +587,11 @@ StringBuffer::~StringBuffer() {
         while (bufferToCompress != NULL) {
             compressWait.wait(lock);
         }
+        bufferToCompress = FINISH_THREAD;
         lock.unlock();
 
-        compressionThread.detach();
-        bufferToCompress = FINISH_THREAD;
         compressWait.notify_one();
-
-        std::unique_lock<std::mutex> lock2(_compressTerm);
-        compressTerm.wait(lock2, std::bind(&StringBuffer::isThreadFinished, this));
+        compressionThread.join();
 
         sb.flush();
         sb.close();
-- 
2.43.0


From 1447c20a6cbbf1dd2a788ecfcfcc1d2f5efea4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:15 +0000
Subject: [PATCH 023/119] fix: a split of a node with textual keys could take
 unsorted positions for a sequence and lose keys

---
 src/trident/tree/node.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trident/tree/node.cpp b/src/trident/tree/node.cpp
index d593137..1e92e7d 100644
--- a/src/trident/tree/node.cpp
+++ b/src/trident/tree/node.cpp
@@ -250,7 +250,9 @@ void Node::split(Node *node) {
         node->consecutive = true;
     } else {
         node->firstKey = firstKey + keys[currentSize - 1];
-        if (keys[context->getMaxElementsPerNode() - 2] - keys[currentSize - 1]
+        //The positions of textual keys are not sorted
+        if (!context->textKeys() &&
+                keys[context->getMaxElementsPerNode() - 2] - keys[currentSize - 1]
                 + 1 == currentSize) {
             node->consecutive = true;
         } else {
-- 
2.43.0


From ed0dedb45d73371bf7ad0c7847427d0f087fc294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:15 +0000
Subject: [PATCH 024/119] fix: closing a tree whose root is a leaf released the
 leaf twice

---
 src/trident/tree/root.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trident/tree/root.cpp b/src/trident/tree/root.cpp
index a1b5d81..1a25af4 100644
--- a/src/trident/tree/root.cpp
+++ b/src/trident/tree/root.cpp
@@ -279,6 +279,7 @@ void Root::flushChildrenToCache() {
 }
 
 Root::~Root() {
+    const bool rootIsLeaf = rootNode && !rootNode->canHaveChildren();
     if (!readOnly) {
         // Save metainformation about the tree
         const string fileTree = path + DIR_SEP + string("tree");
@@ -294,14 +295,15 @@ Root::~Root() {
     }
 
     // Now all the leaves are offloaded. Time to save also the other nodes.
-    if (rootNode && rootNode->canHaveChildren()) {
+    if (rootNode && !rootIsLeaf) {
         // Save the intermediate nodes
         if (!readOnly) {
             flushChildrenToCache();
         } else {
             delete rootNode;
         }
-    } else if (cache) {
+    } else if (rootIsLeaf && readOnly) {
+        // Otherwise, it was already released with the cache
         cache->releaseLeaf(rootNode);
     }
 
-- 
2.43.0


From dbfe90d97836fd40982232712688a5734e860aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:16 +0000
Subject: [PATCH 025/119] fix: iterating over a tree ended early when the next
 leaf reused the object of the current one

---
 include/trident/tree/leaf.h  | 2 ++
 src/trident/tree/leaf.cpp    | 4 ++--
 src/trident/tree/treeitr.cpp | 9 ++++++---
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/trident/tree/leaf.h b/include/trident/tree/leaf.h
index 313e548..fc10e51 100644
--- a/include/trident/tree/leaf.h
+++ b/include/trident/tree/leaf.h
@@ -114,6 +114,8 @@ public:
 
     tTerm *largestTextualKey(int *size);
 
+    //Returns NULL if this is the last leaf. This leaf might have been offloaded (and
+    //its object reused) when the call returns
     Leaf *getRightSibling();
 
     void free();
diff --git a/src/trident/tree/leaf.cpp b/src/trident/tree/leaf.cpp
index 5fb3e51..d5e9143 100644
--- a/src/trident/tree/leaf.cpp
+++ b/src/trident/tree/leaf.cpp
@@ -750,7 +750,7 @@ void Leaf::getValueAtPos(int pos, nTerm * value) {
 Leaf * Leaf::getRightSibling() {
     IntermediateNode *parent = getParent();
     if (parent == NULL) {
-        return this;
+        return NULL;
     }
 
     int pos = parent->getPosChild(this);
@@ -768,7 +768,7 @@ Leaf * Leaf::getRightSibling() {
         }
         return (Leaf *) child;
     } else {
-        return this;
+        return NULL;
     }
 }
 
diff --git a/src/trident/tree/treeitr.cpp b/src/trident/tree/treeitr.cpp
index cfc9552..b598b2a 100644
--- a/src/trident/tree/treeitr.cpp
+++ b/src/trident/tree/treeitr.cpp
@@ -36,17 +36,20 @@ TreeItr::TreeItr(Node *root, Leaf *firstLeaf) {
 }
 
 bool TreeItr::hasNext() {
+    if (currentLeaf == NULL) {
+        return false;
+    }
+
     if (currentPos >= currentLeaf->getCurrentSize()) {
 
-        Node *n = currentLeaf->getRightSibling();
+        currentLeaf = currentLeaf->getRightSibling();
 
-        if (n == currentLeaf) {
+        if (currentLeaf == NULL) {
 //          cache->registerNode(currentLeaf);
             return false;
         }
 
 //      cache->registerNode(currentLeaf);
-        currentLeaf = (Leaf *) n;
 //      cache->unregisterNode(currentLeaf);
 
         currentPos = 0;
-- 
2.43.0


From 54da872a7253699ab00c3bf1d89aa8430583b621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:16 +0000
Subject: [PATCH 026/119] fix: replacing the coordinates of a key kept
 permutations that are not in the new value

---
 src/trident/tree/leaf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trident/tree/leaf.cpp b/src/trident/tree/leaf.cpp
index d5e9143..8879e4a 100644
--- a/src/trident/tree/leaf.cpp
+++ b/src/trident/tree/leaf.cpp
@@ -626,6 +626,8 @@ Coordinates * Leaf::addCoordinates(Coordinates * list,
             current->posInFile = value->getMark(i);
             current->nElements = value->getNElements(i);
             current->strategy = value->getStrategy(i);
+            prev = current;
+            current = current->next;
         } else if (current != NULL && current->permutation == i) {
             if (prev == NULL) {
                 first = current->next;
-- 
2.43.0


From 80f071c8b065ee5afa5240531eb4c3d6c69e092f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:41 +0000
Subject: [PATCH 027/119] fix: an append to a leaf that was reloaded from disk
 was lost when the leaf was offloaded again

---
 src/trident/tree/leaf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trident/tree/leaf.cpp b/src/trident/tree/leaf.cpp
index 8879e4a..f64a3cc 100644
--- a/src/trident/tree/leaf.cpp
+++ b/src/trident/tree/leaf.cpp
@@ -467,11 +467,13 @@ Node *Leaf::put(tTerm *key, int sizeKey, nTerm value) {
 }
 
 Node *Leaf::append(tTerm *key, int sizeKey, nTerm value) {
+    setState(STATE_MODIFIED);
     int p = getCurrentSize();
     return insertAtPosition(p, key, sizeKey, value);
 }
 
 Node *Leaf::append(nTerm key, int64_t coordinates) {
+    setState(STATE_MODIFIED);
     int p = getCurrentSize();
     p = -p - 1;
     return insertAtPosition(p, key, coordinates);
-- 
2.43.0


From d4920824883e66b8bc94217c4fac8b4ff387e40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:41 +0000
Subject: [PATCH 028/119] fix: leaves of a read-only tree kept pointers into
 buffers and files that were offloaded

---
 include/trident/tree/cache.h |  8 ++++++++
 include/trident/tree/leaf.h  |  3 +++
 src/trident/tree/leaf.cpp    | 16 +++++++++++++++-
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/trident/tree/cache.h b/include/trident/tree/cache.h
index df9b738..8d1aba9 100644
--- a/include/trident/tree/cache.h
+++ b/include/trident/tree/cache.h
@@ -68,6 +68,14 @@ public:
 
     Node *getNodeFromCache(int64_t id);
 
+    bool areNodesCompressed() const {
+        return compressedNodes;
+    }
+
+    char *getRawNode(int64_t id) {
+        return manager->get(manager->getCachedNode(id));
+    }
+
     void registerNode(Node *node);
 
     Leaf *newLeaf() {
diff --git a/include/trident/tree/leaf.h b/include/trident/tree/leaf.h
index fc10e51..d853fc6 100644
--- a/include/trident/tree/leaf.h
+++ b/include/trident/tree/leaf.h
@@ -40,6 +40,7 @@ using namespace std;
 class Leaf: public Node {
 private:
     char *rawNode;
+    int posRawNode;
     Coordinates **detailPermutations1;
     Coordinates **detailPermutations2;
 
@@ -53,6 +54,8 @@ private:
 
     void clearFirstLevel(int size);
 
+    void reloadRawNode();
+
     Coordinates *parseInternalLine(const int pos);
 
     Node *insertAtPosition(int p, tTerm *key, int sizeKey, nTerm value);
diff --git a/src/trident/tree/leaf.cpp b/src/trident/tree/leaf.cpp
index f64a3cc..6717211 100644
--- a/src/trident/tree/leaf.cpp
+++ b/src/trident/tree/leaf.cpp
@@ -36,6 +36,7 @@ Leaf::Leaf(TreeContext *c) :
     detailPermutations1 = NULL;
     detailPermutations2 = NULL;
     rawNode = NULL;
+    posRawNode = 0;
     nInstantiatedPositions = 0;
     scanThroughArray = !c->isReadOnly();
 
@@ -48,6 +49,7 @@ Leaf::Leaf(const Leaf& other) :
     detailPermutations1 = NULL;
     detailPermutations2 = NULL;
     rawNode = NULL;
+    posRawNode = 0;
     nInstantiatedPositions = 0;
     scanThroughArray = !getContext()->isReadOnly();
 
@@ -160,8 +162,11 @@ int Leaf::unserialize_values(char *bytes, int pos, int previousSize) {
         detailPermutations2 = getContext()->getIlBufferFactory()->get();
     }
     rawNode = bytes + pos;
+    posRawNode = pos;
 
-    if (!getContext()->isReadOnly()) {
+    //The buffer with the uncompressed content is reused by the next node
+    if (!getContext()->isReadOnly()
+            || getContext()->getCache()->areNodesCompressed()) {
         //Unpack completely the node
         for (int i = 0; i < getCurrentSize(); ++i) {
             if (i < getContext()->getMinElementsPerNode()) {
@@ -657,6 +662,7 @@ Coordinates *Leaf::parseInternalLine(const int pos) {
         std::unique_lock<std::recursive_mutex> lock(mutex);
 #endif
 
+    reloadRawNode();
     unsigned char permutations = rawNode[pos];
     int startPos = (unsigned short) Utils::decode_short((const char*)rawNode,
                    getCurrentSize() + pos * 2);
@@ -728,6 +734,14 @@ tTerm *Leaf::largestTextualKey(int *size) {
     return localLargestTextualKey(size);
 }
 
+void Leaf::reloadRawNode() {
+    //The file might have been offloaded since the leaf was read
+    if (getContext()->isReadOnly()
+            && !getContext()->getCache()->areNodesCompressed()) {
+        rawNode = getContext()->getCache()->getRawNode(getId()) + posRawNode;
+    }
+}
+
 void Leaf::getValueAtPos(int pos, TermCoordinates * value) {
     Coordinates *el = NULL;
 
-- 
2.43.0


From 8f403172fae0d21690e79814c41903e93b379d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:04 +0000
Subject: [PATCH 029/119] fix: the cardinality of an aggregated iterator that
 was not advanced yet read an uninitialised state

---
 src/trident/iterators/aggritr.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trident/iterators/aggritr.cpp b/src/trident/iterators/aggritr.cpp
index a6d158e..67bf5af 100644
--- a/src/trident/iterators/aggritr.cpp
+++ b/src/trident/iterators/aggritr.cpp
@@ -177,6 +177,8 @@ void AggrItr::init(int idx, PairItr* itr, Querier *q) {
 }
 
 uint64_t AggrItr::getCardinality() {
+    if (value1 < 0)
+        hasNext(); //No element was read so far. Move to the first one
     if (n) {
         if (noSecColumn) {
             return mainItr->getCardinality();
@@ -194,6 +196,8 @@ uint64_t AggrItr::getCardinality() {
 }
 
 uint64_t AggrItr::estCardinality() {
+    if (value1 < 0)
+        hasNext(); //No element was read so far. Move to the first one
     if (n) {
         if (noSecColumn) {
             return mainItr->estCardinality();
-- 
2.43.0


From 6696b152497e4ac1316599121aec6eea268fc313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:36 +0000
Subject: [PATCH 030/119] fix: loading a block while all cached blocks are in
 use never terminated

---
 include/trident/utils/memorymgr.h | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/include/trident/utils/memorymgr.h b/include/trident/utils/memorymgr.h
index 19c845a..4981421 100644
--- a/include/trident/utils/memorymgr.h
+++ b/include/trident/utils/memorymgr.h
@@ -49,9 +49,11 @@ private:
     int start;
     int end;
     int blocksLeft;
+    int blocksLocked;
 
-    void removeOneBlock() {
-        if (blocksLeft < MAX_N_BLOCKS_IN_CACHE) {
+    //Returns false if there is no block that can be removed
+    bool removeOneBlock() {
+        if (MAX_N_BLOCKS_IN_CACHE - blocksLeft > blocksLocked) {
             if (start == MAX_N_BLOCKS_IN_CACHE) {
                 start = 0;
             }
@@ -64,7 +66,9 @@ private:
                 }
             }
             removeBlock(start++);
+            return true;
         }
+        return false;
     }
 
 public:
@@ -75,6 +79,7 @@ public:
         blocks = new MemoryBlock<K>*[MAX_N_BLOCKS_IN_CACHE];
         memset(blocks, 0, sizeof(MemoryBlock<K>*) * MAX_N_BLOCKS_IN_CACHE);
         start = end = 0;
+        blocksLocked = 0;
         blocksLeft = MAX_N_BLOCKS_IN_CACHE;
     }
 
@@ -98,6 +103,9 @@ public:
     void removeBlockWithoutDeallocation(int idx) {
         if (blocks[idx] != NULL) {
             bytes -= blocks[idx]->bytes;
+            if (blocks[idx]->lock > 0) {
+                blocksLocked--;
+            }
             delete blocks[idx];
             blocks[idx] = NULL;
             blocksLeft++;
@@ -105,7 +113,9 @@ public:
     }
 
     void addLock(int idx) {
-        blocks[idx]->lock++;
+        if (blocks[idx]->lock++ == 0) {
+            blocksLocked++;
+        }
     }
 
     bool isUsed(int idx) {
@@ -113,15 +123,23 @@ public:
     }
 
     void releaseLock(int idx) {
-        blocks[idx]->lock--;
+        if (--blocks[idx]->lock == 0) {
+            blocksLocked--;
+        }
     }
 
     int add(size_t bytes, K *element, int idxInParentArray, K **parentArray) {
         if (this->bytes + bytes > cacheMaxSize) {
             while (this->bytes >= cacheMaxSize || blocksLeft == 0) {
-                removeOneBlock();
+                //If all blocks are in use, then the cache must grow
+                if (!removeOneBlock()) {
+                    break;
+                }
             }
         }
+        if (blocksLeft == 0) {
+            throw 10;
+        }
         this->bytes += bytes;
 
         if (end == MAX_N_BLOCKS_IN_CACHE) {
@@ -143,8 +161,7 @@ public:
     }
 
     ~MemoryManager() {
-        while (blocksLeft < MAX_N_BLOCKS_IN_CACHE) {
-            removeOneBlock();
+        while (removeOneBlock()) {
         }
         delete[] blocks;
     }
-- 
2.43.0


From fe05661509af39977fb3abca3fbcc2f5f6a983a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:36 +0000
Subject: [PATCH 031/119] fix: the size of a file stayed outdated after its
 content was shifted

---
 include/trident/files/filemanager.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/trident/files/filemanager.h b/include/trident/files/filemanager.h
index 658244f..b6e041b 100644
--- a/include/trident/files/filemanager.h
+++ b/include/trident/files/filemanager.h
@@ -233,6 +233,10 @@ class FileManager {
         void shiftRemainingFile(int idx, uint64_t pos, uint64_t diff) {
             load_file(idx);
             openedFiles[idx]->shiftFile(pos, diff);
+            if (idx < cacheFileSize.size()) {
+                //The size has changed
+                cacheFileSize[idx] = 0;
+            }
         }
 
         int getIdLastFile() {
-- 
2.43.0


From 1b580a6197f5c6d970f0feedfbad705f409cfff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:36 +0000
Subject: [PATCH 032/119] fix: opening a file never terminated if the memory
 manager had already removed all tracked files

---
 include/trident/files/filemanager.h | 45 +++++++++--------------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/include/trident/files/filemanager.h b/include/trident/files/filemanager.h
index b6e041b..b2fe170 100644
--- a/include/trident/files/filemanager.h
+++ b/include/trident/files/filemanager.h
@@ -77,42 +77,25 @@ class FileManager {
                 if (!isFileLoaded(id)) {
 #endif
                     if (nOpenedFiles >= maxFiles) {
-                        //Take the last opened file
-                        int idxFileToRemove = trackerOpenedFiles.front();
-                        int firstFileRemoved = -1;
-                        trackerOpenedFiles.pop_front();
-                        bool rem = true;
-                        assert(!trackerOpenedFiles.empty());
-                        while (openedFiles[idxFileToRemove] == NULL ||
-                                openedFiles[idxFileToRemove]->isUsed()) {
-
-                            if (openedFiles[idxFileToRemove] != NULL) {
+                        //Look once at every tracked file, starting from the one
+                        //that was opened first
+                        size_t left = trackerOpenedFiles.size();
+                        while (left > 0 && nOpenedFiles >= maxFiles) {
+                            int idxFileToRemove = trackerOpenedFiles.front();
+                            trackerOpenedFiles.pop_front();
+                            left--;
+                            if (openedFiles[idxFileToRemove] == NULL) {
+                                //The memory manager already removed it
+                                nOpenedFiles--;
+                            } else if (openedFiles[idxFileToRemove]->isUsed()) {
                                 //It means the file is still used
                                 trackerOpenedFiles.push_back(idxFileToRemove);
-                                if (firstFileRemoved == -1) {
-                                    firstFileRemoved = idxFileToRemove;
-                                }
                             } else {
+                                //LOG(DEBUGL) << "Deleting map for file " << idxFileToRemove;
+                                delete openedFiles[idxFileToRemove];
+                                openedFiles[idxFileToRemove] = NULL;
                                 nOpenedFiles--;
                             }
-
-                            if (!trackerOpenedFiles.empty()) {
-                                idxFileToRemove = trackerOpenedFiles.front();
-                                trackerOpenedFiles.pop_front();
-                            } else {
-                                rem = false;
-                            }
-
-                            if (idxFileToRemove == firstFileRemoved) {
-                                rem = false;
-                                break;
-                            }
-                        }
-                        if (rem) {
-                            //LOG(DEBUGL) << "Deleting map for file " << idxFileToRemove;
-                            delete openedFiles[idxFileToRemove];
-                            openedFiles[idxFileToRemove] = NULL;
-                            nOpenedFiles--;
                         }
                     }
                     std::stringstream filePath;
-- 
2.43.0


From 175c349198876ace7d7f355d6f9bd03333dc09f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:48 +0000
Subject: [PATCH 033/119] fix: HTTP requests that arrive in several reads were
 cut, and failed or partial sends corrupted the response

---
 include/trident/utils/httpserver.h |  17 ++++-
 src/trident/utils/httpserver.cpp   | 102 +++++++++++++++++++----------
 2 files changed, 83 insertions(+), 36 deletions(-)

diff --git a/include/trident/utils/httpserver.h b/include/trident/utils/httpserver.h
index 2589001..5f8a0c8 100644
--- a/include/trident/utils/httpserver.h
+++ b/include/trident/utils/httpserver.h
@@ -23,12 +23,13 @@ class HttpServer {
                 int connFd;
                 bool eof;
                 bool toBeClosed;
+                std::string data; //Bytes received but not processed yet
 
             public:
                 Socket(int connFd) : connFd(connFd), eof(false), toBeClosed(false) {
                 }
 
-                Socket() : connFd(-1), eof(true) {}
+                Socket() : connFd(-1), eof(true), toBeClosed(false) {}
 
                 int getFD() const {
                     return connFd;
@@ -42,6 +43,14 @@ class HttpServer {
                     toBeClosed = true;
                 }
 
+                const std::string &getData() const {
+                    return data;
+                }
+
+                void setData(const std::string &data) {
+                    this->data = data;
+                }
+
                 bool isEOF() const {
                     return eof;
                 }
@@ -66,7 +75,11 @@ class HttpServer {
 
         void waitForData();
 
-        uint64_t getMessageBodyLength(std::string& request);
+        uint64_t getMessageBodyLength(const std::string& header);
+
+        bool extractRequest(std::string &data, std::string &request);
+
+        bool sendResponse(int connFd, const std::string &response);
 
     public:
         HttpServer(uint32_t port,
diff --git a/src/trident/utils/httpserver.cpp b/src/trident/utils/httpserver.cpp
index 25ebdab..c0e4424 100644
--- a/src/trident/utils/httpserver.cpp
+++ b/src/trident/utils/httpserver.cpp
@@ -2,12 +2,18 @@
 
 #include <kognac/logs.h>
 
+#include <algorithm>
+#include <cerrno>
 #include <chrono>
 
 #if defined(_WIN32)
 //The Http Client and Server are only supported under Linux/Mac
 #else
 
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 namespace chr = std::chrono;
 
 HttpServer::HttpServer(uint32_t port,
@@ -21,19 +27,53 @@ HttpServer::HttpServer(uint32_t port,
         }
     }
 
-uint64_t HttpServer::getMessageBodyLength(std::string& request) {
-    size_t pos = request.find("Content-Length:");
+uint64_t HttpServer::getMessageBodyLength(const std::string& header) {
+    //The names of the fields are not case sensitive
+    std::string lheader = header;
+    std::transform(lheader.begin(), lheader.end(), lheader.begin(), ::tolower);
+    size_t pos = lheader.find("\r\ncontent-length:");
     if (pos == std::string::npos) {
         // For GET requests, usually message body is not present. Hence Content-Length field can be omitted
         // For POST requests, if message body is not present, then it Content-Length is 0
         return 0;
     }
-    size_t endpos = request.find("\r\n", pos);
-    std::string bodyLen = request.substr(pos + 16, endpos - pos - 16);
+    pos += 17;
+    size_t endpos = header.find("\r\n", pos);
+    std::string bodyLen = header.substr(pos, endpos - pos);
     uint64_t ret = std::stoul(bodyLen);
     return ret;
 }
 
+bool HttpServer::extractRequest(std::string &data, std::string &request) {
+    size_t pos = data.find("\r\n\r\n");
+    if (pos == std::string::npos) {
+        return false;
+    }
+    size_t headerLength = pos + 4;
+    uint64_t bodyLength = getMessageBodyLength(data.substr(0, headerLength));
+    if (data.size() - headerLength < bodyLength) {
+        return false;
+    }
+    request = data.substr(0, headerLength + bodyLength);
+    data.erase(0, headerLength + bodyLength);
+    return true;
+}
+
+bool HttpServer::sendResponse(int connFd, const std::string &response) {
+    uint64_t size = 0;
+    while (size < response.size()) {
+        //Do not raise a signal if the client has closed the connection
+        auto len = send(connFd, response.c_str() + size,
+                response.size() - size, MSG_NOSIGNAL);
+        if (len >= 0) {
+            size += len;
+        } else if (errno != EINTR) {
+            return false;
+        }
+    }
+    return true;
+}
+
 void HttpServer::processSocket() {
     while (true) {
         Socket socket;
@@ -46,41 +86,35 @@ void HttpServer::processSocket() {
         //Read the data and print it on screen
         try {
             char buffer[1024];
+            std::string data = socket.getData(); //Received before, but not processed yet
             std::string request = "";
-            auto len = read(connFd, buffer, 1024);
-            if (len == 0) { //Client has closed the conversation
-                socket.close();
-                queueWait.push(socket);
-            } else if (len == -1) {
-                //can happen. Put it back in the queue, unless there are errors
-                //TODO
-                queueWait.push(socket);
-            } else {
-                request += std::string(buffer, len);
-                int bodyLength = getMessageBodyLength(request);
-                int pos = request.find("\r\n\r\n");
-                int headerLength = 0;
-                if (pos == std::string::npos) {
-                    LOG(ERRORL) << "FATAL: End of header not found in the request";
-                }else {
-                    headerLength = pos;
-                }
-                if (bodyLength > 0) {
-                    int readBuffer = bodyLength - (1024 - headerLength);
-                    while (readBuffer > 0) {
-                        auto len = read(connFd, buffer, 1024);
-                        readBuffer -= len;
-                        request += std::string(buffer, len);
-                    }
+            bool closed = false;
+            bool complete = extractRequest(data, request);
+            while (!complete && !closed) {
+                auto len = read(connFd, buffer, 1024);
+                if (len > 0) {
+                    data += std::string(buffer, len);
+                    complete = extractRequest(data, request);
+                } else if (len == 0 || errno != EINTR) { //Client has closed the conversation
+                    closed = true;
                 }
+            }
+            if (complete) {
                 std::string response = "";
                 handlerFunction(request, response);
-                uint64_t size = 0;
-                do {
-                    size += send(connFd, response.c_str() + size,
-                            response.size() - size, 0);
-                } while (size < response.size());
+                closed = !sendResponse(connFd, response);
+            }
+            if (closed) {
+                socket.close();
                 queueWait.push(socket);
+            } else {
+                socket.setData(data);
+                if (data.empty()) {
+                    queueWait.push(socket);
+                } else {
+                    //The next request might already be there
+                    queueReady.push(socket);
+                }
             }
         } catch (...) {
             if (connFd != -1) {
-- 
2.43.0


From 0fcf31caaa52b32daa275499e5d2aa33bd604a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:44 +0000
Subject: [PATCH 034/119] fix: idle, slow or aborted connections blocked the
 HTTP server for all other clients

---
 include/trident/utils/httpserver.h |   3 +
 src/trident/utils/httpserver.cpp   | 108 +++++++++++++++++++++--------
 2 files changed, 84 insertions(+), 27 deletions(-)

diff --git a/include/trident/utils/httpserver.h b/include/trident/utils/httpserver.h
index 5f8a0c8..572ccb9 100644
--- a/include/trident/utils/httpserver.h
+++ b/include/trident/utils/httpserver.h
@@ -68,6 +68,7 @@ class HttpServer {
 
         ConcurrentQueue<Socket> queueWait;
         std::thread threadWait;
+        int wakeFd[2]; //Pipe to wake up threadWait
 
         bool listn();
 
@@ -75,6 +76,8 @@ class HttpServer {
 
         void waitForData();
 
+        void waitForSocket(const Socket &socket);
+
         uint64_t getMessageBodyLength(const std::string& header);
 
         bool extractRequest(std::string &data, std::string &request);
diff --git a/src/trident/utils/httpserver.cpp b/src/trident/utils/httpserver.cpp
index c0e4424..0c23db6 100644
--- a/src/trident/utils/httpserver.cpp
+++ b/src/trident/utils/httpserver.cpp
@@ -21,6 +21,11 @@ HttpServer::HttpServer(uint32_t port,
         uint32_t nthreads,
         uint64_t maxLifeConn) : port(port),
     maxLifeConn(maxLifeConn), handlerFunction(handler) {
+        if (pipe(wakeFd) != 0) {
+            LOG(ERRORL) << "Failed creating the pipe";
+            throw 10;
+        }
+        fcntl(wakeFd[1], F_SETFL, fcntl(wakeFd[1], F_GETFL, 0) | O_NONBLOCK);
         threads.resize(nthreads);
         for(uint32_t i = 0; i < nthreads; ++i) {
             threads[i] = std::thread(&HttpServer::processSocket, this);
@@ -67,6 +72,15 @@ bool HttpServer::sendResponse(int connFd, const std::string &response) {
                 response.size() - size, MSG_NOSIGNAL);
         if (len >= 0) {
             size += len;
+        } else if (errno == EAGAIN || errno == EWOULDBLOCK) {
+            //Wait until the client reads, but not forever
+            pollfd pf;
+            pf.fd = connFd;
+            pf.events = POLLOUT;
+            int ret = poll(&pf, 1, maxLifeConn);
+            if (ret == 0 || (ret < 0 && errno != EINTR)) {
+                return false;
+            }
         } else if (errno != EINTR) {
             return false;
         }
@@ -90,11 +104,15 @@ void HttpServer::processSocket() {
             std::string request = "";
             bool closed = false;
             bool complete = extractRequest(data, request);
-            while (!complete && !closed) {
+            bool wait = false;
+            while (!complete && !closed && !wait) {
                 auto len = read(connFd, buffer, 1024);
                 if (len > 0) {
                     data += std::string(buffer, len);
                     complete = extractRequest(data, request);
+                } else if (len < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) {
+                    //can happen. Put it back in the queue until there is more
+                    wait = true;
                 } else if (len == 0 || errno != EINTR) { //Client has closed the conversation
                     closed = true;
                 }
@@ -106,11 +124,11 @@ void HttpServer::processSocket() {
             }
             if (closed) {
                 socket.close();
-                queueWait.push(socket);
+                waitForSocket(socket);
             } else {
                 socket.setData(data);
-                if (data.empty()) {
-                    queueWait.push(socket);
+                if (wait || data.empty()) {
+                    waitForSocket(socket);
                 } else {
                     //The next request might already be there
                     queueReady.push(socket);
@@ -119,15 +137,32 @@ void HttpServer::processSocket() {
         } catch (...) {
             if (connFd != -1) {
                 socket.close();
-                queueWait.push(socket);
+                waitForSocket(socket);
             }
         }
     }
 }
 
+void HttpServer::waitForSocket(const Socket &socket) {
+    queueWait.push(socket);
+    //Wake up the thread that monitors the sockets
+    char b = 0;
+    while (write(wakeFd[1], &b, 1) < 0 && errno == EINTR) {
+    }
+}
+
 void HttpServer::waitForData() {
     std::vector<pollfd> events;
     std::vector<uint64_t > idletime;
+    std::vector<std::string> data; //Bytes received from the sockets but not processed yet
+
+    //The first descriptor tells that there are sockets in queueWait
+    pollfd pfw;
+    pfw.fd = wakeFd[0];
+    pfw.events = POLLIN;
+    events.push_back(pfw);
+    idletime.push_back(0);
+    data.push_back("");
 
     while (true) {
         while (!queueWait.isEmpty()) {
@@ -157,6 +192,7 @@ void HttpServer::waitForData() {
                         found = true;
                         //Update its idle count
                         idletime[i] = time;
+                        data[i] = s.getData();
                         break;
                     } else if (el.fd == -1) {
                         validIdx = i;
@@ -172,9 +208,11 @@ void HttpServer::waitForData() {
                         pf.events = POLLIN | POLLERR | POLLHUP;
                         events.push_back(pf);
                         idletime.push_back(time);
+                        data.push_back(s.getData());
                     } else {
                         events[validIdx].fd = s.getFD();
                         idletime[validIdx] = time;
+                        data[validIdx] = s.getData();
                     }
                 }
             }
@@ -182,13 +220,22 @@ void HttpServer::waitForData() {
 
         int retval = poll(events.data(), events.size(), 1000); //Wait max 1sec
         if (retval > 0) {
+            if (events[0].revents & POLLIN) {
+                char buffer[1024];
+                auto len = read(wakeFd[0], buffer, 1024);
+                if (len < 0) {
+                    //It will be reported again
+                }
+            }
             //Add to queueReady all sockets which have data
-            for(int i = 0; i < events.size(); ++i) {
+            for(int i = 1; i < events.size(); ++i) {
                 auto &el = events[i];
                 if (el.fd == -1)
                     continue;
                 if (el.revents & POLLIN) {
-                    queueReady.push(Socket(el.fd));
+                    Socket s(el.fd);
+                    s.setData(data[i]);
+                    queueReady.push(s);
                     el.fd = -1; //Remove it from the list...
                 } else if (el.revents != 0) {
                     shutdown(el.fd, 2);
@@ -198,26 +245,26 @@ void HttpServer::waitForData() {
                     //No update ...
                 }
             }
-        } else if (retval == 0) {
-            if (!events.empty() && events.back().fd == -1) {
-                events.pop_back();
-                idletime.pop_back();
-            }
-            //Remove connections that were idle for too long
-            uint64_t time = chr::duration_cast<chr::milliseconds>(
-                    chr::steady_clock::now().time_since_epoch()).count();
-            for(int i = 0; i < events.size(); ++i) {
-                if (events[i].fd != -1) {
-                    if ((idletime[i] + maxLifeConn) < time) {
-                        //Remove it...
-                        shutdown(events[i].fd, 2);
-                        close(events[i].fd);
-                        events[i].fd = -1;
-                    }
+        } else if (retval < 0 && errno != EINTR) {
+            LOG(ERRORL) << "Pool failed";
+        }
+        if (events.size() > 1 && events.back().fd == -1) {
+            events.pop_back();
+            idletime.pop_back();
+            data.pop_back();
+        }
+        //Remove connections that were idle for too long
+        uint64_t time = chr::duration_cast<chr::milliseconds>(
+                chr::steady_clock::now().time_since_epoch()).count();
+        for(int i = 1; i < events.size(); ++i) {
+            if (events[i].fd != -1) {
+                if ((idletime[i] + maxLifeConn) < time) {
+                    //Remove it...
+                    shutdown(events[i].fd, 2);
+                    close(events[i].fd);
+                    events[i].fd = -1;
                 }
             }
-        } else {
-            LOG(ERRORL) << "Pool failed";
         }
     }
 }
@@ -246,10 +293,17 @@ bool HttpServer::listn() {
         socklen_t len = sizeof(clntAdd);
         int connFd = accept(listenFd, (struct sockaddr *)&clntAdd, &len);
         if (connFd < 0) {
-            return false;
+            if (errno == EBADF || errno == EINVAL) {
+                return false;
+            }
+            if (errno != EINTR && errno != ECONNABORTED) {
+                //There might be too many open connections. Wait until some are closed
+                std::this_thread::sleep_for(chr::milliseconds(100));
+            }
+            continue;
         }
         //Make the socket non-blocking
-        //fcntl(connFd, F_SETFL, fcntl(connFd, F_GETFL, 0) | O_NONBLOCK);
+        fcntl(connFd, F_SETFL, fcntl(connFd, F_GETFL, 0) | O_NONBLOCK);
         queueReady.push(Socket(connFd));
     }
     launched = false;
-- 
2.43.0


From 402469cf1bb57f7cd36e220cbc8fad86aedaf7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:31 +0000
Subject: [PATCH 035/119] fix: stopping the HTTP server never finished and it
 could not be destroyed

---
 include/trident/utils/httpserver.h |  8 +++-
 src/trident/utils/httpserver.cpp   | 77 ++++++++++++++++++++++++------
 2 files changed, 70 insertions(+), 15 deletions(-)

diff --git a/include/trident/utils/httpserver.h b/include/trident/utils/httpserver.h
index 572ccb9..fe01d51 100644
--- a/include/trident/utils/httpserver.h
+++ b/include/trident/utils/httpserver.h
@@ -3,6 +3,8 @@
 
 #include <trident/utils/parallel.h>
 
+#include <atomic>
+#include <mutex>
 #include <string>
 #include <thread>
 #include <inttypes.h>
@@ -57,10 +59,12 @@ class HttpServer {
         };
 
         uint32_t port;
-        bool launched;
+        std::atomic<bool> launched;
+        std::atomic<bool> stopped;
         uint64_t maxLifeConn;
 
         int listenFd;
+        std::mutex mtxListen; //Protects listenFd
         struct sockaddr_in svrAdd, clntAdd;
         ConcurrentQueue<Socket> queueReady;
         std::vector<std::thread> threads;
@@ -94,6 +98,8 @@ class HttpServer {
 
         void stop();
 
+        ~HttpServer();
+
         bool isLaunched() {
             return launched;
         }
diff --git a/src/trident/utils/httpserver.cpp b/src/trident/utils/httpserver.cpp
index 0c23db6..6b102f9 100644
--- a/src/trident/utils/httpserver.cpp
+++ b/src/trident/utils/httpserver.cpp
@@ -19,8 +19,8 @@ namespace chr = std::chrono;
 HttpServer::HttpServer(uint32_t port,
         std::function<void(const std::string&, std::string&)> handler,
         uint32_t nthreads,
-        uint64_t maxLifeConn) : port(port),
-    maxLifeConn(maxLifeConn), handlerFunction(handler) {
+        uint64_t maxLifeConn) : port(port), launched(false), stopped(false),
+    maxLifeConn(maxLifeConn), listenFd(-1), handlerFunction(handler) {
         if (pipe(wakeFd) != 0) {
             LOG(ERRORL) << "Failed creating the pipe";
             throw 10;
@@ -164,7 +164,7 @@ void HttpServer::waitForData() {
     idletime.push_back(0);
     data.push_back("");
 
-    while (true) {
+    while (!stopped) {
         while (!queueWait.isEmpty()) {
             //Process the sockets
             Socket s;
@@ -267,12 +267,20 @@ void HttpServer::waitForData() {
             }
         }
     }
+
+    //The server is stopped: Close all the connections
+    for(int i = 1; i < events.size(); ++i) {
+        if (events[i].fd != -1) {
+            shutdown(events[i].fd, 2);
+            close(events[i].fd);
+        }
+    }
 }
 
 bool HttpServer::listn() {
     //Create the socket
-    listenFd = socket(PF_INET, SOCK_STREAM, IPPROTO_TCP);
-    if(listenFd < 0) {
+    int fd = socket(PF_INET, SOCK_STREAM, IPPROTO_TCP);
+    if(fd < 0) {
         return false;
     }
 
@@ -280,21 +288,26 @@ bool HttpServer::listn() {
     svrAdd.sin_family = AF_INET;
     svrAdd.sin_addr.s_addr = INADDR_ANY;
     svrAdd.sin_port = htons(port);
-    if(bind(listenFd, (struct sockaddr *)&svrAdd, sizeof(svrAdd)) < 0) {
+    if(bind(fd, (struct sockaddr *)&svrAdd, sizeof(svrAdd)) < 0) {
+        close(fd);
         return false;
     }
-    listen(listenFd, 10);
+    listen(fd, 10);
 
     //Start the thread that process the incoming sockets
     threadWait = std::thread(&HttpServer::waitForData, this);
     launched = true;
-    while (true) {
+    {
+        std::lock_guard<std::mutex> lock(mtxListen);
+        listenFd = fd;
+    }
+    while (!stopped) {
         //this is where client connects.
         socklen_t len = sizeof(clntAdd);
-        int connFd = accept(listenFd, (struct sockaddr *)&clntAdd, &len);
+        int connFd = accept(fd, (struct sockaddr *)&clntAdd, &len);
         if (connFd < 0) {
             if (errno == EBADF || errno == EINVAL) {
-                return false;
+                break;
             }
             if (errno != EINTR && errno != ECONNABORTED) {
                 //There might be too many open connections. Wait until some are closed
@@ -306,25 +319,61 @@ bool HttpServer::listn() {
         fcntl(connFd, F_SETFL, fcntl(connFd, F_GETFL, 0) | O_NONBLOCK);
         queueReady.push(Socket(connFd));
     }
+    bool ret = stopped;
+    stopped = true;
+    threadWait.join();
+    {
+        std::lock_guard<std::mutex> lock(mtxListen);
+        close(fd);
+        listenFd = -1;
+    }
     launched = false;
+    return ret;
 }
 
 void HttpServer::start() {
-    launched = false;
     listn();
 }
 
 void HttpServer::stop() {
+    stopped = true;
     //Stop all processing threads
     for(int i = 0; i < threads.size(); ++i)
         queueReady.push(Socket());
     for(auto &t : threads) {
-        t.join();
+        if (t.joinable()) {
+            t.join();
+        }
+    }
+    {
+        std::lock_guard<std::mutex> lock(mtxListen);
+        if (listenFd != -1) {
+            //Wake up the thread that waits for new connections
+            shutdown(listenFd, 2);
+        }
     }
-    close(listenFd);
     while (launched) {
-        //TODO Wait until the thread has stopped
+        //Wait until the thread has stopped
+        std::this_thread::sleep_for(chr::milliseconds(10));
     }
+    //Close the connections that were not processed
+    while (!queueReady.isEmpty()) {
+        Socket s;
+        queueReady.pop(s);
+        if (!s.isEOF()) {
+            close(s.getFD());
+        }
+    }
+    while (!queueWait.isEmpty()) {
+        Socket s;
+        queueWait.pop(s);
+        close(s.getFD());
+    }
+}
+
+HttpServer::~HttpServer() {
+    close(wakeFd[0]);
+    close(wakeFd[1]);
 }
 
 #endif
-- 
2.43.0


From bd9503535ebd3b54e82f6ae1b16d324d7ef845de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:56 +0000
Subject: [PATCH 036/119] fix: a failed name lookup of the HTTP client freed an
 uninitialised list, and disconnecting twice closed a foreign descriptor

---
 src/trident/utils/httpclient.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/trident/utils/httpclient.cpp b/src/trident/utils/httpclient.cpp
index b3f17d9..d415b3f 100644
--- a/src/trident/utils/httpclient.cpp
+++ b/src/trident/utils/httpclient.cpp
@@ -14,7 +14,13 @@
 //The Http Client and Server are only supported under Linux/Mac
 #else
 
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 bool HttpClient::connect() {
+    //Close the previous connection (if any)
+    disconnect();
     //Get IP address of the host
     struct addrinfo hints, *res, *res0;
     memset(&hints, 0, sizeof(hints));
@@ -23,7 +29,6 @@ bool HttpClient::connect() {
     std::string sport = std::to_string(port);
     int error = getaddrinfo(address.c_str(), sport.c_str(), &hints, &res0);
     if (error) {
-        freeaddrinfo(res0);
         return false;
     }
 
@@ -347,6 +352,7 @@ bool HttpClient::post(const std::string &path,
 void HttpClient::disconnect() {
     if (sockfd != -1) {
         close(sockfd);
+        sockfd = -1;
     }
 }
 
-- 
2.43.0


From 50326b9a145938f496cea1873a58690c365a13ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:56 +0000
Subject: [PATCH 037/119] fix: the HTTP client returned truncated or garbled
 bodies as success, refused valid responses and could hang

---
 include/trident/utils/httpclient.h |   8 +
 src/trident/utils/httpclient.cpp   | 240 +++++++++++++++--------------
 2 files changed, 133 insertions(+), 115 deletions(-)

diff --git a/include/trident/utils/httpclient.h b/include/trident/utils/httpclient.h
index 2bf6c26..a5fd7fb 100644
--- a/include/trident/utils/httpclient.h
+++ b/include/trident/utils/httpclient.h
@@ -26,6 +26,14 @@ class HttpClient {
                 std::string &headers,
                 std::string &response);
 
+        bool readResponse(const std::string &request,
+                std::string &headers,
+                std::string &response);
+
+        int receive(std::string &data);
+
+        bool receiveLine(std::string &data, std::string &line);
+
     public:
         class URL {
             public:
diff --git a/src/trident/utils/httpclient.cpp b/src/trident/utils/httpclient.cpp
index d415b3f..f29e557 100644
--- a/src/trident/utils/httpclient.cpp
+++ b/src/trident/utils/httpclient.cpp
@@ -3,6 +3,7 @@
 #include <kognac/utils.h>
 #include <kognac/logs.h>
 
+#include <cerrno>
 #include <iostream>
 #include <sstream>
 #include <algorithm>
@@ -163,137 +164,146 @@ std::string HttpClient::escape(const std::string &s) {
 bool HttpClient::getResponse(const std::string &request,
         std::string &headers,
         std::string &response) {
-    int ret = send(sockfd, request.c_str(), request.size(), 0);
-    if (ret < 0) {
-        return false;
-    } else {
-        char buffer[1024];
-        response = "";
-        headers = "";
+    bool ok = readResponse(request, headers, response);
+    if (!ok) {
+        //What is left of the response should not be taken for the next one
+        disconnect();
+    }
+    return ok;
+}
+
+bool HttpClient::readResponse(const std::string &request,
+        std::string &headers,
+        std::string &response) {
+    size_t sent = 0;
+    while (sent < request.size()) {
+        //Do not raise a signal if the server has closed the connection
+        auto ret = send(sockfd, request.c_str() + sent, request.size() - sent,
+                MSG_NOSIGNAL);
+        if (ret >= 0) {
+            sent += ret;
+        } else if (errno != EINTR) {
+            return false;
+        }
+    }
 
-        bool processedHeaders = false;
-        bool processBody = false;
+    response = "";
+    headers = "";
+    std::string data = ""; //Bytes received and not processed yet
 
-        //uint64_t totalSize = 0; //used if not chunked
-        bool isChunked = false;
-        size_t sizeChunk = 0;
-        size_t currentChunkSize = 0;
+    //Collect headers until '\r\n\r\n'
+    size_t idx;
+    while ((idx = data.find("\r\n\r\n")) == std::string::npos) {
+        if (receive(data) <= 0) {
+            return false;
+        }
+    }
+    headers = data.substr(0, idx);
+    data.erase(0, idx + 4);
 
-        //Pointers to the buffer
-        size_t sizebuffer = 0;
-        const char *remaining = buffer;
+    //Get the response type
+    if (headers.size() <= 13 || !Utils::starts_with(headers, "HTTP/1")) {
+        LOG(ERRORL) << "No HTTP header";
+        return false;
+    }
+    //Read the code. Should be 200
+    std::string code = headers.substr(9, 3);
+    if (code != "200") {
+        //not supported
+        LOG(ERRORL) << "No 200 code " << code;
+        return false;
+    }
 
+    //Determine the way to finish reading the body
+    std::string lheaders = headers + "\r\n";
+    std::transform(lheaders.begin(), lheaders.end(),
+            lheaders.begin(), ::tolower);
+    if (lheaders.find("\r\ntransfer-encoding: chunked") !=
+            std::string::npos) {
         while (true) {
-            if (sizebuffer <= 0) {
-                sizebuffer = recv(sockfd , buffer, 1024, 0);
-                remaining = buffer;
-                if (sizebuffer == 0 || sizebuffer == -1) {
-                    break;
-                }
+            //Get the size of the next chunk
+            std::string line;
+            if (!receiveLine(data, line)) {
+                return false;
             }
-
-            //Process the buffer
-            if (processBody) {
-                //I am reading content ...
-                while (sizebuffer > 0) {
-                    if (currentChunkSize < sizeChunk) {
-                        //Read until sizeChunk
-                        int remainingSize = std::min(
-                                (size_t)(sizeChunk - currentChunkSize),
-                                sizebuffer);
-                        response += std::string(remaining,
-                                remainingSize);
-                        currentChunkSize += remainingSize;
-                        remaining += remainingSize;
-                        sizebuffer -= remainingSize;
-                    } else if (currentChunkSize == sizeChunk) {
-                        //Must read the next chunk
-                        if (sizebuffer >= 1 && remaining[0] == '\r') {
-                            remaining++;
-                            sizebuffer--;
-                        }
-                        if (sizebuffer >= 1 && remaining[0] == '\n') {
-                            remaining++;
-                            sizebuffer--;
-                        }
-                        std::string rest = std::string(remaining, sizebuffer);
-                        auto end = rest.find("\r\n");
-                        if (end == std::string::npos) {
-                            LOG(ERRORL) << "Special case not handled. Must implement it ...";
-                            return false;
-                        }
-                        std::string sSizeChunk = rest.substr(0, end);
-                        std::stringstream ss; //convert the string to number
-                        ss << std::hex << sSizeChunk;
-                        ss >> sizeChunk;
-                        currentChunkSize = 0;
-                        remaining += end + 2;
-                        sizebuffer -= end + 2;
-                        if (sizeChunk == 0) {
-                            return true;
-                        }
-                    }
-                }
-
-                //If not chunked and read everthing then exit
-                if (!isChunked && currentChunkSize == sizeChunk) {
-                    return true;
-                }
-            } else if (!processedHeaders) {
-                //Collect headers until '\r\n\r\n'
-                std::string sbuffer = std::string(remaining, sizebuffer);
-                headers += sbuffer;
-                if (headers.find("\r\n\r\n") != std::string::npos) {
-                    auto idx = headers.find("\r\n\r\n");
-                    headers = headers.substr(0, idx);
-                    remaining += idx + 4;
-                    sizebuffer -= idx + 4;
-                    processedHeaders = true;
-                }
-                if (headers.size() > 13) {
-                    //Get the response type
-                    if (!Utils::starts_with(headers, "HTTP/1")) {
-                        LOG(ERRORL) << "No HTTP header";
+            size_t sizeChunk = 0;
+            std::stringstream ss; //convert the string to number
+            ss << std::hex << line;
+            if (!(ss >> sizeChunk)) {
+                return false;
+            }
+            if (sizeChunk == 0) {
+                //Skip the trailer, which ends with an empty line
+                do {
+                    if (!receiveLine(data, line)) {
                         return false;
-                    } else {
-                        //Read the code. Should be 200
-                        std::string code = headers.substr(9, 3);
-                        if (code != "200") {
-                            //not supported
-                            LOG(ERRORL) << "No 200 code " << code;
-                            return false;
-                        }
                     }
-                }
+                } while (!line.empty());
+                return true;
             }
-            if (processedHeaders && !processBody) {
-                //Determine the way to finish reading the body
-                std::string lheaders = headers;
-                std::transform(lheaders.begin(), lheaders.end(),
-                        lheaders.begin(), ::tolower);
-                if (lheaders.find("content-length:") !=
-                        std::string::npos) {
-                    isChunked = false;
-                    //Get the size of the response
-                    auto idx = lheaders.find("content-length:");
-                    std::string line = lheaders.substr(idx + 16);
-                    auto end = line.find("\r\n");
-                    std::stringstream ss;
-                    ss << line.substr(0, end);
-                    ss >> sizeChunk;
-                    processBody = true;
-                } else if (lheaders.
-                        find("transfer-encoding: chunked") !=
-                        std::string::npos) {
-                    isChunked = true;
-                    processBody = true;
+            while (data.size() < sizeChunk) {
+                if (receive(data) <= 0) {
+                    return false;
                 }
             }
+            response += data.substr(0, sizeChunk);
+            data.erase(0, sizeChunk);
+            //The chunk is terminated by an empty line
+            if (!receiveLine(data, line) || !line.empty()) {
+                return false;
+            }
         }
+    } else if ((idx = lheaders.find("\r\ncontent-length:")) !=
+            std::string::npos) {
+        //Get the size of the response
+        size_t sizeBody = 0;
+        std::stringstream ss;
+        ss << lheaders.substr(idx + 17, lheaders.find("\r\n", idx + 17) - idx - 17);
+        if (!(ss >> sizeBody)) {
+            return false;
+        }
+        while (data.size() < sizeBody) {
+            if (receive(data) <= 0) {
+                return false;
+            }
+        }
+        response = data.substr(0, sizeBody);
         return true;
+    } else {
+        //The body ends when the server closes the connection
+        int ret;
+        while ((ret = receive(data)) > 0) {
+        }
+        response = data;
+        return ret == 0;
     }
 }
 
+int HttpClient::receive(std::string &data) {
+    char buffer[1024];
+    while (true) {
+        auto ret = recv(sockfd, buffer, 1024, 0);
+        if (ret > 0) {
+            data.append(buffer, ret);
+        }
+        if (ret >= 0 || errno != EINTR) {
+            return ret;
+        }
+    }
+}
+
+bool HttpClient::receiveLine(std::string &data, std::string &line) {
+    size_t idx;
+    while ((idx = data.find("\r\n")) == std::string::npos) {
+        if (receive(data) <= 0) {
+            return false;
+        }
+    }
+    line = data.substr(0, idx);
+    data.erase(0, idx + 2);
+    return true;
+}
+
 bool HttpClient::get(const std::string &path,
         std::string &headers,
         std::string &response,
-- 
2.43.0


From 4faca200dcc28ef01dc95b8cbf6283baa0395b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:37 +0000
Subject: [PATCH 038/119] fix: enforce the equality of a variable that occurs
 more than once in a triple pattern

---
 rdf3x/src/cts/CodeGen.cpp | 21 +++++++++++++++++++--
 rdf3x/src/cts/PlanGen.cpp |  7 +++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 33f22f1..486e300 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -87,6 +87,20 @@ static Operator* translateValuesScan(Runtime& runtime, const map<unsigned, Regis
     return new ValuesScan(regs, node.values, node.values.size() / node.variables.size());
 }
 //---------------------------------------------------------------------------
+static Operator* addRepeatedVariableSelection(Runtime& runtime, Operator* scan, const QueryGraph::Node& node, Register* subject, Register* predicate, Register* object)
+    // A variable that occurs several times in a pattern must have the same value everywhere
+{
+    Selection::Predicate* same = 0;
+    if ((!node.constSubject) && (!node.constPredicate) && (node.subject == node.predicate))
+        same = new Selection::Equal(new Selection::Variable(subject), new Selection::Variable(predicate));
+    if ((!node.constObject) && (((!node.constSubject) && (node.subject == node.object)) || ((!node.constPredicate) && (node.predicate == node.object)))) {
+        Register* other = ((!node.constSubject) && (node.subject == node.object)) ? subject : predicate;
+        Selection::Predicate* p = new Selection::Equal(new Selection::Variable(other), new Selection::Variable(object));
+        same = same ? new Selection::And(same, p) : p;
+    }
+    return same ? new Selection(scan, runtime, same, scan->getExpectedOutputCardinality()) : scan;
+}
+//---------------------------------------------------------------------------
 static Operator* translateIndexScan(Runtime& runtime, const map<unsigned, Register*>& context, const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<const QueryGraph::Node*, unsigned>& registers, Plan* plan)
     // Translate an index scan into an operator tree
 {
@@ -103,11 +117,13 @@ static Operator* translateIndexScan(Runtime& runtime, const map<unsigned, Regist
     //if (runtime.hasDifferentialIndex())
     //    return runtime.getDifferentialIndex().createScan(static_cast<Database::DataOrder>(plan->opArg), subject, constSubject, predicate, constPredicate, object, constObject, plan->cardinality);
 
-    return IndexScan::create(runtime.getDatabase(), static_cast<DBLayer::DataOrder>(plan->opArg),
+    Operator* scan = IndexScan::create(runtime.getDatabase(), static_cast<DBLayer::DataOrder>(plan->opArg),
             subject, constSubject,
             predicate, constPredicate,
             object, constObject,
             plan->cardinality);
+
+    return addRepeatedVariableSelection(runtime, scan, node, subject, predicate, object);
 }
 //---------------------------------------------------------------------------
 static Operator* translateAggregatedIndexScan(Runtime& runtime, const map<unsigned, Register*>& context, const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<const QueryGraph::Node*, unsigned>& registers, Plan* plan)
@@ -126,11 +142,12 @@ static Operator* translateAggregatedIndexScan(Runtime& runtime, const map<unsign
     // And return the operator
     //if (runtime.hasDifferentialIndex())
     //return runtime.getDifferentialIndex().createAggregatedScan(static_cast<Database::DataOrder>(plan->opArg), subject, constSubject, predicate, constPredicate, object, constObject, plan->cardinality);
-    return AggregatedIndexScan::create(runtime.getDatabase(), order,
+    Operator* scan = AggregatedIndexScan::create(runtime.getDatabase(), order,
             subject, constSubject,
             predicate, constPredicate,
             object, constObject,
             plan->cardinality);
+    return addRepeatedVariableSelection(runtime, scan, node, subject, predicate, object);
 }
 //---------------------------------------------------------------------------
 static Operator* translateFullyAggregatedIndexScan(Runtime& runtime, const map<unsigned, Register*>& context, const set<unsigned>& projection, map<unsigned, Register*>& bindings, const map<const QueryGraph::Node*, unsigned>& registers, Plan* plan)
diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index 32b685b..d5cfb50 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -466,6 +466,13 @@ static bool isUnused(const QueryGraph::SubQuery& query, const QueryGraph::Node&
 static bool isUnused(const QueryGraph& query, const QueryGraph::Node& node, unsigned val)
     // Check if a variable is unused outside its primary pattern
 {
+    // A variable that occurs more than once in the pattern restricts it
+    unsigned occurrences = ((!node.constSubject) && (node.subject == val))
+        + ((!node.constPredicate) && (node.predicate == val))
+        + ((!node.constObject) && (node.object == val));
+    if (occurrences > 1)
+        return false;
+
     for (QueryGraph::projection_iterator iter = query.projectionBegin(), limit = query.projectionEnd(); iter != limit; ++iter)
         if ((*iter) == val)
             return false;
-- 
2.43.0


From 0913ba470bbff72cde49abc1e2cf39289d90d6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:37 +0000
Subject: [PATCH 039/119] fix: skipping to a key in a reordered iterator must
 not relabel the current key

---
 src/trident/iterators/reorderitr.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/trident/iterators/reorderitr.cpp b/src/trident/iterators/reorderitr.cpp
index cf4424b..1411631 100644
--- a/src/trident/iterators/reorderitr.cpp
+++ b/src/trident/iterators/reorderitr.cpp
@@ -296,20 +296,15 @@ void ReOrderItr::gotoKey(int64_t newkey) {
     if (newkey <= key) {
 	return;
     }
-    while (nextKeyIndex < array.size()) {
-	key = array[nextKeyIndex].first;
-	if (key >= newkey) {
-	    break;
-	}
+    while (nextKeyIndex < array.size() && array[nextKeyIndex].first < newkey) {
 	nextKeyIndex++;
     }
-    if (nextKeyIndex < array.size()) {
-	if (itr != NULL && itr != m_itr) {
-	    itr->clear();
-	    delete itr;
-	}
-	itr = NULL;
+    //Skip the remaining elements of the current key
+    if (itr != NULL && itr != m_itr) {
+	itr->clear();
+	delete itr;
     }
+    itr = NULL;
     hasNext();
 }
 
-- 
2.43.0


From ddaac1ee05b0980624f9dbdec579076821415ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:37 +0000
Subject: [PATCH 040/119] fix: moving to the current value must keep its count
 when the last column is ignored

---
 include/trident/binarytables/newrowtable.h |  4 ++-
 include/trident/iterators/arrayitr.h       |  4 ++-
 src/trident/iterators/arrayitr.cpp         | 37 +++++++++++++---------
 3 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/include/trident/binarytables/newrowtable.h b/include/trident/binarytables/newrowtable.h
index ac53d7f..60f0c96 100644
--- a/include/trident/binarytables/newrowtable.h
+++ b/include/trident/binarytables/newrowtable.h
@@ -283,7 +283,9 @@ class NewRowTable: public AbsNewTable {
                     }
                 }
             } else {
-                current -= Reader1::size() + Reader2::size();
+                //Go back to (the first element of) the current value
+                current -= (isSecondColumnIgnored ? count : 1) *
+                    (Reader1::size() + Reader2::size());
             }
 
         }
diff --git a/include/trident/iterators/arrayitr.h b/include/trident/iterators/arrayitr.h
index a165e5a..2cfd2e2 100644
--- a/include/trident/iterators/arrayitr.h
+++ b/include/trident/iterators/arrayitr.h
@@ -44,7 +44,9 @@ private:
     bool hasNextChecked;
     bool n;
     bool ignSecondColumn;
-    int64_t countElems;
+    int64_t countElems, markCount;
+
+    void skipSecondColumn();
 
     static int binarySearch(Pairs *array,
                             int start, int end, uint64_t key);
diff --git a/src/trident/iterators/arrayitr.cpp b/src/trident/iterators/arrayitr.cpp
index b57f747..c352af1 100644
--- a/src/trident/iterators/arrayitr.cpp
+++ b/src/trident/iterators/arrayitr.cpp
@@ -72,26 +72,25 @@ int64_t ArrayItr::getCount() {
         throw 10;
     }
 
-    if (countElems == 0) {
-        countElems = 1;
-        //Pos points to the next element than the current one. This is
-        //because this method is called after next()
-        while ((pos) < nElements && array->at(pos).first ==
-                array->at(pos - 1).first) {
-            pos++;
-            countElems++;
-        }
-    }
-
     return countElems;
 }
 
+void ArrayItr::skipSecondColumn() {
+    //Pos points to the next element than the current one
+    while (pos < nElements && array->at(pos).first == v1) {
+        pos++;
+        countElems++;
+    }
+}
+
 void ArrayItr::next() {
     v1 = (int64_t)(array->at(pos).first);
     v2 = (int64_t)(array->at(pos).second);
     pos++;
     hasNextChecked = false;
-    countElems = 0;
+    countElems = 1;
+    if (ignSecondColumn)
+        skipSecondColumn();
 }
 
 void ArrayItr::clear() {
@@ -102,13 +101,14 @@ void ArrayItr::mark() {
     markPos = pos;
     markV1 = v1;
     markV2 = v2;
+    markCount = countElems;
 }
 
 void ArrayItr::reset(const char i) {
     pos = markPos;
     v1 = markV1;
     v2 = markV2;
-    countElems = 0;
+    countElems = markCount;
     hasNextChecked = false;
 }
 
@@ -118,7 +118,7 @@ void ArrayItr::moveto(const int64_t c1, const int64_t c2) {
 
     if (v1 >= c1 && (ignSecondColumn || v1 > c1 || v2 >= c2)) {
         // Position is backwards.
-        pos--; //so that hasNext will move to the same point
+        pos -= countElems; //so that hasNext will move to the same point
         hasNextChecked = true;
         n = true;
         return;
@@ -137,7 +137,14 @@ void ArrayItr::moveto(const int64_t c1, const int64_t c2) {
 }
 
 void ArrayItr::ignoreSecondColumn() {
-    ignSecondColumn = true;
+    if (!ignSecondColumn) {
+        ignSecondColumn = true;
+        if (v1 != -1) {
+            //Skip the other elements with the current value
+            skipSecondColumn();
+            hasNextChecked = false;
+        }
+    }
 }
 
 int ArrayItr::binarySearch(Pairs *array, int start, int end, uint64_t key) {
-- 
2.43.0


From 2bfd4eb91f674b6f70cbb4c7356981c85ec0d605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:37 +0000
Subject: [PATCH 041/119] fix: scans over pending updates must support skipping
 to a key or to a pair

---
 include/trident/iterators/rmitr.h          |  2 ++
 src/trident/iterators/compositescanitr.cpp | 29 +++++++++++++++++++---
 src/trident/iterators/diffscanitr.cpp      |  7 +++++-
 src/trident/iterators/rmitr.cpp            |  8 ++++++
 4 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/include/trident/iterators/rmitr.h b/include/trident/iterators/rmitr.h
index 2a6ab1c..f56209a 100644
--- a/include/trident/iterators/rmitr.h
+++ b/include/trident/iterators/rmitr.h
@@ -89,6 +89,8 @@ public:
 
     void moveto(const int64_t c1, const int64_t c2);
 
+    void gotoKey(int64_t keyToSearch);
+
     void init(PairItr *itr, PairItr *rmitr, int64_t nfirstterms);
 
     bool hasNext();
diff --git a/src/trident/iterators/compositescanitr.cpp b/src/trident/iterators/compositescanitr.cpp
index 821043b..ec8ce60 100644
--- a/src/trident/iterators/compositescanitr.cpp
+++ b/src/trident/iterators/compositescanitr.cpp
@@ -24,7 +24,18 @@
 #include <trident/kb/querier.h>
 
 void CompositeScanItr::gotoKey(int64_t keyToSearch) {
-    throw 10; //not yet implemented
+    //The children are always positioned on the next element to return
+    for (int i = children.size() - 1; i >= 0; --i) {
+        if (children[i]->getKey() < keyToSearch) {
+            children[i]->gotoKey(keyToSearch);
+            if (children[i]->hasNext()) {
+                children[i]->next();
+            } else {
+                children.erase(children.begin() + i);
+            }
+        }
+    }
+    hnc = false;
 }
 
 bool CompositeScanItr::hasNext() {
@@ -94,8 +105,20 @@ void CompositeScanItr::setQuerier(Querier *q) {
 }
 
 void CompositeScanItr::moveto(const int64_t c1, const int64_t c2) {
-    for (int i = 0; i < children.size(); ++i) {
-        children[i]->moveto(c1, c2);
+    //The children are always positioned on the next element to return. Only the
+    //ones that are before the target (on the current key) must move
+    for (int i = children.size() - 1; i >= 0; --i) {
+        PairItr *child = children[i];
+        if (child->getKey() == getKey() && (child->getValue1() < c1 ||
+                    (!ignseccol && child->getValue1() == c1 &&
+                     child->getValue2() < c2))) {
+            child->moveto(c1, c2);
+            if (child->hasNext()) {
+                child->next();
+            } else {
+                children.erase(children.begin() + i);
+            }
+        }
     }
     hnc = false;
 }
diff --git a/src/trident/iterators/diffscanitr.cpp b/src/trident/iterators/diffscanitr.cpp
index 8eacb76..21a2da7 100644
--- a/src/trident/iterators/diffscanitr.cpp
+++ b/src/trident/iterators/diffscanitr.cpp
@@ -24,7 +24,12 @@
 #include <trident/kb/querier.h>
 
 void DiffScanItr::gotoKey(int64_t keyToSearch) {
-    throw 10; //not yet implemented
+    while (hasNext() && currentkey < keyToSearch) {
+        //Skip the remaining elements of this key
+        q->releaseItr(currentItr);
+        currentItr = NULL;
+        hnc = false;
+    }
 }
 
 bool DiffScanItr::hasNext() {
diff --git a/src/trident/iterators/rmitr.cpp b/src/trident/iterators/rmitr.cpp
index 1cc123e..dc3250b 100644
--- a/src/trident/iterators/rmitr.cpp
+++ b/src/trident/iterators/rmitr.cpp
@@ -103,6 +103,14 @@ void RmItr::moveto(const int64_t c1, const int64_t c2) {
     //rmitr reaches the new position in hasNext()
 }
 
+void RmItr::gotoKey(int64_t keyToSearch) {
+    if (stay && key < keyToSearch)
+        stay = false;
+    while (!stay && readAhead() && nextKey < keyToSearch) {
+        hnc = false;
+    }
+}
+
 bool RmItr::hasNext() {
     return stay || readAhead();
 }
-- 
2.43.0


From 5895535ed2420751ce0a25ab24733c374bc37c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:37 +0000
Subject: [PATCH 042/119] fix: stores without a sample must not use sampling to
 estimate the selectivity of joins

---
 include/layers/TridentLayer.hpp | 2 +-
 include/trident/kb/querier.h    | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/layers/TridentLayer.hpp b/include/layers/TridentLayer.hpp
index 755e99e..49f3145 100644
--- a/include/layers/TridentLayer.hpp
+++ b/include/layers/TridentLayer.hpp
@@ -168,7 +168,7 @@ class TridentLayer : public DBLayer {
         TridentLayer(KB &kb) : kb(kb), dict(kb.getDictMgmt()), q(kb.query()),
         bifSampl(true), nindices(kb.getNIndices()), supportBuffer(new
                 char[MAX_TERM_SIZE]) {
-	    if (kb.getNIndices() < 6) {
+	    if (kb.getNIndices() < 6 || !q->hasSampler()) {
 		disableBifocalSampling();
 	    }
 	}
diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index 7d18b6e..24f3670 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -589,6 +589,10 @@ class Querier {
             return dict;
         }
 
+        bool hasSampler() const {
+            return sampler != NULL;
+        }
+
         Querier &getSampler() {
             if (sampler == NULL) {
                 LOG(ERRORL) << "No sampler available";
-- 
2.43.0


From 64ef9433259c229da6bd9ebfeeb3cebcdefb12c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:37 +0000
Subject: [PATCH 043/119] fix: an aggregated scan limited to one key must
 return it with the number of its triples

---
 include/layers/TridentLayer.hpp |  4 +++-
 src/layers/TridentLayer.cpp     | 29 ++++++++++++++++++++++++++++-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/include/layers/TridentLayer.hpp b/include/layers/TridentLayer.hpp
index 49f3145..a63b24d 100644
--- a/include/layers/TridentLayer.hpp
+++ b/include/layers/TridentLayer.hpp
@@ -41,6 +41,7 @@ class TridentScan : public DBLayer::Scan {
         Querier *q;
         DBLayer::Hint *hint;
         size_t countHint;
+        uint64_t singleKeyCount; //Set if the scan returns only one aggregated key
 
     public:
         TridentScan(const int perm, const DBLayer::Aggr_t a,
@@ -48,7 +49,8 @@ class TridentScan : public DBLayer::Scan {
         itr(NULL),
         q(q),
         hint(hint),
-        countHint(0) {
+        countHint(0),
+        singleKeyCount(0) {
         }
 
         uint64_t getValue1();
diff --git a/src/layers/TridentLayer.cpp b/src/layers/TridentLayer.cpp
index 85fa230..a3b9071 100644
--- a/src/layers/TridentLayer.cpp
+++ b/src/layers/TridentLayer.cpp
@@ -1079,11 +1079,20 @@ uint64_t TridentScan::getValue3() {
 }
 
 uint64_t TridentScan::getCount() {
+    if (singleKeyCount)
+        return singleKeyCount;
     return itr->getCount();
 }
 
 bool TridentScan::next() {
 
+    if (singleKeyCount) {
+        singleKeyCount = 0;
+        q->releaseItr(itr);
+        itr = NULL;
+        return false;
+    }
+
     if (hint && countHint == 0) {
         uint64_t s = 0, p = 0, o = 0;
         if (a == DBLayer::AGGR_SKIP_LAST) {
@@ -1138,9 +1147,27 @@ bool TridentScan::first() {
 }
 
 bool TridentScan::first(uint64_t el, bool constrained) {
-    if (a != DBLayer::Aggr_t::AGGR_NO)
+    if (a == DBLayer::Aggr_t::AGGR_SKIP_LAST)
         throw 10; //Not supported
 
+    if (a == DBLayer::Aggr_t::AGGR_SKIP_2LAST) {
+        if (!constrained)
+            return first();
+        //A single entry: the key, with the number of its triples
+        itr = q->getPermuted(perm, el, -1, -1, true);
+        if (!itr->hasNext()) {
+            q->releaseItr(itr);
+            itr = NULL;
+            return false;
+        }
+        itr->next();
+        const int pos = (perm == IDX_SPO || perm == IDX_SOP) ? 0 :
+            (perm == IDX_PSO || perm == IDX_POS) ? 1 : 2;
+        singleKeyCount = q->getCard(pos == 0 ? el : -1, pos == 1 ? el : -1,
+                pos == 2 ? el : -1);
+        return true;
+    }
+
     if (constrained)
         itr = q->getPermuted(perm, el, -1, -1, true);
     else
-- 
2.43.0


From ae5db3316832a15796cef4ab2896764e0d787a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:44 +0000
Subject: [PATCH 044/119] fix: MINUS: constants of the subtracted group reach
 the plan, its patterns keep shared variables, disjoint groups remove nothing

---
 rdf3x/src/cts/PlanGen.cpp          | 3 +++
 rdf3x/src/cts/SemanticAnalysis.cpp | 1 +
 rdf3x/src/rts/Minus.cpp            | 6 +++++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/PlanGen.cpp b/rdf3x/src/cts/PlanGen.cpp
index d5cfb50..507f9e9 100644
--- a/rdf3x/src/cts/PlanGen.cpp
+++ b/rdf3x/src/cts/PlanGen.cpp
@@ -460,6 +460,9 @@ static bool isUnused(const QueryGraph::SubQuery& query, const QueryGraph::Node&
     for (std::vector<std::shared_ptr<QueryGraph>>::const_iterator itr = query.subqueries.begin(); itr != query.subqueries.end(); ++itr)
         if (! isUnused((*itr)->getQuery(), node, val))
             return false;
+    for (const auto &itr : query.minuses)
+        if (! isUnused(itr->getQuery(), node, val))
+            return false;
     return true;
 }
 //---------------------------------------------------------------------------
diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index d9df672..90c840f 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -680,6 +680,7 @@ static bool transformSubquery(SemanticAnalysis *myself, DBLayer& dict,
         if (!transformSubquery(myself, dict, diffIndex, it, q->getQuery(), tempQueryDict, currentQueryGraph)) {
             continue;
         }
+        q->constructEdges();
         output.minuses.push_back(q);
     }
 
diff --git a/rdf3x/src/rts/Minus.cpp b/rdf3x/src/rts/Minus.cpp
index a9926eb..86f102b 100644
--- a/rdf3x/src/rts/Minus.cpp
+++ b/rdf3x/src/rts/Minus.cpp
@@ -26,6 +26,10 @@ uint64_t Minus::first() {
     uint64_t res = mainTree->first();
     bool found = false;
     if (res) {
+        if (row.empty()) {
+            //No variable is shared: nothing can be removed
+            return res;
+        }
         if (!loaded) {
             //Load the hashmap
             if (minusTree->first()) {
@@ -70,7 +74,7 @@ uint64_t Minus::first() {
 uint64_t Minus::next() {
     uint64_t res = mainTree->next();
     bool found = false;
-    if (res) {
+    if (res && !row.empty()) {
         do {
             unsigned i = 0;
             for(auto itr : regsToCheck) {
-- 
2.43.0


From 20f2509e1ab4d45486abd9749e2c5680ea2fd13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:21 +0000
Subject: [PATCH 045/119] fix: LIMIT and OFFSET count rows, not compressed
 entries, when results are collected

---
 rdf3x/src/rts/ResultsPrinter.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rdf3x/src/rts/ResultsPrinter.cpp b/rdf3x/src/rts/ResultsPrinter.cpp
index 8023223..1e2b2c0 100644
--- a/rdf3x/src/rts/ResultsPrinter.cpp
+++ b/rdf3x/src/rts/ResultsPrinter.cpp
@@ -351,21 +351,25 @@ uint64_t ResultsPrinter::first()
     uint64_t entryCount = 0;
     do {
         if (count < minCount) continue;
+        //Number of rows that the entry will become once it is printed
+        uint64_t rows = (duplicateHandling == ExpandDuplicates) ? count : 1;
 	if (o > 0)  {
-	    if (o >= count) {
-		o -= count;
+	    if (o >= rows) {
+		o -= rows;
 		continue;
 	    }
-	    count -= o;
+	    rows -= o;
 	    o = 0;
 	}
+        if (rows > this->limit - entryCount) rows = this->limit - entryCount;
+        if (duplicateHandling == ExpandDuplicates) count = rows;
         results.push_back(count);
         for (vector<Register*>::const_iterator iter = output.begin(), limit = output.end(); iter != limit; ++iter) {
             uint64_t id = (*iter)->value;
             results.push_back(id);
             if (~id && !DictMgmt::isnumeric(id)) stringCache[id];
         }
-        if ((++entryCount) >= this->limit) break;
+        if ((entryCount += rows) >= this->limit) break;
     } while ((count = input->next()) != 0);
 
     //Data structures to maintain a permanent copy of the strings
-- 
2.43.0


From d2c9f1bb7d506cd44b75f667715d67360f95c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:46 +0000
Subject: [PATCH 046/119] fix: MINUS does not leave variables it only needs for
 its check among the output columns

---
 rdf3x/src/cts/CodeGen.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 486e300..ee5ea44 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -878,6 +878,13 @@ static Operator* translateMinus(Runtime& runtime,const map<unsigned, Register*>&
                     minusBindings.find(v)->second));
     }
 
+    //The variables that were added only for the check are not part of the output
+    for (auto v : varsToCheck) {
+        if (!projection.count(v)) {
+            bindings.erase(v);
+        }
+    }
+
     Operator *result = new Minus(mainTree, minusTree, regsToCheck,
             plan->left->cardinality);
     return result;
-- 
2.43.0


From decc1763965b66bbb728acb550f1a609e80af98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:05 +0000
Subject: [PATCH 047/119] fix: an optional, union, minus or filter group does
 not restrict the scans of the rest of the query through shared domains

---
 rdf3x/src/cts/CodeGen.cpp | 68 ++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 26 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index ee5ea44..6caa434 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -35,6 +35,7 @@
 #include <cstdlib>
 #include <map>
 #include <set>
+#include <list>
 #include <cassert>
 //---------------------------------------------------------------------------
 // RDF-3X
@@ -1098,8 +1099,19 @@ static Operator* translatePlan(Runtime& runtime, const map<unsigned, Register*>&
     return result;
 }
 //---------------------------------------------------------------------------
-static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, const QueryGraph& query, unsigned id);
-static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, const QueryGraph::SubQuery& query, unsigned id)
+static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, list<map<unsigned, set<unsigned> > >& innerClasses, const QueryGraph& query, unsigned id);
+static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, list<map<unsigned, set<unsigned> > >& innerClasses, const QueryGraph::SubQuery& query, unsigned id);
+template<typename Q>
+static unsigned allocateInnerRegisters(map<const QueryGraph::Node*, unsigned>& registers, list<map<unsigned, set<unsigned> > >& innerClasses, const Q& query, unsigned id)
+    // Allocate the registers of a part that does not have to match for the rest of the query to match
+    // (or has a scope of its own). It must not share its domains, otherwise it would restrict the rest.
+{
+    innerClasses.emplace_back();
+    map<unsigned, set<unsigned> >& registerClasses = innerClasses.back();
+    return allocateRegisters(registers, registerClasses, innerClasses, query, id);
+}
+//---------------------------------------------------------------------------
+static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, list<map<unsigned, set<unsigned> > >& innerClasses, const QueryGraph::SubQuery& query, unsigned id)
     // Allocate registers
 {
     for (vector<QueryGraph::Node>::const_iterator iter = query.nodes.begin(), limit = query.nodes.end(); iter != limit; ++iter) {
@@ -1115,11 +1127,11 @@ static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& regist
     }
 
     for (vector<QueryGraph::SubQuery>::const_iterator iter = query.optional.begin(), limit = query.optional.end(); iter != limit; ++iter)
-        id = allocateRegisters(registers, registerClasses, (*iter), id);
+        id = allocateInnerRegisters(registers, innerClasses, (*iter), id);
 
     for (vector<vector<QueryGraph::SubQuery> >::const_iterator iter = query.unions.begin(), limit = query.unions.end(); iter != limit; ++iter)
         for (vector<QueryGraph::SubQuery>::const_iterator iter2 = (*iter).begin(), limit2 = (*iter).end(); iter2 != limit2; ++iter2)
-            id = allocateRegisters(registers, registerClasses, (*iter2), id);
+            id = allocateInnerRegisters(registers, innerClasses, (*iter2), id);
 
     for (vector<QueryGraph::TableFunction>::const_iterator iter = query.tableFunctions.begin(), limit = query.tableFunctions.end(); iter != limit; ++iter) {
         registers[reinterpret_cast<const QueryGraph::Node*>(&(*iter))] = id;
@@ -1133,14 +1145,14 @@ static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& regist
             itr != query.subqueries.end(); ++itr) {
         QueryGraph* subq = itr->get();
         // id = allocateRegisters(registers, registerClasses, *subq->getQuery(), id);
-        id = allocateRegisters(registers, registerClasses, *subq, id);
+        id = allocateInnerRegisters(registers, innerClasses, *subq, id);
     }
 
     for (std::vector<std::shared_ptr<QueryGraph>>::const_iterator itr = query.minuses.begin();
             itr != query.minuses.end(); ++itr) {
         QueryGraph* subq = itr->get();
         // id = allocateRegisters(registers, registerClasses, subq->getQuery(), id);
-        id = allocateRegisters(registers, registerClasses, *subq, id);
+        id = allocateInnerRegisters(registers, innerClasses, *subq, id);
     }
 
     for (auto itr = query.valueNodes.begin();
@@ -1153,18 +1165,18 @@ static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& regist
     }
     for(auto itr = query.filters.begin(); itr != query.filters.end(); ++itr) {
         if (itr->subpattern != NULL) {
-            id = allocateRegisters(registers, registerClasses, *itr->subpattern.get(), id);
+            id = allocateInnerRegisters(registers, innerClasses, *itr->subpattern.get(), id);
         }
         if (itr->subquery != NULL) {
-            id = allocateRegisters(registers, registerClasses, *itr->subquery.get(), id);
+            id = allocateInnerRegisters(registers, innerClasses, *itr->subquery.get(), id);
         }
     }
     return id;
 }
 //---------------------------------------------------------------------------
-static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, const QueryGraph& query, unsigned id)
+static unsigned allocateRegisters(map<const QueryGraph::Node*, unsigned>& registers, map<unsigned, set<unsigned> >& registerClasses, list<map<unsigned, set<unsigned> > >& innerClasses, const QueryGraph& query, unsigned id)
 {
-    id = allocateRegisters(registers, registerClasses, query.getQuery(), id);
+    id = allocateRegisters(registers, registerClasses, innerClasses, query.getQuery(), id);
     //Also process the global functions
     for (vector<QueryGraph::TableFunction>::const_iterator iter = query.c_getGlobalAssignments().begin(), limit = query.c_getGlobalAssignments().end(); iter != limit; ++iter) {
         registers[reinterpret_cast<const QueryGraph::Node*>(&(*iter))] = id;
@@ -1236,32 +1248,36 @@ void CodeGen::prepareRuntime(Runtime &runtime,
         const QueryGraph& query,
         std::map<const QueryGraph::Node*, unsigned> &registers)
 {
-    map<unsigned, set<unsigned> > registerClasses;
-    unsigned registerCount = allocateRegisters(registers, registerClasses, query, 0);
+    list<map<unsigned, set<unsigned> > > allClasses;
+    unsigned registerCount = allocateInnerRegisters(registers, allClasses, query, 0);
     runtime.allocateRegisters(registerCount + 1);
     // Prepare domain information for join attributes
     {
         // Count the required number of domains
         unsigned domainCount = 0;
-        for (map<unsigned, set<unsigned> >::const_iterator iter = registerClasses.begin(), limit = registerClasses.end(); iter != limit; ++iter) {
-            // No join attribute?
-            if ((*iter).second.size() < 2)
-                continue;
-            // We have a new domain
-            domainCount++;
+        for (const auto &registerClasses : allClasses) {
+            for (map<unsigned, set<unsigned> >::const_iterator iter = registerClasses.begin(), limit = registerClasses.end(); iter != limit; ++iter) {
+                // No join attribute?
+                if ((*iter).second.size() < 2)
+                    continue;
+                // We have a new domain
+                domainCount++;
+            }
         }
         runtime.allocateDomainDescriptions(domainCount);
 
         // And assign registers to domains
         domainCount = 0;
-        for (map<unsigned, set<unsigned> >::const_iterator iter = registerClasses.begin(), limit = registerClasses.end(); iter != limit; ++iter) {
-            // No join attribute?
-            if ((*iter).second.size() < 2)
-                continue;
-            // Lookup the register addresses
-            PotentialDomainDescription* domain = runtime.getDomainDescription(domainCount++);
-            for (set<unsigned>::const_iterator iter2 = (*iter).second.begin(), limit2 = (*iter).second.end(); iter2 != limit2; ++iter2)
-                runtime.getRegister(*iter2)->domain = domain;
+        for (const auto &registerClasses : allClasses) {
+            for (map<unsigned, set<unsigned> >::const_iterator iter = registerClasses.begin(), limit = registerClasses.end(); iter != limit; ++iter) {
+                // No join attribute?
+                if ((*iter).second.size() < 2)
+                    continue;
+                // Lookup the register addresses
+                PotentialDomainDescription* domain = runtime.getDomainDescription(domainCount++);
+                for (set<unsigned>::const_iterator iter2 = (*iter).second.begin(), limit2 = (*iter).second.end(); iter2 != limit2; ++iter2)
+                    runtime.getRegister(*iter2)->domain = domain;
+            }
         }
     }
 }
-- 
2.43.0


From 511d3e4991a460ed166cf241c9d468bcd3588afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:26 +0000
Subject: [PATCH 048/119] fix: join estimate for patterns that share three
 columns does not abort the query

---
 src/layers/TridentLayer.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/layers/TridentLayer.cpp b/src/layers/TridentLayer.cpp
index a3b9071..8a641bd 100644
--- a/src/layers/TridentLayer.cpp
+++ b/src/layers/TridentLayer.cpp
@@ -464,7 +464,17 @@ double TridentLayer::bifocalSampling_SparseAny(bool valueL1,
     //Remove from t2 all elements found in t1. This is to simulate a removal
     //of all dense keys from the left relation (see bifocal paper for details).
     std::vector<std::pair<uint8_t, uint8_t>> posJoins = t1->getPosJoins(t2.get());
-    assert(posJoins.size() < 3);
+    //Two join columns are enough for an estimate
+    for (size_t i = 1; i < posJoins.size();) {
+        if (i > 1 || posJoins[i].first == posJoins[0].first) {
+            posJoins.erase(posJoins.begin() + i);
+        } else {
+            ++i;
+        }
+    }
+    if (posJoins.empty()) {
+        return 0;
+    }
     std::set<uint64_t> keys1;
     std::set<std::pair<uint64_t, uint64_t>> keys2;
     for (size_t i = 0; i < t1->getNRows(); ++i) {
-- 
2.43.0


From c064017645629bcae5b8f0fd904fbc2a3b974d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:20 +0000
Subject: [PATCH 049/119] fix: ORDER BY compared terms without their last
 characters and with the type of another term

---
 src/layers/TridentLayer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/layers/TridentLayer.cpp b/src/layers/TridentLayer.cpp
index 8a641bd..3ca9423 100644
--- a/src/layers/TridentLayer.cpp
+++ b/src/layers/TridentLayer.cpp
@@ -122,9 +122,9 @@ bool TridentLayer::lookupById(uint64_t id,
     //Subtypes are not supported. Set default value to zero.
     subType = 0;
     if (resp) {
-        if (supportBuffer[0] == '<') {
-            output = output + 1;
+        if (output[0] == '<') {
             length -= 2;
+            memmove(output, output + 1, length);
             type = ::Type::ID::URI;
         } else {
             type = ::Type::ID::Literal;
-- 
2.43.0


From 173da853df63e77cebd1256a7fe53e720e5655f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:58 +0000
Subject: [PATCH 050/119] fix: computed numbers were missing from JSON results

---
 rdf3x/src/rts/ResultsPrinter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rdf3x/src/rts/ResultsPrinter.cpp b/rdf3x/src/rts/ResultsPrinter.cpp
index 1e2b2c0..fa6c58c 100644
--- a/rdf3x/src/rts/ResultsPrinter.cpp
+++ b/rdf3x/src/rts/ResultsPrinter.cpp
@@ -172,6 +172,10 @@ void formatJSONRow(const std::vector<std::string> &columns,
         if (!~(*start)) {
             fbinding.put("type", "literal");
             fbinding.put("value", "NULL");
+        } else if (DictMgmt::isnumeric(*start)) {
+            //A computed number is not in the dictionary
+            fbinding.put("type", "literal");
+            fbinding.put("value", DictMgmt::tostr(*start));
         } else {
             std::string el = stringCache[*start].tostring(/*stringCache,*/ false);
             if (el[0] == '<' && el.size() > 2) {
@@ -189,6 +193,9 @@ void formatJSONRow(const std::vector<std::string> &columns,
             if (!~(*start)) {
                 binding.put("type", "literal");
                 binding.put("value", "NULL");
+            } else if (DictMgmt::isnumeric(*start)) {
+                binding.put("type", "literal");
+                binding.put("value", DictMgmt::tostr(*start));
             } else {
                 std::string el = stringCache[*start].tostring(/*stringCache,*/ false);
                 if (el[0] == '<' && el.size() > 2) {
-- 
2.43.0


From 208598a2fc91773a517704eb2e715f5f450f4ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:58 +0000
Subject: [PATCH 051/119] fix: aggregates: uninitialised DISTINCT flag, values
 of earlier groups, and the keys of single-row groups

---
 rdf3x/src/cts/SPARQLParser.cpp     | 5 +++--
 rdf3x/src/rts/AggrFunctions.cpp    | 5 +++++
 src/trident/sparql/aggrhandler.cpp | 4 ++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/SPARQLParser.cpp b/rdf3x/src/cts/SPARQLParser.cpp
index 93891a3..72f93bf 100644
--- a/rdf3x/src/cts/SPARQLParser.cpp
+++ b/rdf3x/src/cts/SPARQLParser.cpp
@@ -49,14 +49,14 @@ SPARQLParser::Pattern::~Pattern()
 }
 //---------------------------------------------------------------------------
 SPARQLParser::Filter::Filter()
-    : arg1(0), arg2(0), arg3(0), arg4(0), valueArg(0), pointerToSubquery(0),
+    : arg1(0), arg2(0), arg3(0), arg4(0), valueArg(0), distinct(false), pointerToSubquery(0),
     pointerToSubPattern(0)
       // Constructor
 {
 }
 //---------------------------------------------------------------------------
 SPARQLParser::Filter::Filter(const Filter& other)
-    : type(other.type), arg1(0), arg2(0), arg3(0), arg4(0), value(other.value), valueType(other.valueType), valueArg(other.valueArg), pointerToSubquery(other.pointerToSubquery), pointerToSubPattern(other.pointerToSubPattern)
+    : type(other.type), arg1(0), arg2(0), arg3(0), arg4(0), value(other.value), valueType(other.valueType), valueArg(other.valueArg), distinct(other.distinct), pointerToSubquery(other.pointerToSubquery), pointerToSubPattern(other.pointerToSubPattern)
       // Copy-Constructor
 {
     if (other.arg1)
@@ -110,6 +110,7 @@ SPARQLParser::Filter& SPARQLParser::Filter::operator=(const Filter& other)
         value = other.value;
         valueType = other.valueType;
         valueArg = other.valueArg;
+        distinct = other.distinct;
     }
     return *this;
 }
diff --git a/rdf3x/src/rts/AggrFunctions.cpp b/rdf3x/src/rts/AggrFunctions.cpp
index 08f04a3..9189e23 100644
--- a/rdf3x/src/rts/AggrFunctions.cpp
+++ b/rdf3x/src/rts/AggrFunctions.cpp
@@ -139,6 +139,11 @@ void AggrFunctions::updateVar(std::pair<unsigned,Register*> &var,
 }
 
 void AggrFunctions::processGroup() {
+    //The registers still hold the keys of the previous group
+    for(uint8_t i = 0; i < currentGroupKeys.size(); ++i) {
+        groupKeys[i]->value = currentGroupKeys[i];
+    }
+
     //Add the current row
     hdl.startUpdate();
     for(auto &var : varsToUpdate) {
diff --git a/src/trident/sparql/aggrhandler.cpp b/src/trident/sparql/aggrhandler.cpp
index 7db66ea..73151ac 100644
--- a/src/trident/sparql/aggrhandler.cpp
+++ b/src/trident/sparql/aggrhandler.cpp
@@ -60,6 +60,10 @@ void AggregateHandler::prepare() {
 }
 
 void AggregateHandler::reset() {
+    //The values seen so far belong to the previous group
+    for (auto &s : sets) {
+        s.clear();
+    }
     for (auto &f : executions) {
         f.reset();
     }
-- 
2.43.0


From 576a06a7c33e4b218f53c17faea5c7e94885d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:46 +0000
Subject: [PATCH 052/119] fix: ORDER BY crashed when a projected variable is
 unbound

---
 rdf3x/src/cts/CodeGen.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rdf3x/src/cts/CodeGen.cpp b/rdf3x/src/cts/CodeGen.cpp
index 6caa434..ae974c8 100644
--- a/rdf3x/src/cts/CodeGen.cpp
+++ b/rdf3x/src/cts/CodeGen.cpp
@@ -1223,11 +1223,13 @@ Operator* CodeGen::translateIntern(Runtime& runtime, const QueryGraph& query, Pl
             vector<Register*> regs;
             vector<pair<Register*, bool> > order;
             for (set<unsigned>::const_iterator iter = projection.begin(), limit = projection.end(); iter != limit; ++iter)
-                regs.push_back(bindings[*iter]);
+                if (bindings.count(*iter)) //A variable can be unbound, for instance if it appears only in a minus
+                    regs.push_back(bindings[*iter]);
             for (QueryGraph::order_iterator iter = query.orderBegin(), limit = query.orderEnd(); iter != limit; ++iter)
-                if (~(*iter).id)
-                    order.push_back(pair<Register*, bool>(bindings[(*iter).id], (*iter).descending));
-                else
+                if (~(*iter).id) {
+                    if (bindings.count((*iter).id))
+                        order.push_back(pair<Register*, bool>(bindings[(*iter).id], (*iter).descending));
+                } else
                     order.push_back(pair<Register*, bool>(0, (*iter).descending));
             tree = new Sort(runtime.getDatabase(), tree, regs, order, tree->getExpectedOutputCardinality());
         }
-- 
2.43.0


From 1dd56668c03506c5f3fc699c3cc7506d7e16e75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:41 +0000
Subject: [PATCH 053/119] hook: a smaller ring of tracked cache blocks under
 TRIDENT_SIM

---
 include/trident/kb/consts.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/trident/kb/consts.h b/include/trident/kb/consts.h
index 5d1ffab..679e201 100644
--- a/include/trident/kb/consts.h
+++ b/include/trident/kb/consts.h
@@ -83,7 +83,11 @@
 //Size buffer (i.e. number of elements) to sort during the compression
 #define SORTING_BLOCK_SIZE 25000000
 
+#ifdef TRIDENT_SIM
+#define MAX_N_BLOCKS_IN_CACHE 65536
+#else
 #define MAX_N_BLOCKS_IN_CACHE 1000000
+#endif
 
 //Used in the dictionary lookup thread
 #define OUTPUT_BUFFER_SIZE 2048
-- 
2.43.0


From 5cac6009ab950838498333c8aa639e58905e67a6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:11:17 +0000
Subject: [PATCH 054/119] fix: the web server cut request paths that contain
 the text HTTP

---
 src/trident/server/server.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/trident/server/server.cpp b/src/trident/server/server.cpp
index 13d58b6..007f823 100644
--- a/src/trident/server/server.cpp
+++ b/src/trident/server/server.cpp
@@ -51,6 +51,20 @@ void TridentServer::stop() {
     LOG(INFOL) << "Done";
 }
 
+//Returns the path of the request, i.e., the second word in the first line
+static string _getPath(const string &req) {
+    size_t start = req.find(' ');
+    if (start == string::npos) {
+        return "";
+    }
+    start++;
+    size_t end = req.find_first_of(" \r\n", start);
+    if (end == string::npos) {
+        end = req.size();
+    }
+    return req.substr(start, end - start);
+}
+
 string _getValueParam(string req, string param) {
     int pos = req.find(param);
     if (pos == string::npos) {
@@ -84,8 +98,7 @@ void TridentServer::processRequest(std::string req, std::string &res) {
     bool isjson = false;
 
     if (Utils::starts_with(req, "POST")) {
-        int pos = req.find("HTTP");
-        string path = req.substr(5, pos - 6);
+        string path = _getPath(req);
         if (path == "/sparql") {
             //Get the SPARQL query
             string form = req.substr(req.find("application/x-www-form-urlencoded"));
@@ -147,8 +160,7 @@ void TridentServer::processRequest(std::string req, std::string &res) {
         }
     } else if (Utils::starts_with(req, "GET")) {
         //Get the page
-        int pos = req.find("HTTP");
-        string path = req.substr(4, pos - 5);
+        string path = _getPath(req);
         if (path.size() > 1) {
             page = getPage(path);
         }
-- 
2.43.0


From 5577103914a274c5a9755fa01cfda791b3e213d2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:11:17 +0000
Subject: [PATCH 055/119] fix: the web server returned files outside of its
 directory, and its page cache was not protected against concurrent requests

---
 include/trident/server/server.h |  2 ++
 src/trident/server/server.cpp   | 23 +++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/include/trident/server/server.h b/include/trident/server/server.h
index 5596b94..fabd59e 100644
--- a/include/trident/server/server.h
+++ b/include/trident/server/server.h
@@ -13,6 +13,7 @@
 #include <rts/runtime/QueryDict.hpp>
 
 #include <map>
+#include <mutex>
 
 using namespace std;
 
@@ -23,6 +24,7 @@ class TridentServer {
     private:
         string dirhtmlfiles;
         map<string, string> cachehtml;
+        std::mutex mutexCache;
         std::thread t;
         string cmdArgs;
 
diff --git a/src/trident/server/server.cpp b/src/trident/server/server.cpp
index 007f823..f436690 100644
--- a/src/trident/server/server.cpp
+++ b/src/trident/server/server.cpp
@@ -198,7 +198,30 @@ string TridentServer::getDefaultPage() {
     return getPage("/index.html");
 }
 
+//True if the path has a component that leads to the parent directory
+static bool _goesUp(const string &path) {
+    size_t start = 0;
+    while (start <= path.size()) {
+        size_t end = path.find('/', start);
+        if (end == string::npos) {
+            end = path.size();
+        }
+        if (path.compare(start, end - start, "..") == 0) {
+            return true;
+        }
+        start = end + 1;
+    }
+    return false;
+}
+
 string TridentServer::getPage(string f) {
+    //Only files inside the directory with the pages can be returned
+    if (_goesUp(f)) {
+        return "Error! I cannot find the page to show.";
+    }
+
+    //Requests are served by multiple threads
+    std::lock_guard<std::mutex> lock(mutexCache);
     if (cachehtml.count(f)) {
         return cachehtml.find(f)->second;
     }
-- 
2.43.0


From b827145f2590699ec3d6796043af4f77f2962481 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:11:17 +0000
Subject: [PATCH 056/119] fix: the web server took form fields from headers and
 other fields, and lost plus signs of queries

---
 src/trident/server/server.cpp | 42 +++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/trident/server/server.cpp b/src/trident/server/server.cpp
index f436690..25d6eb2 100644
--- a/src/trident/server/server.cpp
+++ b/src/trident/server/server.cpp
@@ -65,19 +65,30 @@ static string _getPath(const string &req) {
     return req.substr(start, end - start);
 }
 
-string _getValueParam(string req, string param) {
-    int pos = req.find(param);
+//Returns the body of the request
+static string _getForm(const string &req) {
+    size_t pos = req.find("\r\n\r\n");
     if (pos == string::npos) {
         return "";
-    } else {
-        int postart = req.find("=", pos);
-        int posend = req.find("&", pos);
-        if (posend == string::npos) {
-            return req.substr(postart + 1);
-        } else {
-            return req.substr(postart + 1, posend - postart - 1);
+    }
+    return req.substr(pos + 4);
+}
+
+//Returns the (decoded) value of a field in the form
+static string _getValueParam(const string &form, const string &param) {
+    size_t start = 0;
+    while (start < form.size()) {
+        size_t end = form.find('&', start);
+        if (end == string::npos) {
+            end = form.size();
+        }
+        size_t eq = form.find('=', start);
+        if (eq < end && form.compare(start, eq - start, param) == 0) {
+            return HttpClient::unescape(form.substr(eq + 1, end - eq - 1));
         }
+        start = end + 1;
     }
+    return "";
 }
 
 string TridentServer::lookup(string sId, TridentLayer &db) {
@@ -101,18 +112,11 @@ void TridentServer::processRequest(std::string req, std::string &res) {
         string path = _getPath(req);
         if (path == "/sparql") {
             //Get the SPARQL query
-            string form = req.substr(req.find("application/x-www-form-urlencoded"));
+            string form = _getForm(req);
             string printresults = _getValueParam(form, "print");
             string sparqlquery = _getValueParam(form, "query");
-            sparqlquery = HttpClient::unescape(sparqlquery);
-            std::regex e1("\\+");
             std::string replacedString;
-            std::regex_replace(std::back_inserter(replacedString),
-                    sparqlquery.begin(), sparqlquery.end(),
-                    e1, "$1 ");
-            sparqlquery = replacedString;
             std::regex e2("\\r\\n");
-            replacedString = "";
             std::regex_replace(std::back_inserter(replacedString),
                     sparqlquery.begin(), sparqlquery.end(), e2, "$1\n");
             sparqlquery = replacedString;
@@ -145,7 +149,7 @@ void TridentServer::processRequest(std::string req, std::string &res) {
             page = buf.str();
             isjson = true;
         } else if (path == "/lookup") {
-            string form = req.substr(req.find("application/x-www-form-urlencoded"));
+            string form = _getForm(req);
             string id = _getValueParam(form, "id");
             //Lookup the value
             string value = lookup(id, kb);
@@ -171,7 +175,7 @@ void TridentServer::processRequest(std::string req, std::string &res) {
         page = getDefaultPage();
     }
     if (isjson) {
-        res = "HTTP/1.1 200 OK\r\nContent-Type: application/json\nContent-Length: ";
+        res = "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: ";
         res += to_string(page.size()) + "\r\n\r\n" + page;
     } else {
         res = "HTTP/1.1 200 OK\r\nContent-Length: ";
-- 
2.43.0


From 54a80212fb99bf32608ae426179a60edc1be2dee Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:11:17 +0000
Subject: [PATCH 057/119] fix: stopping the web server never finished after a
 request that failed, and did not wait for concurrent requests

---
 include/trident/server/server.h |  8 +++++---
 src/trident/server/server.cpp   | 17 ++++++++++++-----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/trident/server/server.h b/include/trident/server/server.h
index fabd59e..5570ecc 100644
--- a/include/trident/server/server.h
+++ b/include/trident/server/server.h
@@ -12,6 +12,7 @@
 #include <cts/parser/SPARQLParser.hpp>
 #include <rts/runtime/QueryDict.hpp>
 
+#include <atomic>
 #include <map>
 #include <mutex>
 
@@ -28,7 +29,8 @@ class TridentServer {
         std::thread t;
         string cmdArgs;
 
-        bool isActive;
+        //Number of requests that are being processed
+        std::atomic<int> active;
         int webport;
         std::shared_ptr<HttpServer> server;
         int nthreads;
@@ -58,12 +60,12 @@ class TridentServer {
 
         //OK
         void setActive() {
-            isActive = true;
+            active++;
         }
 
         //OK
         void setInactive() {
-            isActive = false;
+            active--;
         }
 
         //OK
diff --git a/src/trident/server/server.cpp b/src/trident/server/server.cpp
index 25d6eb2..66b66ba 100644
--- a/src/trident/server/server.cpp
+++ b/src/trident/server/server.cpp
@@ -24,7 +24,7 @@
 TridentServer::TridentServer(KB &kb, string htmlfiles, int nthreads) :
     kb(kb),
     dirhtmlfiles(htmlfiles),
-    isActive(false), nthreads(nthreads) {
+    active(0), nthreads(nthreads) {
 
     }
 
@@ -44,7 +44,7 @@ void TridentServer::start(int port) {
 
 void TridentServer::stop() {
     LOG(INFOL) << "Stopping server ...";
-    while (isActive) {
+    while (active > 0) {
         std::this_thread::sleep_for(chrono::milliseconds(100));
     }
     server->stop();
@@ -102,7 +102,16 @@ string TridentServer::lookup(string sId, TridentLayer &db) {
 }
 
 void TridentServer::processRequest(std::string req, std::string &res) {
-    setActive();
+    //The request is not active any longer if an exception is thrown
+    struct Active {
+        TridentServer &server;
+        Active(TridentServer &server) : server(server) {
+            server.setActive();
+        }
+        ~Active() {
+            server.setInactive();
+        }
+    } activeRequest(*this);
     //Get the page
     string page;
     string message = "";
@@ -188,8 +197,6 @@ void TridentServer::processRequest(std::string req, std::string &res) {
       shared_from_this(),
       boost::asio::placeholders::error,
       boost::asio::placeholders::bytes_transferred));*/
-
-    setInactive();
 }
 
 /*void TridentServer::Server::writeHandler(const boost::system::error_code &err,
-- 
2.43.0


From be89858d85651b1a487d3ecb9bfd6599e9582425 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:11:17 +0000
Subject: [PATCH 058/119] fix: looking up an unknown identifier in the web
 server read uninitialised pointers

---
 src/trident/server/server.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trident/server/server.cpp b/src/trident/server/server.cpp
index 66b66ba..e5f101b 100644
--- a/src/trident/server/server.cpp
+++ b/src/trident/server/server.cpp
@@ -94,10 +94,12 @@ static string _getValueParam(const string &form, const string &param) {
 string TridentServer::lookup(string sId, TridentLayer &db) {
     const char *start;
     const char *end;
-    unsigned id = stoi(sId);
+    uint64_t id = stoull(sId);
     ::Type::ID type;
     unsigned st;
-    db.lookupById(id, start, end, type, st);
+    if (!db.lookupById(id, start, end, type, st)) {
+        return "";
+    }
     return string(start, end - start);
 }
 
-- 
2.43.0


From 27089ec52e0b0d3c3cf17a0924c0d1ce2d493e5e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:11:17 +0000
Subject: [PATCH 059/119] fix: concurrent queries and lookups of the web server
 corrupted each other

---
 include/trident/server/server.h | 2 ++
 src/trident/server/server.cpp   | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/trident/server/server.h b/include/trident/server/server.h
index 5570ecc..d2e4e4e 100644
--- a/include/trident/server/server.h
+++ b/include/trident/server/server.h
@@ -21,6 +21,8 @@ using namespace std;
 class TridentServer {
     protected:
         TridentLayer kb;
+        //The layer has buffers and iterators that cannot be shared by requests
+        std::mutex mutexKB;
 
     private:
         string dirhtmlfiles;
diff --git a/src/trident/server/server.cpp b/src/trident/server/server.cpp
index e5f101b..0530b80 100644
--- a/src/trident/server/server.cpp
+++ b/src/trident/server/server.cpp
@@ -138,6 +138,7 @@ void TridentServer::processRequest(std::string req, std::string &res) {
             JSON bindings;
             JSON stats;
             bool jsonoutput = printresults != string("false");
+            std::unique_lock<std::mutex> lock(mutexKB);
             SPARQLUtils::execSPARQLQuery(sparqlquery,
                     false,
                     kb.getNTerms(),
@@ -147,6 +148,7 @@ void TridentServer::processRequest(std::string req, std::string &res) {
                     &vars,
                     &bindings,
                     &stats);
+            lock.unlock();
             JSON head;
             head.add_child("vars", vars);
             pt.add_child("head", head);
@@ -163,7 +165,9 @@ void TridentServer::processRequest(std::string req, std::string &res) {
             string form = _getForm(req);
             string id = _getValueParam(form, "id");
             //Lookup the value
+            std::unique_lock<std::mutex> lock(mutexKB);
             string value = lookup(id, kb);
+            lock.unlock();
             JSON pt;
             pt.put("value", value);
             std::ostringstream buf;
-- 
2.43.0


From 0c764c006488e0e3779177df2ed16c3e9b182525 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:18:07 +0000
Subject: [PATCH 060/119] fix: the iterators of updates came from the pools of
 the last querier, which other queriers may have released

---
 include/trident/kb/diffindex.h        | 30 +++++++++-------
 include/trident/kb/querier.h          |  1 -
 src/trident/iterators/diffscanitr.cpp |  2 +-
 src/trident/kb/diffindex1.cpp         |  7 ++--
 src/trident/kb/diffindex3.cpp         | 50 +++++++++------------------
 src/trident/kb/kb.cpp                 |  4 ---
 src/trident/kb/querier.cpp            | 20 ++---------
 7 files changed, 40 insertions(+), 74 deletions(-)

diff --git a/include/trident/kb/diffindex.h b/include/trident/kb/diffindex.h
index 61fd092..47d7c19 100644
--- a/include/trident/kb/diffindex.h
+++ b/include/trident/kb/diffindex.h
@@ -35,6 +35,9 @@
 #include <kognac/factory.h>
 
 #include <string>
+#ifdef MT
+#include <mutex>
+#endif
 
 #define THRESHOLD_USEGLOBALFILES 1000000
 
@@ -103,7 +106,10 @@ public:
         return clazz;
     }
 
-    virtual PairItr *getIterator(int idx, int64_t first, int64_t second, int64_t third,
+    //The iterators come from the storage strategy and from the factory of the
+    //querier that asks for them, because several queriers can use this index
+    virtual PairItr *getIterator(StorageStrat *strat, Factory<Diff1Itr> *factory,
+                                 int idx, int64_t first, int64_t second, int64_t third,
                                  int64_t &nfirstterms) = 0;
 
     virtual int64_t getSize() const = 0;
@@ -136,7 +142,6 @@ private:
     std::unique_ptr<ROMappedFile> values;
     std::unique_ptr<ROMappedFile> newpairs1;
     std::unique_ptr<ROMappedFile> newpairs2;
-    Factory<Diff1Itr> *factory;
 
     static int64_t outerJoin(PairItr *itr, std::vector<uint64_t> &values, string filenewkeys);
 
@@ -150,7 +155,8 @@ private:
 public:
     DiffIndex1(string dir, DiffIndex::TypeUpdate type);
 
-    PairItr *getIterator(int idx, int64_t first, int64_t second, int64_t third,
+    PairItr *getIterator(StorageStrat *strat, Factory<Diff1Itr> *factory,
+                         int idx, int64_t first, int64_t second, int64_t third,
                          int64_t &nfirstterms);
 
     int64_t getSize() const;
@@ -165,8 +171,6 @@ public:
 
     int64_t getNFirstTables(int idx);
 
-    void setFactoryIterators(Factory<Diff1Itr> *f);
-
     static void createDiffIndex(string outputdir,
                                 bool dumpRawFormat,
                                 Querier *q,
@@ -205,7 +209,9 @@ private:
     std::unique_ptr<ROMappedFile> osp_f;
     Root *roots[6];
     const char *buffers[6];
-    StorageStrat *strat;
+#ifdef MT
+    std::mutex mutexBuffers;
+#endif
     int64_t size;
 
     //Data structures to contain the unique keys. At the moment they are not used
@@ -213,6 +219,9 @@ private:
     int64_t nuniquefirstterms[6];
     int64_t nfirstterms[6];
 
+    //Return the file with the tables of a permutation. It is mapped if needed
+    const char *getBuffer(int idx);
+
     static bool shouldUseColumns(const std::vector<uint64_t> &table);
 
     static void getStrategyAndInserter(const std::vector<uint64_t> &tmp1,
@@ -282,10 +291,11 @@ public:
     DiffIndex3(std::string dir, const char **globalbuffers, KBConfig &config,
                TypeUpdate type);
 
-    PairItr *getIterator(int idx, int64_t first, int64_t second, int64_t third,
+    PairItr *getIterator(StorageStrat *strat, Factory<Diff1Itr> *factory,
+                         int idx, int64_t first, int64_t second, int64_t third,
                          int64_t &nfirstterms);
 
-    PairItr *getIterator(int idx, int64_t key, TermCoordinates &coord);
+    PairItr *getIterator(StorageStrat *strat, int idx, int64_t key, TermCoordinates &coord);
 
     PairItr *getScan(int idx, DiffScanItr *itr);
 
@@ -301,10 +311,6 @@ public:
 
     int64_t getNFirstTables(int idx);
 
-    void setStorageStrat(StorageStrat *strat) {
-        this->strat = strat;
-    }
-
     DDLEXPORT static void createDiffIndex(DiffIndex::TypeUpdate type,
                                 string outputdir,
                                 string diffdir,
diff --git a/include/trident/kb/querier.h b/include/trident/kb/querier.h
index 24f3670..3d023c6 100644
--- a/include/trident/kb/querier.h
+++ b/include/trident/kb/querier.h
@@ -400,7 +400,6 @@ class Querier {
                 KB *sampleKB,
                 std::vector<std::unique_ptr<DiffIndex>> &diffIndices, bool *present, Partial **partial);
 
-        void initDiffIndex(DiffIndex *diff);
 
         TermItr *getKBTermList(const int perm, const bool enforcePerm);
 
diff --git a/src/trident/iterators/diffscanitr.cpp b/src/trident/iterators/diffscanitr.cpp
index 21a2da7..b63e0cd 100644
--- a/src/trident/iterators/diffscanitr.cpp
+++ b/src/trident/iterators/diffscanitr.cpp
@@ -42,7 +42,7 @@ bool DiffScanItr::hasNext() {
         if (root->hasNext()) {
             TermCoordinates values;
             currentkey = root->next(&values);
-            currentItr = ((DiffIndex3*)diff)->getIterator(perm, currentkey, values);
+            currentItr = ((DiffIndex3*)diff)->getIterator(q->getStorageStrat(), perm, currentkey, values);
             if (!currentItr->hasNext()) {
                 LOG(ERRORL) << "This should not happen";
             }
diff --git a/src/trident/kb/diffindex1.cpp b/src/trident/kb/diffindex1.cpp
index f510bbf..682e153 100644
--- a/src/trident/kb/diffindex1.cpp
+++ b/src/trident/kb/diffindex1.cpp
@@ -72,7 +72,8 @@ DiffIndex1::DiffIndex1(string dir, DiffIndex::TypeUpdate type) : DiffIndex(type,
 }
 
 extern EmptyItr emptyItr;
-PairItr *DiffIndex1::getIterator(int idx, int64_t first, int64_t second, int64_t third,
+PairItr *DiffIndex1::getIterator(StorageStrat *strat, Factory<Diff1Itr> *factory,
+        int idx, int64_t first, int64_t second, int64_t third,
         int64_t &nfirstterms) {
     assert(factory != NULL);
     //nfirstterms = 0;
@@ -268,10 +269,6 @@ void DiffIndex1::getTermListItr(int idx, DiffTermItr *itr) {
     }
 }
 
-void DiffIndex1::setFactoryIterators(Factory<Diff1Itr> *f) {
-    this->factory = f;
-}
-
 bool DiffIndex1::valueInArray(const int64_t v) const {
     const char *s = values->getBuffer();
     const char *e = values->getBuffer() + (size * nbytes);
diff --git a/src/trident/kb/diffindex3.cpp b/src/trident/kb/diffindex3.cpp
index 7ae2158..9d89179 100644
--- a/src/trident/kb/diffindex3.cpp
+++ b/src/trident/kb/diffindex3.cpp
@@ -69,7 +69,6 @@ DiffIndex3::DiffIndex3(std::string dir, const char **globalbuffers,
     roots[IDX_SPO] = roots[IDX_SOP] = s.get();
     roots[IDX_POS] = roots[IDX_PSO] = p.get();
     roots[IDX_OPS] = roots[IDX_OSP] = o.get();
-    strat = NULL;
     std::chrono::duration<double> sec = std::chrono::system_clock::now() - startDiff;
     LOG(DEBUGL) << "Load diff tree: " << sec.count() * 1000 << "ms.";
 
@@ -130,8 +129,11 @@ PairItr *DiffIndex3::getScan(int idx, DiffScanItr *itr) {
     return itr;
 }
 
-PairItr *DiffIndex3::getIterator(int idx, int64_t key, TermCoordinates &coord) {
-
+const char *DiffIndex3::getBuffer(int idx) {
+#ifdef MT
+    //The first querier that needs a file maps it
+    std::lock_guard<std::mutex> lock(mutexBuffers);
+#endif
     if (!buffers[idx]) {
         switch (idx) {
         case IDX_SPO:
@@ -160,13 +162,18 @@ PairItr *DiffIndex3::getIterator(int idx, int64_t key, TermCoordinates &coord) {
             break;
         }
     }
+    return buffers[idx];
+}
+
+PairItr *DiffIndex3::getIterator(StorageStrat *strat, int idx, int64_t key, TermCoordinates &coord) {
 
+    const char *buffer = getBuffer(idx);
     int64_t nelements = coord.getNElements(idx);
     size_t idxArray = (coord.getFileIdx(idx) << 16) + coord.getMark(idx);
     char strategy = coord.getStrategy(idx);
     PairItr *itr = strat->getBinaryTable(strategy);
     AbsNewTable *newitr = (AbsNewTable*) itr;
-    const char *begin = buffers[idx] + idxArray;
+    const char *begin = buffer + idxArray;
     const char *end;
     if (newitr->getTypeItr() == NEWROW_ITR) {
         end =  begin + nelements *
@@ -182,7 +189,9 @@ PairItr *DiffIndex3::getIterator(int idx, int64_t key, TermCoordinates &coord) {
     return newitr;
 }
 
-PairItr *DiffIndex3::getIterator(int idx,
+PairItr *DiffIndex3::getIterator(StorageStrat *strat,
+                                 Factory<Diff1Itr> *factory,
+                                 int idx,
                                  int64_t first,
                                  int64_t second,
                                  int64_t third,
@@ -194,40 +203,13 @@ PairItr *DiffIndex3::getIterator(int idx,
 
     TermCoordinates coordinates;
     if (roots[idx]->get(first, &coordinates)) {
-        if (!buffers[idx]) {
-            switch (idx) {
-            case IDX_SPO:
-                spo_f = std::unique_ptr<ROMappedFile>(new ROMappedFile(dir + "/s/p0"));
-                buffers[idx] = spo_f->getBuffer();
-                break;
-            case IDX_SOP:
-                sop_f = std::unique_ptr<ROMappedFile>(new ROMappedFile(dir + "/s/p1"));
-                buffers[idx] = sop_f->getBuffer();
-                break;
-            case IDX_POS:
-                pos_f = std::unique_ptr<ROMappedFile>(new ROMappedFile(dir + "/p/p0"));
-                buffers[idx] = pos_f->getBuffer();
-                break;
-            case IDX_PSO:
-                pso_f = std::unique_ptr<ROMappedFile>(new ROMappedFile(dir + "/p/p1"));
-                buffers[idx] = pso_f->getBuffer();
-                break;
-            case IDX_OPS:
-                ops_f = std::unique_ptr<ROMappedFile>(new ROMappedFile(dir + "/o/p0"));
-                buffers[idx] = ops_f->getBuffer();
-                break;
-            case IDX_OSP:
-                osp_f = std::unique_ptr<ROMappedFile>(new ROMappedFile(dir + "/o/p1"));
-                buffers[idx] = osp_f->getBuffer();
-                break;
-            }
-        }
+        const char *buffer = getBuffer(idx);
         int64_t nelements = coordinates.getNElements(idx);
         size_t idxArray = (coordinates.getFileIdx(idx) << 16) + coordinates.getMark(idx);
         char strategy = coordinates.getStrategy(idx);
         PairItr *itr = strat->getBinaryTable(strategy);
         AbsNewTable *newitr = (AbsNewTable*) itr;
-        const char *begin = buffers[idx] + idxArray;
+        const char *begin = buffer + idxArray;
         const char *end;
         if (newitr->getTypeItr() == NEWROW_ITR) {
             end =  begin + nelements *
diff --git a/src/trident/kb/kb.cpp b/src/trident/kb/kb.cpp
index 7d3653d..585449e 100644
--- a/src/trident/kb/kb.cpp
+++ b/src/trident/kb/kb.cpp
@@ -673,10 +673,6 @@ void KB::addDiffIndex(string inputdir, const char **globalbuffers, Querier *q) {
 
         dictUpdates.push_back(ud);
     }
-
-    if (q) {
-        q->initDiffIndex(diffIndices.back().get());
-    }
 }
 
 std::vector<const char*> KB::openAllFiles(int perm) {
diff --git a/src/trident/kb/querier.cpp b/src/trident/kb/querier.cpp
index a5e987f..c614ff6 100644
--- a/src/trident/kb/querier.cpp
+++ b/src/trident/kb/querier.cpp
@@ -99,22 +99,8 @@ Querier::Querier(Root* tree, DictMgmt *dict, TableStorage** files,
         if (sampleKB != NULL) {
             sampler = std::unique_ptr<Querier>(sampleKB->query());
         }
-        for (int i = 0; i < diffIndices.size(); ++i) {
-            DiffIndex *diff = diffIndices[i].get();
-            initDiffIndex(diff);
-        }
     }
 
-void Querier::initDiffIndex(DiffIndex *diff) {
-    if (diff->getClass() == DiffIndex::DIFF3) {
-        ((DiffIndex3*)diff)->setStorageStrat(&strat);
-    } else {
-        assert(diff->getClass() == DiffIndex::DIFF1);
-        ((DiffIndex1*)diff)->setFactoryIterators(&factory13);
-    }
-
-}
-
 char Querier::getStrategy(const int idx, const int64_t v) {
     if (lastKeyQueried != v) {
         lastKeyFound = tree->get(v, &currentValue);
@@ -1097,7 +1083,7 @@ PairItr *Querier::getIterator(const int idx, const int64_t s, const int64_t p, c
             if (diffIndices[i]->getType() == DiffIndex::TypeUpdate::DELETE_df) {
                 int64_t delnfirstterms = 0;
                 if (first >= 0) {
-                    diffItr = diffIndices[i]->getIterator(idx, first, second,
+                    diffItr = diffIndices[i]->getIterator(&strat, &factory13, idx, first, second,
                             third, delnfirstterms);
                 } else {
                     DiffScanItr *newitr = factory11.get();
@@ -1147,7 +1133,7 @@ PairItr *Querier::getIterator(const int idx, const int64_t s, const int64_t p, c
                 diffItr = NULL;
             } else {
                 if (first >= 0) {
-                    diffItr = diffIndices[i]->getIterator(idx, first, second,
+                    diffItr = diffIndices[i]->getIterator(&strat, &factory13, idx, first, second,
                             third, nfirstterms);
                     if (second >= 0) {
                         //I must change nfirstterms, which can be either 1 or 0
@@ -1172,7 +1158,7 @@ PairItr *Querier::getIterator(const int idx, const int64_t s, const int64_t p, c
                         diffItr = ((DiffIndex3*)diffIndices[i].get())->getScan(idx, newitr);
                     } else {
                         //Diff1 update getIterator() method can handle scans
-                        diffItr = diffIndices[i]->getIterator(idx, first, second, third, nfirstterms);
+                        diffItr = diffIndices[i]->getIterator(&strat, &factory13, idx, first, second, third, nfirstterms);
                     }
                 }
                 if (diffItr->hasNext()) {
-- 
2.43.0


From 91ec023e2d70abee60362c64eae754080a61f891 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:22:19 +0000
Subject: [PATCH 061/119] fix: concurrent readers raced on the marks and the
 open files of the tables (MT)

---
 include/trident/binarytables/tableshandler.h |  3 ++
 include/trident/files/filemanager.h          | 19 ++++++-
 src/trident/binarytables/tableshandler.cpp   | 56 ++++++++------------
 3 files changed, 41 insertions(+), 37 deletions(-)

diff --git a/include/trident/binarytables/tableshandler.h b/include/trident/binarytables/tableshandler.h
index 5434043..b091791 100644
--- a/include/trident/binarytables/tableshandler.h
+++ b/include/trident/binarytables/tableshandler.h
@@ -113,6 +113,9 @@ class TableStorage {
         int filePreviousIndex;
         //*** END INSERT ***
 
+        //Read the marks of a file, if they are not in memory yet
+        void loadMarks(short file);
+
         void storeFileIndices();
         void storeFileIndex(const std::vector<WrittenMarks> &input,
                 string pathFile);
diff --git a/include/trident/files/filemanager.h b/include/trident/files/filemanager.h
index b2fe170..4df12b5 100644
--- a/include/trident/files/filemanager.h
+++ b/include/trident/files/filemanager.h
@@ -63,7 +63,7 @@ class FileManager {
         Stats* const stats;
 
 #ifdef MT
-        std::mutex mutex;
+        std::recursive_mutex mutex;
 #endif
 
         bool isFileLoaded(const int id) {
@@ -73,7 +73,7 @@ class FileManager {
         void load_file(const int id) {
             if (!isFileLoaded(id)) {
 #ifdef MT
-                std::unique_lock<std::mutex> lock(mutex);
+                std::unique_lock<std::recursive_mutex> lock(mutex);
                 if (!isFileLoaded(id)) {
 #endif
                     if (nOpenedFiles >= maxFiles) {
@@ -134,11 +134,17 @@ class FileManager {
         }
 
         char* getBuffer(short id, uint64_t offset, uint64_t *length) {
+#ifdef MT
+            std::lock_guard<std::recursive_mutex> lock(mutex);
+#endif
             load_file(id);
             return openedFiles[id]->getBuffer(offset, length);
         }
 
         char* getBuffer(short id, uint64_t offset, uint64_t *length, int sessionId) {
+#ifdef MT
+            std::lock_guard<std::recursive_mutex> lock(mutex);
+#endif
             load_file(id);
             int memoryBlock;
 
@@ -162,6 +168,9 @@ class FileManager {
         }
 
         int newSession() {
+#ifdef MT
+            std::lock_guard<std::recursive_mutex> lock(mutex);
+#endif
             int cnt = 0;
             while (sessions[lastSession] != FREE_SESSION) {
                 lastSession = (lastSession + 1) % MAX_SESSIONS;
@@ -179,6 +188,9 @@ class FileManager {
         }
 
         void closeSession(int idx) {
+#ifdef MT
+            std::lock_guard<std::recursive_mutex> lock(mutex);
+#endif
             //Release the lock
             if (sessions[idx] >= 0) {
                 bytesTracker->releaseLock(sessions[idx]);
@@ -188,6 +200,9 @@ class FileManager {
         }
 
         uint64_t sizeFile(const int idx) {
+#ifdef MT
+            std::lock_guard<std::recursive_mutex> lock(mutex);
+#endif
             if (isFileLoaded(idx)) {
                 return openedFiles[idx]->getFileLength();
             }
diff --git a/src/trident/binarytables/tableshandler.cpp b/src/trident/binarytables/tableshandler.cpp
index 1c13fdb..bbc447d 100644
--- a/src/trident/binarytables/tableshandler.cpp
+++ b/src/trident/binarytables/tableshandler.cpp
@@ -95,36 +95,36 @@ TableStorage::TableStorage(bool readOnly, string pathDir, int64_t maxFileSize,
         filePreviousIndex = 0;
     }
 
-bool TableStorage::doesFileHaveCoordinates(short file) {
+void TableStorage::loadMarks(short file) {
     if (!marksLoaded[file]) {
-        sprintf(pathDir + sizePathDir, "%d.idx", file);
-        FileMarks *m = new FileMarks();
-        m->parse(string(pathDir));
-        marks[file] = m;
-        marksLoaded[file] = true;
+#ifdef MT
+        std::unique_lock<std::mutex> lock(mutex);
+        if (!marksLoaded[file]) {
+#endif
+            sprintf(pathDir + sizePathDir, "%d.idx", file);
+            FileMarks *m = new FileMarks();
+            m->parse(string(pathDir));
+            marks[file] = m;
+            marksLoaded[file] = true;
+#ifdef MT
+        }
+        lock.unlock();
+#endif
     }
+}
+
+bool TableStorage::doesFileHaveCoordinates(short file) {
+    loadMarks(file);
     return marks[file] != NULL;
 }
 
 const char *TableStorage::getBeginTableCoordinates(short file) {
-    if (!marksLoaded[file]) {
-        sprintf(pathDir + sizePathDir, "%d.idx", file);
-        FileMarks *m = new FileMarks();
-        m->parse(string(pathDir));
-        marks[file] = m;
-        marksLoaded[file] = true;
-    }
+    loadMarks(file);
     return marks[file]->getBeginTableCoordinates();
 }
 
 const char *TableStorage::getEndTableCoordinates(short file) {
-    if (!marksLoaded[file]) {
-        sprintf(pathDir + sizePathDir, "%d.idx", file);
-        FileMarks *m = new FileMarks();
-        m->parse(string(pathDir));
-        marks[file] = m;
-        marksLoaded[file] = true;
-    }
+    loadMarks(file);
     return marks[file]->getEndTableCoordinates();
 }
 
@@ -134,21 +134,7 @@ std::string TableStorage::getPath() {
 
 std::pair<const char*, const char*> TableStorage::getTable(short file, int64_t mark) {
     //I assume all the table is in one file
-    if (!marksLoaded[file]) {
-#ifdef MT
-        std::unique_lock<std::mutex> lock(mutex);
-        if (!marksLoaded[file]) {
-#endif
-            sprintf(pathDir + sizePathDir, "%d.idx", file);
-            FileMarks *m = new FileMarks();
-            m->parse(string(pathDir));
-            marks[file] = m;
-            marksLoaded[file] = true;
-#ifdef MT
-        }
-        lock.unlock();
-#endif
-    }
+    loadMarks(file);
     std::pair<uint64_t,uint64_t> coord = marks[file]->getPos(mark);
     uint64_t realLen = (int) - 1;
     const char *start = cache->getBuffer(file, coord.first, &realLen);
-- 
2.43.0


From fc382763ea26fa34104f46ade29ee1287e4a7ff8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:22:19 +0000
Subject: [PATCH 062/119] fix: concurrent readers raced in the trees and
 dictionaries (MT)

---
 include/trident/kb/dictmgmt.h |  9 +++++++++
 src/trident/kb/dictmgmt.cpp   | 15 +++++++++++++++
 src/trident/tree/root.cpp     | 16 ++++++++++++++++
 src/trident/tree/treeitr.cpp  | 12 ++++++++++++
 4 files changed, 52 insertions(+)

diff --git a/include/trident/kb/dictmgmt.h b/include/trident/kb/dictmgmt.h
index aa99848..e3551d1 100644
--- a/include/trident/kb/dictmgmt.h
+++ b/include/trident/kb/dictmgmt.h
@@ -33,6 +33,10 @@
 #include <sparsehash/sparse_hash_map>
 #include <sparsehash/dense_hash_map>
 
+#ifdef MT
+#include <mutex>
+#endif
+
 class Root;
 class StringBuffer;
 class TreeItr;
@@ -111,6 +115,11 @@ class DictMgmt {
 
     private:
 
+#ifdef MT
+        //The string buffers and the trees below change also when they are read
+        std::mutex mutexRead;
+#endif
+
         //Define the task to execute
         //int64_t* dataToProcess;
         int nTuples;
diff --git a/src/trident/kb/dictmgmt.cpp b/src/trident/kb/dictmgmt.cpp
index 7860089..6ea222c 100644
--- a/src/trident/kb/dictmgmt.cpp
+++ b/src/trident/kb/dictmgmt.cpp
@@ -152,6 +152,9 @@ bool DictMgmt::getTextRel(nTerm key, char *value, int &size) {
 }
 
 bool DictMgmt::getText(nTerm key, char *value) {
+#ifdef MT
+    std::lock_guard<std::mutex> lock(mutexRead);
+#endif
     int64_t coordinates;
     int idx = 0;
     while (idx < beginrange.size() - 1 && key >= beginrange[idx + 1]) {
@@ -176,6 +179,9 @@ bool DictMgmt::getText(nTerm key, char *value) {
 }
 
 bool DictMgmt::getText(nTerm key, std::string &value) {
+#ifdef MT
+    std::lock_guard<std::mutex> lock(mutexRead);
+#endif
     int64_t coordinates;
     int idx = 0;
     while (idx < beginrange.size() - 1 && key >= beginrange[idx + 1]) {
@@ -199,6 +205,9 @@ bool DictMgmt::getText(nTerm key, std::string &value) {
 }
 
 bool DictMgmt::getText(nTerm key, char *value, int &size) {
+#ifdef MT
+    std::lock_guard<std::mutex> lock(mutexRead);
+#endif
     int64_t coordinates;
     int idx = 0;
     while (idx < beginrange.size() - 1 && key >= beginrange[idx + 1]) {
@@ -221,11 +230,17 @@ bool DictMgmt::getText(nTerm key, char *value, int &size) {
 
 void DictMgmt::getTextFromCoordinates(int64_t coordinates, char *output,
         int &sizeOutput) {
+#ifdef MT
+    std::lock_guard<std::mutex> lock(mutexRead);
+#endif
     dictionaries[0].sb->get(coordinates, output, sizeOutput);
     output[sizeOutput] = '\0';
 }
 
 bool DictMgmt::getNumber(const char *key, const int sizeKey, nTerm *value) {
+#ifdef MT
+    std::lock_guard<std::mutex> lock(mutexRead);
+#endif
     int i = 0;
     while (i < dictionaries.size()) {
         if (!dictionaries[i].dict->get((tTerm*) key, sizeKey, value)) {
diff --git a/src/trident/tree/root.cpp b/src/trident/tree/root.cpp
index 1a25af4..61a347e 100644
--- a/src/trident/tree/root.cpp
+++ b/src/trident/tree/root.cpp
@@ -105,6 +105,10 @@ Root::Root(string path, StringBuffer *buffer, bool readOnly, PropertyMap &conf)
     }
 
 bool Root::get(nTerm key, TermCoordinates *value) {
+#ifdef MT
+    //The lookup can load nodes and change the cache of the tree
+    std::lock_guard<std::recursive_mutex> lock(context->getMutex());
+#endif
     Node *node = rootNode;
     while (node->canHaveChildren()) {
         node = node->getChildForKey(key);
@@ -114,6 +118,10 @@ bool Root::get(nTerm key, TermCoordinates *value) {
 }
 
 bool Root::get(nTerm key, int64_t &coordinates) {
+#ifdef MT
+    //The lookup can load nodes and change the cache of the tree
+    std::lock_guard<std::recursive_mutex> lock(context->getMutex());
+#endif
     Node *node = rootNode;
     while (node->canHaveChildren()) {
         node = node->getChildForKey(key);
@@ -122,6 +130,10 @@ bool Root::get(nTerm key, int64_t &coordinates) {
 }
 
 bool Root::get(tTerm *key, const int sizeKey, nTerm *value) {
+#ifdef MT
+    //The lookup can load nodes and change the cache of the tree
+    std::lock_guard<std::recursive_mutex> lock(context->getMutex());
+#endif
     Node *node = rootNode;
     while (node->canHaveChildren()) {
         node = node->getChildForKey(key, sizeKey);
@@ -241,6 +253,10 @@ tTerm _smallest_text[] = "";
 tTerm *SMALLEST_TEXT = _smallest_text;
 
 TreeItr *Root::itr() {
+#ifdef MT
+    //Looking for the leaf can load nodes and change the cache of the tree
+    std::lock_guard<std::recursive_mutex> lock(context->getMutex());
+#endif
     //Get smallest leaf
     Node *node = rootNode;
     if (context->textKeys()) {
diff --git a/src/trident/tree/treeitr.cpp b/src/trident/tree/treeitr.cpp
index b598b2a..e763d46 100644
--- a/src/trident/tree/treeitr.cpp
+++ b/src/trident/tree/treeitr.cpp
@@ -40,6 +40,10 @@ bool TreeItr::hasNext() {
         return false;
     }
 
+#ifdef MT
+    //Other threads can read the same leaves
+    std::lock_guard<std::recursive_mutex> lock(root->getContext()->getMutex());
+#endif
     if (currentPos >= currentLeaf->getCurrentSize()) {
 
         currentLeaf = currentLeaf->getRightSibling();
@@ -58,11 +62,19 @@ bool TreeItr::hasNext() {
 }
 
 int64_t TreeItr::next(TermCoordinates *value) {
+#ifdef MT
+    //Other threads can read the same leaves
+    std::lock_guard<std::recursive_mutex> lock(root->getContext()->getMutex());
+#endif
     currentLeaf->getValueAtPos(currentPos, value);
     return currentLeaf->getKey(currentPos++);
 }
 
 int64_t TreeItr::next(int64_t &value) {
+#ifdef MT
+    //Other threads can read the same leaves
+    std::lock_guard<std::recursive_mutex> lock(root->getContext()->getMutex());
+#endif
     nTerm v;
     currentLeaf->getValueAtPos(currentPos, &v);
     value = v;
-- 
2.43.0


From 2bb8ba6f93dcabec0570e53de7ae1769b823e966 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:24:06 +0000
Subject: [PATCH 063/119] hook: a simulation can override numeric parameters of
 the store under TRIDENT_SIM

---
 src/trident/kb/kbconfig.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/trident/kb/kbconfig.cpp b/src/trident/kb/kbconfig.cpp
index 662c067..1e3596d 100644
--- a/src/trident/kb/kbconfig.cpp
+++ b/src/trident/kb/kbconfig.cpp
@@ -97,6 +97,11 @@ KBConfig::KBConfig() {
     internalMap.setLong(SB_CACHESIZE, INT64_C(128) * 1024 * 1024); //128MB
 }
 
+#ifdef TRIDENT_SIM
+//A simulation can use smaller nodes and files than the defaults
+extern "C" int64_t trident_sim_param(int key, int64_t value) __attribute__((weak));
+#endif
+
 void KBConfig::setParam(KBParam key, string value) {
     internalMap.set(key, value);
 }
@@ -110,6 +115,10 @@ void KBConfig::setParamInt(KBParam key, int value) {
 }
 
 int KBConfig::getParamInt(KBParam key) {
+#ifdef TRIDENT_SIM
+    if (trident_sim_param)
+        return (int) trident_sim_param(key, internalMap.getInt(key));
+#endif
     return internalMap.getInt(key);
 }
 
@@ -118,6 +127,10 @@ void KBConfig::setParamLong(KBParam key, int64_t value) {
 }
 
 int64_t KBConfig::getParamLong(KBParam key) {
+#ifdef TRIDENT_SIM
+    if (trident_sim_param)
+        return trident_sim_param(key, internalMap.getLong(key));
+#endif
     return internalMap.getLong(key);
 }
 
-- 
2.43.0


From 25ad8d444c3734fcb6089abb2689e5d877bed0a9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:34:28 +0000
Subject: [PATCH 064/119] fix: iterators of the tree read leaves that the node
 cache had removed meanwhile

---
 include/trident/tree/cache.h   |  7 ++++
 include/trident/tree/treeitr.h |  7 ++++
 src/trident/tree/cache.cpp     |  1 +
 src/trident/tree/treeitr.cpp   | 66 ++++++++++++++++++++++++++++++++--
 4 files changed, 79 insertions(+), 2 deletions(-)

diff --git a/include/trident/tree/cache.h b/include/trident/tree/cache.h
index 8d1aba9..092897d 100644
--- a/include/trident/tree/cache.h
+++ b/include/trident/tree/cache.h
@@ -43,6 +43,8 @@ private:
     const bool compressedNodes;
 
     std::deque<Node*> registeredNodes;
+    //Number of nodes that were removed because there was no more space
+    int64_t nEvictions;
     const int maxNodesInCache;
 
     NodeManager *manager;
@@ -58,6 +60,7 @@ public:
         context = NULL;
         factory = NULL;
         manager = NULL;
+        nEvictions = 0;
         memset(supportBuffer, 0, SIZE_SUPPORT_BUFFER);
         memset(supportBuffer2, 0, SIZE_SUPPORT_BUFFER);
     }
@@ -68,6 +71,10 @@ public:
 
     Node *getNodeFromCache(int64_t id);
 
+    int64_t getNEvictions() const {
+        return nEvictions;
+    }
+
     bool areNodesCompressed() const {
         return compressedNodes;
     }
diff --git a/include/trident/tree/treeitr.h b/include/trident/tree/treeitr.h
index d489a88..1b13279 100644
--- a/include/trident/tree/treeitr.h
+++ b/include/trident/tree/treeitr.h
@@ -35,8 +35,15 @@ private:
     Node *root;
     Leaf *currentLeaf;
     int currentPos;
+    int64_t nEvictions;
+    bool started;
+    int64_t lastKey;
     //Cache *cache;
 
+    void reloadLeaf();
+
+    int64_t nextKey();
+
 public:
     TreeItr() {}
 
diff --git a/src/trident/tree/cache.cpp b/src/trident/tree/cache.cpp
index 75ddc57..c65fea3 100644
--- a/src/trident/tree/cache.cpp
+++ b/src/trident/tree/cache.cpp
@@ -115,6 +115,7 @@ void Cache::registerNode(Node *node) {
         registeredNodes.pop_front();
 
         if (n->getParent() != NULL) {
+            nEvictions++;
             flushNode(n, true);
         }
     }
diff --git a/src/trident/tree/treeitr.cpp b/src/trident/tree/treeitr.cpp
index e763d46..28a7a2f 100644
--- a/src/trident/tree/treeitr.cpp
+++ b/src/trident/tree/treeitr.cpp
@@ -24,17 +24,71 @@
 #include <trident/tree/leaf.h>
 #include <trident/tree/treecontext.h>
 #include <trident/tree/cache.h>
+#include <trident/tree/stringbuffer.h>
+
+#include <string>
 
 TreeItr::TreeItr(Node *root, Leaf *firstLeaf) {
     this->root = root;
     currentLeaf = firstLeaf;
     currentPos = 0;
+    nEvictions = root->getContext()->getCache()->getNEvictions();
+    started = false;
+    lastKey = 0;
 
     //I temporary remove this leaf from the caching system.
     //cache = root->getContext()->getCache();
     //cache->unregisterNode(currentLeaf);
 }
 
+//If the cache removed some leaves since the last call, then the current one
+//might be among them. Get it again from its last key
+void TreeItr::reloadLeaf() {
+    TreeContext *context = root->getContext();
+    Cache *cache = context->getCache();
+    if (nEvictions == cache->getNEvictions()) {
+        return;
+    }
+
+    Node *node = root;
+    if (context->textKeys()) {
+        //The keys of the leaves are positions in the string buffer
+        std::string text;
+        if (started) {
+            int size = 0;
+            const char *rawText = context->getStringBuffer()->get(lastKey, size);
+            text = std::string(rawText, size);
+        }
+        while (node->canHaveChildren()) {
+            node = node->getChildForKey((tTerm*) text.c_str(), text.size());
+        }
+    } else {
+        while (node->canHaveChildren()) {
+            node = node->getChildForKey(lastKey);
+        }
+    }
+    currentLeaf = (Leaf *) node;
+    currentPos = 0;
+    if (started) {
+        while (currentPos < currentLeaf->getCurrentSize()
+                && currentLeaf->getKey(currentPos) != lastKey) {
+            currentPos++;
+        }
+        currentPos++;
+        if (currentPos >= currentLeaf->getCurrentSize()) {
+            currentLeaf = currentLeaf->getRightSibling();
+            currentPos = 0;
+        }
+    }
+    nEvictions = cache->getNEvictions();
+}
+
+int64_t TreeItr::nextKey() {
+    lastKey = currentLeaf->getKey(currentPos++);
+    started = true;
+    return lastKey;
+}
+
 bool TreeItr::hasNext() {
     if (currentLeaf == NULL) {
         return false;
@@ -44,9 +98,15 @@ bool TreeItr::hasNext() {
     //Other threads can read the same leaves
     std::lock_guard<std::recursive_mutex> lock(root->getContext()->getMutex());
 #endif
+    reloadLeaf();
+    if (currentLeaf == NULL) {
+        return false;
+    }
+
     if (currentPos >= currentLeaf->getCurrentSize()) {
 
         currentLeaf = currentLeaf->getRightSibling();
+        nEvictions = root->getContext()->getCache()->getNEvictions();
 
         if (currentLeaf == NULL) {
 //          cache->registerNode(currentLeaf);
@@ -66,8 +126,9 @@ int64_t TreeItr::next(TermCoordinates *value) {
     //Other threads can read the same leaves
     std::lock_guard<std::recursive_mutex> lock(root->getContext()->getMutex());
 #endif
+    reloadLeaf();
     currentLeaf->getValueAtPos(currentPos, value);
-    return currentLeaf->getKey(currentPos++);
+    return nextKey();
 }
 
 int64_t TreeItr::next(int64_t &value) {
@@ -75,8 +136,9 @@ int64_t TreeItr::next(int64_t &value) {
     //Other threads can read the same leaves
     std::lock_guard<std::recursive_mutex> lock(root->getContext()->getMutex());
 #endif
+    reloadLeaf();
     nTerm v;
     currentLeaf->getValueAtPos(currentPos, &v);
     value = v;
-    return currentLeaf->getKey(currentPos++);
+    return nextKey();
 }
-- 
2.43.0


From e9966d11e2e157f2bc82430741dea9a10a98fb7b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:40:15 +0000
Subject: [PATCH 065/119] fix: the scheduler was destroyed under workers that
 had not started yet

---
 rdf3x/src/rts/Scheduler.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rdf3x/src/rts/Scheduler.cpp b/rdf3x/src/rts/Scheduler.cpp
index 779a9cd..a67807d 100644
--- a/rdf3x/src/rts/Scheduler.cpp
+++ b/rdf3x/src/rts/Scheduler.cpp
@@ -31,7 +31,9 @@ Scheduler::Scheduler()
    if (threads) {
       workerLock.lock();
       for (unsigned index=0;index<threads;index++)
-         Thread::start(asyncWorker,this);
+         if (Thread::start(asyncWorker,this))
+            workerThreads++;
+      threads=workerThreads;
       workerLock.unlock();
    }
 }
@@ -75,9 +77,8 @@ void Scheduler::executeSingleThreaded(Operator* root)
 void Scheduler::performWork()
    // Perform the work of a worker thread
 {
-   // Register as worker
+   // The constructor has registered us as worker
    workerLock.lock();
-   workerThreads++;
 
    // Perform the work
    while (!workersDie) {
-- 
2.43.0


From 267c2516d1c373cd166f21424b503ad8a4548f33 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:40:15 +0000
Subject: [PATCH 066/119] fix: the scheduler waited on and released its lock
 without holding it

---
 rdf3x/src/rts/Scheduler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdf3x/src/rts/Scheduler.cpp b/rdf3x/src/rts/Scheduler.cpp
index a67807d..7993471 100644
--- a/rdf3x/src/rts/Scheduler.cpp
+++ b/rdf3x/src/rts/Scheduler.cpp
@@ -128,6 +128,7 @@ void Scheduler::execute(Operator* root)
    }
 
    // Collect all asynchronous execution points
+   workerLock.lock();
    for (vector<RegisteredPoint*>::const_iterator iter=registeredPoints.begin(),limit=registeredPoints.end();iter!=limit;++iter)
       delete *iter;
    registeredPoints.clear();
-- 
2.43.0


From f84fd6c67c5a020e685fe12b5187fcb23928fd61 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:40:15 +0000
Subject: [PATCH 067/119] fix: Event::timedWait reported timeouts up to 0.9 s
 early

---
 rdf3x/src/infra/Event.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdf3x/src/infra/Event.cpp b/rdf3x/src/infra/Event.cpp
index 5279898..61d790e 100644
--- a/rdf3x/src/infra/Event.cpp
+++ b/rdf3x/src/infra/Event.cpp
@@ -103,7 +103,7 @@ bool Event::timedWait(Mutex& mutex,unsigned timeoutMilli)
    return !timeout;
 #else
    struct timeval now; gettimeofday(&now,0);
-   uint64_t nowT=(static_cast<uint64_t>(now.tv_sec)*1000)+(now.tv_usec/10000);
+   uint64_t nowT=(static_cast<uint64_t>(now.tv_sec)*1000)+(now.tv_usec/1000);
    uint64_t future=nowT+timeoutMilli;
    struct timespec abstime;
    abstime.tv_sec=future/1000; abstime.tv_nsec=(future%1000)*1000000;
-- 
2.43.0


From e97ee198574db21e8d40f1a492673b4e590e81d4 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:49:21 +0000
Subject: [PATCH 068/119] fix: the Turtle parser read its last block again at
 the end of some files

---
 rdf3x/src/cts/TurtleParser.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 402b492..138aae0 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -46,7 +46,6 @@ bool TurtleParser::Lexer::doRead(char& c)
    while (in) {
       readBufferStart=readBuffer;
       in.read(readBuffer,readBufferSize);
-      if (!in.gcount()) return false;
       readBufferEnd=readBufferStart+in.gcount();
 
       if (readBufferStart<readBufferEnd) {
-- 
2.43.0


From d3cccda9568e2c7d622c3fc908473b9bf5cf46ad Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:49:21 +0000
Subject: [PATCH 069/119] fix: the Turtle parser took a read error for the end
 of the document

---
 rdf3x/src/cts/TurtleParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 138aae0..c079bae 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -53,6 +53,11 @@ bool TurtleParser::Lexer::doRead(char& c)
          return true;
       }
    }
+   if (in.bad()) {
+      stringstream msg;
+      msg << "lexer error in line " << line << ": the input could not be read";
+      throw Exception(msg.str());
+   }
    return false;
 }
 //---------------------------------------------------------------------------
-- 
2.43.0


From bcf2d35a8d66def01ce423af4fc49aca142f8a15 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:49:21 +0000
Subject: [PATCH 070/119] fix: the Turtle parser cut unicode escapes beyond the
 basic plane

---
 rdf3x/src/cts/TurtleParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index c079bae..1a354e7 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -159,6 +159,11 @@ static string encodeUtf8(unsigned code)
    } else if (code<0x800) {
       result+=static_cast<char>(0xc0 | (0x1f & (code >> 6)));
       result+=static_cast<char>(0x80 | (0x3f & code));
+   } else if (code>=0x10000) {
+      result+=static_cast<char>(0xf0 | (0x07 & (code >> 18)));
+      result+=static_cast<char>(0x80 | (0x3f & (code >> 12)));
+      result+=static_cast<char>(0x80 | (0x3f & (code >>  6)));
+      result+=static_cast<char>(0x80 | (0x3f & code));
    } else {
       result+=static_cast<char>(0xe0 | (0x0f & (code >> 12)));
       result+=static_cast<char>(0x80 | (0x3f & (code >>  6)));
@@ -189,6 +194,7 @@ void TurtleParser::Lexer::lexEscape(std::string& token)
       }
       if (c=='U') {
          unsigned code=lexHexCode(8);
+         if (code>0x10FFFF) break;
          token+=encodeUtf8(code);
          return;
       }
-- 
2.43.0


From 60cc3f7a9dd7ce9033fbc9dc1e3fe1a20ccab8ea Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:49:21 +0000
Subject: [PATCH 071/119] fix: the Turtle parser lost the character after a
 quote in a long string

---
 rdf3x/src/cts/TurtleParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 1a354e7..4204584 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -214,9 +214,9 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexLongString(std::string& token
    while (read(c)) {
       if (c=='\"') {
          if (!read(c)) break;
-         if (c!='\"') { token+='\"'; continue; }
+         if (c!='\"') { token+='\"'; unread(); continue; }
          if (!read(c)) break;
-         if (c!='\"') { token+="\"\""; continue; }
+         if (c!='\"') { token+="\"\""; unread(); continue; }
          return String;
       }
       if (c=='\\') {
-- 
2.43.0


From d7b4a2323eee6d6b9d8f059eb68d9e9ca2ebc762 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:49:21 +0000
Subject: [PATCH 072/119] fix: the Turtle parser refused collections and
 bracketed subjects

---
 rdf3x/src/cts/TurtleParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 4204584..1c2cf8a 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -516,6 +516,7 @@ void TurtleParser::parseBlank(std::string& entry)
                triples.push_back(Triple(nodes[index],"http://www.w3.org/1999/02/22-rdf-syntax-ns#rest",nodes[index+1],Type::URI,""));
             }
             entry=nodes.front();
+            return;
          }
 
       default: parseError("invalid blank entry");
@@ -551,6 +552,7 @@ void TurtleParser::parseSubject(Lexer::Token token,std::string& subject)
          // Opening bracket/parenthesis
          lexer.unget(token,subject);
          parseBlank(subject);
+         return;
       default: parseError("invalid subject");
    }
 }
-- 
2.43.0


From e1c2d815f73bef7a11ea4b1ae08f4b0013c74848 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:49:21 +0000
Subject: [PATCH 073/119] fix: the Turtle parser accepted a literal without the
 type announced for it

---
 rdf3x/src/cts/TurtleParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 1c2cf8a..62cdcc9 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -636,6 +636,8 @@ void TurtleParser::parseObject(std::string& object,Type::ID& objectType,std::str
                   parseQualifiedName("",type);
                } else if (token==Lexer::Name) {
                   parseQualifiedName(type,type);
+               } else {
+                  parseError("type expected after '^^'");
                }
                if (type=="http://www.w3.org/2001/XMLSchema#string") {
                   objectType=Type::String;
-- 
2.43.0


From b020f862e8d98d260159316f969ed8259dcc941e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:49:21 +0000
Subject: [PATCH 074/119] fix: the Turtle parser took the prefixes a, true and
 false for keywords

---
 rdf3x/src/cts/TurtleParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 62cdcc9..918dbe6 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -340,10 +340,12 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::next(std::string& token)
          default:
             if (((c>='A')&&(c<='Z'))||((c>='a')&&(c<='z'))||(c=='_')) { // XXX unicode!
                token=c;
+               bool prefix=false;
                while (read(c)) {
-                  if (issep(c)) { unread(); break; }
+                  if (issep(c)) { unread(); prefix=(c==':'); break; }
                   token+=c;
                }
+               if (prefix) return Name;
                if (token=="a") return A;
                if (token=="true") return True;
                if (token=="false") return False;
-- 
2.43.0


From 405e48da1d07298581be2dddd6ba4398f5b0ba6d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:49:21 +0000
Subject: [PATCH 075/119] fix: the Turtle parser confused named and unnamed
 blank nodes

---
 rdf3x/src/cts/TurtleParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 918dbe6..b8b8cb8 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -469,6 +469,8 @@ void TurtleParser::parseBlank(std::string& entry)
       case Lexer::Name:
          if ((entry!="_")||(lexer.next()!=Lexer::Colon)||(!isName(lexer.next(entry))))
             parseError("blank nodes must start with '_:'");
+         // Names of this form are used for unnamed nodes
+         if (entry[0]=='_') entry="_"+entry;
          entry="_:"+entry;
          return;
       case Lexer::LBracket:
-- 
2.43.0


From 944077c2d9669bbed123c4de426e898e27a2a81f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:49:21 +0000
Subject: [PATCH 076/119] fix: the Turtle parser prepended the base to absolute
 URIs

---
 rdf3x/src/cts/TurtleParser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index b8b8cb8..36f9e28 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -395,8 +395,9 @@ void TurtleParser::constructAbsoluteURI(std::string& uri)
    if (base.empty())
       return;
 
-   // Already absolute? XXX fix the check!
-   if (uri.find("://")<10)
+   // Already absolute?
+   string::size_type pos=uri.find_first_of(":/?#");
+   if ((pos!=string::npos)&&(pos>0)&&(uri[pos]==':'))
       return;
 
    // Put the base in front
-- 
2.43.0


From bc6de97b667f88cb8af8ac60dfe3426b2c221ae7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:54:32 +0000
Subject: [PATCH 077/119] fix: the Turtle parser joined a prefix with a name
 that followed later

---
 rdf3x/include/cts/parser/TurtleParser.hpp |  2 ++
 rdf3x/src/cts/TurtleParser.cpp            | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/rdf3x/include/cts/parser/TurtleParser.hpp b/rdf3x/include/cts/parser/TurtleParser.hpp
index 38b8052..9233b5b 100644
--- a/rdf3x/include/cts/parser/TurtleParser.hpp
+++ b/rdf3x/include/cts/parser/TurtleParser.hpp
@@ -90,6 +90,8 @@ class TurtleParser
       Token next(std::string& value);
       /// The next token (ignoring the value)
       Token next() { return next(ignored); }
+      /// Does a name start at the current position?
+      bool atName();
       /// Put a token and a string back
       void unget(Token t,const std::string& s) { putBack=t; if (t>=Integer) putBackValue=s; }
       /// Put a token back
diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 36f9e28..580b50e 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -299,6 +299,15 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexURI(std::string& token,char c
    }
 }
 //---------------------------------------------------------------------------
+bool TurtleParser::Lexer::atName()
+   // Does a name start at the current position?
+{
+   char c;
+   if ((putBack!=Eof)||(!read(c))) return false;
+   unread();
+   return ((c>='A')&&(c<='Z'))||((c>='a')&&(c<='z'))||(c=='_');
+}
+//---------------------------------------------------------------------------
 TurtleParser::Lexer::Token TurtleParser::Lexer::next(std::string& token)
    // Get the next token
 {
@@ -453,13 +462,10 @@ void TurtleParser::parseQualifiedName(const string& prefix,string& name)
       parseError("unknown prefix '"+prefix+"'");
    string expandedPrefix=prefixes[prefix];
 
-   Lexer::Token token=lexer.next(name);
-   if (isName(token)) {
-      name=expandedPrefix+name;
-   } else {
-      lexer.unget(token,name);
+   // The local part has to follow immediately, it can be empty
+   if (lexer.atName()&&isName(lexer.next(name)))
+      name=expandedPrefix+name; else
       name=expandedPrefix;
-   }
 }
 //---------------------------------------------------------------------------
 void TurtleParser::parseBlank(std::string& entry)
-- 
2.43.0


From eee40aea17bc15e24495285c0886627ed80840ca Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:54:32 +0000
Subject: [PATCH 078/119] fix: the Turtle parser split decimal and double
 numbers at the dot

---
 rdf3x/include/cts/parser/TurtleParser.hpp |  2 ++
 rdf3x/src/cts/TurtleParser.cpp            | 24 ++++++++++++++++++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/rdf3x/include/cts/parser/TurtleParser.hpp b/rdf3x/include/cts/parser/TurtleParser.hpp
index 9233b5b..2183ea8 100644
--- a/rdf3x/include/cts/parser/TurtleParser.hpp
+++ b/rdf3x/include/cts/parser/TurtleParser.hpp
@@ -48,6 +48,8 @@ class TurtleParser
       Token putBack;
       /// The putback string
       std::string putBackValue;
+      /// A dot has been read already
+      bool dot;
       /// Buffer for parsing when ignoring the value
       std::string ignored;
       /// The current line
diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index 580b50e..ca11f11 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -30,7 +30,7 @@ TurtleParser::Exception::~Exception()
 }
 //---------------------------------------------------------------------------
 TurtleParser::Lexer::Lexer(istream& in)
-   : in(in),putBack(Eof),line(1),readBufferStart(0),readBufferEnd(0)
+   : in(in),putBack(Eof),dot(false),line(1),readBufferStart(0),readBufferEnd(0)
    // Constructor
 {
 }
@@ -82,7 +82,19 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexNumber(std::string& token,cha
             token+=c;
             if (!read(c)) return Integer;
          }
-         if (issep(c)) {
+         if (c=='.') {
+            // Without digits behind it the dot ends the statement
+            char d;
+            bool digits=false;
+            if (read(d)) {
+               unread();
+               digits=(d>='0')&&(d<='9');
+            }
+            if (!digits) {
+               dot=true;
+               return Integer;
+            }
+         } else if (issep(c)) {
             unread();
             return Integer;
          }
@@ -303,7 +315,7 @@ bool TurtleParser::Lexer::atName()
    // Does a name start at the current position?
 {
    char c;
-   if ((putBack!=Eof)||(!read(c))) return false;
+   if ((putBack!=Eof)||dot||(!read(c))) return false;
    unread();
    return ((c>='A')&&(c<='Z'))||((c>='a')&&(c<='z'))||(c=='_');
 }
@@ -319,6 +331,12 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::next(std::string& token)
       return result;
    }
 
+   // Already read together with a number?
+   if (dot) {
+      dot=false;
+      return Dot;
+   }
+
    // Read more
    char c;
    while (read(c)) {
-- 
2.43.0


From 556c491d8323454a7f622ce86ef3123e0d60a02e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 04:55:00 +0000
Subject: [PATCH 079/119] fix: the Turtle parser refused types with the empty
 prefix

---
 rdf3x/src/cts/TurtleParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rdf3x/src/cts/TurtleParser.cpp b/rdf3x/src/cts/TurtleParser.cpp
index ca11f11..2bc208b 100644
--- a/rdf3x/src/cts/TurtleParser.cpp
+++ b/rdf3x/src/cts/TurtleParser.cpp
@@ -662,6 +662,7 @@ void TurtleParser::parseObject(std::string& object,Type::ID& objectType,std::str
                if (token==Lexer::URI) {
                   // Already parsed
                } else if (token==Lexer::Colon) {
+                  lexer.unget(token,type);
                   parseQualifiedName("",type);
                } else if (token==Lexer::Name) {
                   parseQualifiedName(type,type);
-- 
2.43.0


From 5233b172bab0b16767d51b92a99f0b2cc01f7326 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:02:02 +0000
Subject: [PATCH 080/119] fix: initialisation of embeddings never finished with
 more threads than rows

---
 include/trident/ml/embeddings.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/trident/ml/embeddings.h b/include/trident/ml/embeddings.h
index c6ffba7..d692173 100644
--- a/include/trident/ml/embeddings.h
+++ b/include/trident/ml/embeddings.h
@@ -237,13 +237,15 @@ class Embeddings {
             K min = -6.0 / sqrt(n + dim);
             K max = 6.0 / sqrt(n + dim);
             if (nthreads > 1) {
-                uint64_t batchPerThread = n / nthreads;
+                //Every thread gets at least one row
+                uint64_t batchPerThread = ((uint64_t)n + nthreads - 1) / nthreads;
                 std::vector<std::thread> threads;
                 K* begin = raw;
-                K* end = raw + n * dim;
+                K* end = raw + (uint64_t)n * dim;
                 while (begin < end) {
-                    uint64_t offset = batchPerThread * dim;
-                    K* tmpend = (begin + offset) < end ? begin + offset : end;
+                    uint64_t offset = std::min(batchPerThread * dim,
+                            (uint64_t)(end - begin));
+                    K* tmpend = begin + offset;
                     threads.push_back(std::thread(Embeddings::init_seq,
                                 begin, tmpend,
                                 dim, min, max, normalization));
-- 
2.43.0


From 054171141be2b59db4331ef66518311f86e1a10a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:02:02 +0000
Subject: [PATCH 081/119] fix: the median of the updates was read past the end
 of the list

---
 include/trident/ml/embeddings.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/trident/ml/embeddings.h b/include/trident/ml/embeddings.h
index d692173..bb11d5c 100644
--- a/include/trident/ml/embeddings.h
+++ b/include/trident/ml/embeddings.h
@@ -221,8 +221,8 @@ class Embeddings {
             std::sort(nonzeroupdates.begin(), nonzeroupdates.end());
             if (nonzeroupdates.size() > 0) {
                 if (nonzeroupdates.size() % 2 == 0) {
-                    medianLastEpoch = (nonzeroupdates[nonzeroupdates.size() / 2] +
-                            nonzeroupdates[nonzeroupdates.size() / 2 + 1]) / 2;
+                    medianLastEpoch = (nonzeroupdates[nonzeroupdates.size() / 2 - 1] +
+                            nonzeroupdates[nonzeroupdates.size() / 2]) / 2;
                 } else {
                     medianLastEpoch = nonzeroupdates[nonzeroupdates.size() / 2];
                 }
-- 
2.43.0


From cf880e7f47fbcde91a5691fd7b0161711d21db1c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:02:23 +0000
Subject: [PATCH 082/119] fix: embeddings kept in a file were mapped read only

---
 include/trident/ml/embeddings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trident/ml/embeddings.h b/include/trident/ml/embeddings.h
index bb11d5c..c41d81a 100644
--- a/include/trident/ml/embeddings.h
+++ b/include/trident/ml/embeddings.h
@@ -124,7 +124,7 @@ class Embeddings {
                 LOG(DEBUGL) << "Resizing the file to " << rawsize << " bytes ...";
                 Utils::resizeFile(rawFilename, rawsize);
                 LOG(DEBUGL) << "Creating memory mapped file ...";
-                fraw = std::unique_ptr<MemoryMappedFile>(new MemoryMappedFile(rawFilename, true, 0, rawsize));
+                fraw = std::unique_ptr<MemoryMappedFile>(new MemoryMappedFile(rawFilename, false, 0, rawsize));
                 raw = (K*)fraw->getData();
             }
 
-- 
2.43.0


From c44217f5f07aa3c681f24f97184d3d646cc32fe8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:02:23 +0000
Subject: [PATCH 083/119] fix: storing embeddings with zero threads divided by
 zero

---
 include/trident/ml/embeddings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trident/ml/embeddings.h b/include/trident/ml/embeddings.h
index c41d81a..48365a1 100644
--- a/include/trident/ml/embeddings.h
+++ b/include/trident/ml/embeddings.h
@@ -268,7 +268,7 @@ class Embeddings {
                 LOG(WARNL) << "Storing the embeddings does not use parallelism";
             }
 
-            uint64_t batchsize = (int64_t)n * dim / nthreads;
+            uint64_t batchsize = (int64_t)n * dim / std::max(nthreads, (uint16_t)1);
             //Store metadata
             {
                 std::string metapath = path;
-- 
2.43.0


From 8ea0aa37cfb005a706d335c2df83c06486940ecf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:02:55 +0000
Subject: [PATCH 084/119] fix: embeddings that could not be written completely
 were reported as stored

---
 include/trident/ml/embeddings.h | 37 ++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/include/trident/ml/embeddings.h b/include/trident/ml/embeddings.h
index 48365a1..ec019e6 100644
--- a/include/trident/ml/embeddings.h
+++ b/include/trident/ml/embeddings.h
@@ -260,6 +260,17 @@ class Embeddings {
             }
         }
 
+        //Write everything in a new file, or throw an exception
+        static void writeFile(std::string path, const char *data, size_t nbytes) {
+            std::ofstream ofs(path, std::ofstream::out | std::ofstream::binary);
+            ofs.write(data, nbytes);
+            ofs.close();
+            if (!ofs) {
+                LOG(ERRORL) << "Could not write the file " << path;
+                throw 10;
+            }
+        }
+
         void store(std::string path, bool compress, uint16_t nthreads) {
             if (compress) {
                 LOG(WARNL) << "Storing embeddings in compressed format is disabled";
@@ -273,20 +284,18 @@ class Embeddings {
             {
                 std::string metapath = path;
                 metapath = metapath + "-meta";
-                std::ofstream ofs;
-                ofs.open(metapath, std::ofstream::out);
-                ofs.write((char*)&batchsize, 4);
-                ofs.write((char*)&n, 4);
-                ofs.write((char*)&dim, 2);
+                char buffer[10];
+                memcpy(buffer, &batchsize, 4);
+                memcpy(buffer + 4, &n, 4);
+                memcpy(buffer + 8, &dim, 2);
+                writeFile(metapath, buffer, 10);
             }
 
             if (ismem) {
                 //Dump the content of the array into a file as-is
-                ofstream dest(path, ios::binary);
                 size_t nbytes = (uint64_t)n * (uint64_t)dim * sizeof(K);
                 LOG(DEBUGL) << "Dumping on disk " << nbytes << " bytes " << n << " " << dim << " " << sizeof(K);
-                dest.write((char*)mraw.data(), nbytes);
-                dest.close();
+                writeFile(path, (char*)mraw.data(), nbytes);
             } else {
                 //Flush the content to file
                 LOG(DEBUGL) << "Flushing the content to disk ...";
@@ -295,15 +304,17 @@ class Embeddings {
                 //Copy the memory-mapped file
                 LOG(DEBUGL) << "Copying the embeddings to " << path;
                 Utils::copy(rawFilename, path);
+                if (Utils::fileSize(path) != fraw->getLength()) {
+                    LOG(ERRORL) << "Could not write the file " << path;
+                    throw 10;
+                }
             }
 
             //Copy data about conflicts
             {
                 std::string cpath = path;
                 cpath = cpath + "-conflicts";
-                std::ofstream ofs;
-                ofs.open(cpath, std::ofstream::out);
-                ofs.write((char*)conflicts.data(),
+                writeFile(cpath, (char*)conflicts.data(),
                         sizeof(uint32_t) * conflicts.size());
             }
 
@@ -311,9 +322,7 @@ class Embeddings {
             {
                 std::string cpath = path;
                 cpath = cpath + "-updates";
-                std::ofstream ofs;
-                ofs.open(cpath, std::ofstream::out);
-                ofs.write((char*)updates.data(),
+                writeFile(cpath, (char*)updates.data(),
                         sizeof(uint32_t) * updates.size());
             }
 
-- 
2.43.0


From 7dc7ea421af931df8e98f3ab215fda432c7834cc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:02:55 +0000
Subject: [PATCH 085/119] fix: damaged files were loaded as embeddings

---
 include/trident/ml/embeddings.h | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/trident/ml/embeddings.h b/include/trident/ml/embeddings.h
index ec019e6..3870d8b 100644
--- a/include/trident/ml/embeddings.h
+++ b/include/trident/ml/embeddings.h
@@ -329,37 +329,45 @@ class Embeddings {
             LOG(DEBUGL) << "done.";
         }
 
+        //Read nbytes from the beginning of a file, or throw an exception
+        static void readFile(std::string path, char *data, size_t nbytes) {
+            std::ifstream ifs(path, std::ifstream::in | std::ifstream::binary);
+            ifs.read(data, nbytes);
+            if (!ifs || ifs.gcount() != (std::streamsize)nbytes) {
+                LOG(ERRORL) << "Could not read the file " << path;
+                throw 10;
+            }
+        }
+
         static std::shared_ptr<Embeddings<K>> load(std::string path) {
             //There should be a file that ends with -meta
             uint32_t n;
             uint16_t dim;
             //Get the metadata
-            std::ifstream ifs;
-            ifs.open(path + "-meta", std::ifstream::in);
             char buffer[10];
-            ifs.read(buffer, 10);
+            readFile(path + "-meta", buffer, 10);
             //uint32_t embperblock = *(uint32_t*) buffer;
             n = *(uint32_t*)(buffer + 4);
             dim = *(uint16_t*)(buffer + 8);
-            ifs.close();
+            if (Utils::fileSize(path) != (uint64_t)n * dim * sizeof(K)) {
+                LOG(ERRORL) << "The file " << path << " does not contain "
+                    << n << " embeddings of size " << dim;
+                throw 10;
+            }
 
             //Count the files with a number as extension
             std::shared_ptr<Embeddings<double>> emb(new Embeddings(n, dim, path));
 
             //Load info about conflicts
             if (Utils::exists(path + "-conflicts")) {
-                ifs.open(path + "-conflicts", std::ifstream::in);
                 emb->getConflicts().resize(n);
-                ifs.read((char*)emb->getConflicts().data(), sizeof(uint32_t) * n);
-                ifs.close();
+                readFile(path + "-conflicts", (char*)emb->getConflicts().data(), sizeof(uint32_t) * n);
             }
 
             //Load info about updates
             if (Utils::exists(path + "-updates")) {
-                ifs.open(path + "-updates", std::ifstream::in);
                 emb->getUpdates().resize(n);
-                ifs.read((char*)emb->getUpdates().data(), sizeof(uint32_t) * n);
-                ifs.close();
+                readFile(path + "-updates", (char*)emb->getUpdates().data(), sizeof(uint32_t) * n);
             }
 
             return emb;
-- 
2.43.0


From 460801ccc853493f7864f67fe94aaf54bdfca505 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:13:11 +0000
Subject: [PATCH 086/119] fix: skipping ahead in a scan lost its position in
 the list of keys

---
 src/trident/iterators/scanitr.cpp | 30 ++++++++++++++++++++++++++++--
 src/trident/iterators/termitr.cpp |  5 ++++-
 2 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/trident/iterators/scanitr.cpp b/src/trident/iterators/scanitr.cpp
index 537a4e4..603153c 100644
--- a/src/trident/iterators/scanitr.cpp
+++ b/src/trident/iterators/scanitr.cpp
@@ -343,6 +343,19 @@ void ScanItr::reset(const char i) {
 
 void ScanItr::gotoKey(int64_t k) {
     if (k > getKey()) {
+        if (hnc) {
+            if (!hn) {
+                return;
+            }
+            if (!currentTable && !reversedItr) {
+                //hasNext() has already moved to a new key
+                const int64_t nextKey = itr2 ? itr2->getKey() : itr1->getKey();
+                if (nextKey >= k) {
+                    return;
+                }
+            }
+        }
+
         if (currentTable) {
             //release it
             if (currentTable != m_currentTable) {
@@ -356,14 +369,27 @@ void ScanItr::gotoKey(int64_t k) {
             }
             reversedItr = NULL;
         }
+        hnc = false;
 
         //Move forward
         if (itr2) {
             itr2->gotoKey(k);
             //I do not advance this iteration because it will be increased
             //the first time we call the hasNext() method.
-        }
-        if (itr1) {
+
+            //Instead, itr1 always points to the current element
+            if (itr1 && itr1->getKey() < k) {
+                itr1->gotoKey(k);
+                if (itr1->hasNext()) {
+                    itr1->next();
+                } else {
+                    if (itr1 != m_itr1) {
+                        q->releaseItr(itr1);
+                    }
+                    itr1 = NULL;
+                }
+            }
+        } else if (itr1) {
             itr1->gotoKey(k);
         }
     }
diff --git a/src/trident/iterators/termitr.cpp b/src/trident/iterators/termitr.cpp
index 3ba5551..13457a0 100644
--- a/src/trident/iterators/termitr.cpp
+++ b/src/trident/iterators/termitr.cpp
@@ -103,6 +103,9 @@ void TermItr::reset(char i) {
 }
 
 void TermItr::gotoKey(int64_t keyToSearch) {
+    if (buffer == NULL) {
+        return;
+    }
     //Is the file within the file range?
     cachedCount = -1;
     const int64_t lastKey = Utils::decode_longFixedBytes(endbuffer - 6, 5);
@@ -143,7 +146,7 @@ void TermItr::gotoKey(int64_t keyToSearch) {
     while (start < end) {
         const size_t nels = (end - start) / 11;
         const char *middle = start + (nels / 2) * 11;
-        const int64_t k = Utils::decode_long(middle + 5);
+        const int64_t k = Utils::decode_longFixedBytes(middle + 5, 5);
         if (k < keyToSearch) {
             start = middle + 11;
         } else if (k > keyToSearch) {
-- 
2.43.0


From 45c13988f0b92438cc39b4390f9f198cbe3612dc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:32:08 +0000
Subject: [PATCH 087/119] fix: a KB opened without the dictionary crashed if it
 had updates or when it was closed

---
 include/trident/kb/kb.h | 2 +-
 src/trident/kb/kb.cpp   | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/trident/kb/kb.h b/include/trident/kb/kb.h
index 0094f4d..724bd54 100644
--- a/include/trident/kb/kb.h
+++ b/include/trident/kb/kb.h
@@ -59,7 +59,7 @@ class KB {
         Stats stats;
 
         std::shared_ptr<DictMgmt::Dict> maindict;
-        DictMgmt *dictManager;
+        DictMgmt *dictManager = NULL; //Set only if the dictionary is enabled
         int dictPartitions;
         bool dictHash;
         std::vector<DictMgmt::Dict> dictUpdates;
diff --git a/src/trident/kb/kb.cpp b/src/trident/kb/kb.cpp
index 585449e..b79582a 100644
--- a/src/trident/kb/kb.cpp
+++ b/src/trident/kb/kb.cpp
@@ -347,7 +347,7 @@ KB::KB(const char *path,
                     LOG(DEBUGL) << "Time loading diff index " << sec.count() * 1000 << "ms.";
                 }
             }
-            if (!dictUpdates.empty()) {
+            if (dictManager != NULL && !dictUpdates.empty()) {
                 dictManager->addUpdates(dictUpdates);
                 //update total number of terms and nextID fields
                 for (auto itr = dictUpdates.begin(); itr != dictUpdates.end(); ++itr) {
@@ -356,8 +356,10 @@ KB::KB(const char *path,
                 }
             }
             //check also the global dictionary container in dictmanager
-            totalNumberTerms += dictManager->getGUDSize();
-            nextID = max(nextID, (int64_t) dictManager->getLargestGUDTerm() + 1);
+            if (dictManager != NULL) {
+                totalNumberTerms += dictManager->getGUDSize();
+                nextID = max(nextID, (int64_t) dictManager->getLargestGUDTerm() + 1);
+            }
         }
 
         for (int i = 0; i < N_PARTITIONS; i++) {
-- 
2.43.0


From 00486b02b7c89c2793f3169652252fcdec1b078e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:32:08 +0000
Subject: [PATCH 088/119] fix: training with evalits or storeits set to zero
 divided by zero

---
 include/trident/ml/trainworkflow.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/trident/ml/trainworkflow.h b/include/trident/ml/trainworkflow.h
index ddf9b1f..5a09761 100644
--- a/include/trident/ml/trainworkflow.h
+++ b/include/trident/ml/trainworkflow.h
@@ -138,13 +138,13 @@ class TrainWorkflow {
                         elapsed_seconds.count() << "sec." << sviol;
                 }
 
-                if (shouldStoreModel && (epoch + 1) % storeits == 0) {
+                if (shouldStoreModel && storeits > 0 && (epoch + 1) % storeits == 0) {
                     string pathmodel = storefolder + "/model-" + to_string(epoch+1);
                     LOG(INFOL) << "Storing the model into " << pathmodel << " with " << nstorethreads << " threads";
                     tr.store_model(pathmodel, compresstorage, nstorethreads);
                 }
 
-                if ((epoch + 1) % evalits == 0) {
+                if (evalits > 0 && (epoch + 1) % evalits == 0) {
                     if (Utils::exists(pathvalid)) {
                         //Load the loading data into a vector
                         std::vector<uint64_t> testset;
-- 
2.43.0


From f7f3fb44768f261c2b8671cdaa75e676061da76e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:32:26 +0000
Subject: [PATCH 089/119] fix: the best model was not replaced if the previous
 one was stored as a directory

---
 include/trident/ml/trainworkflow.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/trident/ml/trainworkflow.h b/include/trident/ml/trainworkflow.h
index 5a09761..013de5f 100644
--- a/include/trident/ml/trainworkflow.h
+++ b/include/trident/ml/trainworkflow.h
@@ -176,6 +176,10 @@ class TrainWorkflow {
                                 if (Utils::exists(pathbestmodel)) {
                                     Utils::rmlink(pathbestmodel);
                                 }
+                                //It was not a link but a copy of the model
+                                if (Utils::exists(pathbestmodel)) {
+                                    Utils::remove_all(pathbestmodel);
+                                }
                                 string pathmodel = storefolder + "/model-" + to_string(epoch+1);
                                 if (Utils::exists(pathmodel)) {
                                     //If the model already exist then link it
-- 
2.43.0


From 2c94e1d0d85be82be33b93f556b196e3247c414d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:32:40 +0000
Subject: [PATCH 090/119] fix: reading the last term of a batch file went past
 the end of the file

---
 src/trident/ml/batch.cpp | 69 +++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 40 deletions(-)

diff --git a/src/trident/ml/batch.cpp b/src/trident/ml/batch.cpp
index a8c9498..aad2daf 100644
--- a/src/trident/ml/batch.cpp
+++ b/src/trident/ml/batch.cpp
@@ -5,6 +5,7 @@
 #include <fstream>
 #include <algorithm>
 #include <random>
+#include <cstring>
 #include <unordered_map>
 
 BatchCreator::BatchCreator(string kbdir, uint64_t batchsize,
@@ -152,22 +153,24 @@ void BatchCreator::createInputForBatch(bool createTraining,
     LOG(INFOL) << "Done";
 }
 
+//Read one term of a triple. The terms take five bytes, thus the last one can
+//be at the very end of the file
+static inline uint64_t readTerm(const char *pos) {
+    uint64_t v = 0;
+    memcpy(&v, pos, 5);
+    return v & 0xFFFFFFFFFFl;
+}
+
 struct _pso {
     const char *rawtriples;
     _pso(const char *rawtriples) : rawtriples(rawtriples) {}
     bool operator() (const uint64_t idx1, const uint64_t idx2) const {
-        int64_t s1 = *(int64_t*)(rawtriples + idx1 * 15);
-        s1 = s1 & 0xFFFFFFFFFFl;
-        int64_t p1 = *(int64_t*)(rawtriples + idx1 * 15 + 5);
-        p1 = p1 & 0xFFFFFFFFFFl;
-        int64_t o1 = *(int64_t*)(rawtriples + idx1 * 15 + 10);
-        o1 = o1 & 0xFFFFFFFFFFl;
-        int64_t s2 = *(int64_t*)(rawtriples + idx2 * 15);
-        s2 = s2 & 0xFFFFFFFFFFl;
-        int64_t p2 = *(int64_t*)(rawtriples + idx2 * 15 + 5);
-        p2 = p2 & 0xFFFFFFFFFFl;
-        int64_t o2 = *(int64_t*)(rawtriples + idx2 * 15 + 10);
-        o2 = o2 & 0xFFFFFFFFFFl;
+        int64_t s1 = readTerm(rawtriples + idx1 * 15);
+        int64_t p1 = readTerm(rawtriples + idx1 * 15 + 5);
+        int64_t o1 = readTerm(rawtriples + idx1 * 15 + 10);
+        int64_t s2 = readTerm(rawtriples + idx2 * 15);
+        int64_t p2 = readTerm(rawtriples + idx2 * 15 + 5);
+        int64_t o2 = readTerm(rawtriples + idx2 * 15 + 10);
         if (p1 != p2) {
             return p1 < p2;
         } else if (s1 != s2) {
@@ -182,8 +185,7 @@ int64_t BatchCreator::findFirstOccurrence(int64_t start, int64_t end, uint64_t x
     int64_t idxTerm = -1;
     while (start <= end) {
         int64_t middle = start + (end - start) / 2;
-        int64_t term = *(int64_t*)(rawtriples + middle * 15 + offset);
-        term = term & 0xFFFFFFFFFFl;
+        int64_t term = readTerm(rawtriples + middle * 15 + offset);
         if (term < x) {
             start = middle + 1;
         } else if (term > x) {
@@ -200,8 +202,7 @@ int64_t BatchCreator::findLastOccurrence(int64_t start, int64_t end, uint64_t x,
     int64_t idxTerm = -1;
     while (start <= end) {
         int64_t middle = start + (end - start) / 2;
-        int64_t term = *(int64_t*)(rawtriples + middle * 15 + offset);
-        term = term & 0xFFFFFFFFFFl;
+        int64_t term = readTerm(rawtriples + middle * 15 + offset);
         if (term < x) {
             start = middle + 1;
         } else if (term > x) {
@@ -383,12 +384,9 @@ bool BatchCreator::getBatch(std::vector<uint64_t> &output) {
         int64_t idx = indices[currentidx];
         uint64_t s,p,o;
         if (createBatchFile) {
-            s = *(uint64_t*)(rawtriples + idx * 15);
-            s = s & 0xFFFFFFFFFFl;
-            p = *(uint64_t*)(rawtriples + idx * 15 + 5);
-            p = p & 0xFFFFFFFFFFl;
-            o = *(uint64_t*)(rawtriples + idx * 15 + 10);
-            o = o & 0xFFFFFFFFFFl;
+            s = readTerm(rawtriples + idx * 15);
+            p = readTerm(rawtriples + idx * 15 + 5);
+            o = readTerm(rawtriples + idx * 15 + 10);
         } else {
             kbbatch->getAt(idx, s, p, o);
         }
@@ -425,12 +423,9 @@ bool BatchCreator::getBatchNr(uint64_t nr, std::vector<uint64_t> &output1,
         int64_t idx = indices[cidx];
         uint64_t s, p, o;
         if (createBatchFile) {
-            s = *(uint64_t *)(rawtriples + idx * 15);
-            s = s & 0xFFFFFFFFFFl;
-            p = *(uint64_t *)(rawtriples + idx * 15 + 5);
-            p = p & 0xFFFFFFFFFFl;
-            o = *(uint64_t *)(rawtriples + idx * 15 + 10);
-            o = o & 0xFFFFFFFFFFl;
+            s = readTerm(rawtriples + idx * 15);
+            p = readTerm(rawtriples + idx * 15 + 5);
+            o = readTerm(rawtriples + idx * 15 + 10);
         } else {
             kbbatch->getAt(idx, s, p, o);
         }
@@ -463,12 +458,9 @@ bool BatchCreator::getBatch(std::vector<uint64_t> &output1,
         int64_t idx = indices[currentidx];
         uint64_t s,p,o;
         if (createBatchFile) {
-            s = *(uint64_t *)(rawtriples + idx * 15);
-            s = s & 0xFFFFFFFFFFl;
-            p = *(uint64_t *)(rawtriples + idx * 15 + 5);
-            p = p & 0xFFFFFFFFFFl;
-            o = *(uint64_t *)(rawtriples + idx * 15 + 10);
-            o = o & 0xFFFFFFFFFFl;
+            s = readTerm(rawtriples + idx * 15);
+            p = readTerm(rawtriples + idx * 15 + 5);
+            o = readTerm(rawtriples + idx * 15 + 10);
         } else {
             kbbatch->getAt(idx, s, p, o);
         }
@@ -493,12 +485,9 @@ void BatchCreator::loadTriples(string path, std::vector<uint64_t> &output) {
     char *start = mf.getData();
     char *end = start + mf.getLength();
     while (start < end) {
-        int64_t s = *(int64_t*)(start);
-        s = s & 0xFFFFFFFFFFl;
-        int64_t p = *(int64_t*)(start + 5);
-        p = p & 0xFFFFFFFFFFl;
-        int64_t o = *(int64_t*)(start + 10);
-        o = o & 0xFFFFFFFFFFl;
+        int64_t s = readTerm(start);
+        int64_t p = readTerm(start + 5);
+        int64_t o = readTerm(start + 10);
         output.push_back(s);
         output.push_back(p);
         output.push_back(o);
-- 
2.43.0


From 8309d4c7473de7bcada09e6cae7e2ca1eb54872b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:32:40 +0000
Subject: [PATCH 091/119] fix: a batch restricted to a pattern could contain a
 triple of the next group

---
 src/trident/ml/batch.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/trident/ml/batch.cpp b/src/trident/ml/batch.cpp
index aad2daf..3384da6 100644
--- a/src/trident/ml/batch.cpp
+++ b/src/trident/ml/batch.cpp
@@ -235,10 +235,10 @@ void BatchCreator::populateIndicesFromQuery(int64_t s, int64_t p, int64_t o) {
 
     int64_t idxStartFirstTerm = -1;
     if (firstTerm != -1) {
-        idxStartFirstTerm = findFirstOccurrence(start, end, firstTerm, offset);
+        idxStartFirstTerm = findFirstOccurrence(start, end - 1, firstTerm, offset);
         if (idxStartFirstTerm != -1) {
             int64_t idxEndFirstTerm = findLastOccurrence(idxStartFirstTerm,
-                    end, firstTerm, offset);
+                    end - 1, firstTerm, offset);
             start = idxStartFirstTerm;
             if (idxEndFirstTerm < end)
                 end = idxEndFirstTerm + 1;
@@ -261,11 +261,11 @@ void BatchCreator::populateIndicesFromQuery(int64_t s, int64_t p, int64_t o) {
             offset = 10;
         }
         if (secondTerm != -1) {
-            idxStartSecondTerm = findFirstOccurrence(start, end, secondTerm,
+            idxStartSecondTerm = findFirstOccurrence(start, end - 1, secondTerm,
                     offset);
             if (idxStartSecondTerm != -1) {
                 int64_t idxEndSecondTerm = findLastOccurrence(idxStartSecondTerm,
-                        end, secondTerm, offset);
+                        end - 1, secondTerm, offset);
                 start = idxStartSecondTerm;
                 if (idxEndSecondTerm < end)
                     end = idxEndSecondTerm + 1;
@@ -288,7 +288,7 @@ void BatchCreator::populateIndicesFromQuery(int64_t s, int64_t p, int64_t o) {
             offset = 10;
         }
         if (thirdTerm != -1) {
-            int64_t idxStartThirdTerm = findFirstOccurrence(start, end, thirdTerm,
+            int64_t idxStartThirdTerm = findFirstOccurrence(start, end - 1, thirdTerm,
                     offset);
             if (idxStartThirdTerm != -1) {
                 start = idxStartThirdTerm;
-- 
2.43.0


From 12c00ce6c04dc0d23c14675d5156cf525af813cb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:32:40 +0000
Subject: [PATCH 092/119] fix: batches returned as a single list were empty if
 no filter was set

---
 src/trident/ml/batch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trident/ml/batch.cpp b/src/trident/ml/batch.cpp
index 3384da6..1125afb 100644
--- a/src/trident/ml/batch.cpp
+++ b/src/trident/ml/batch.cpp
@@ -390,7 +390,7 @@ bool BatchCreator::getBatch(std::vector<uint64_t> &output) {
         } else {
             kbbatch->getAt(idx, s, p, o);
         }
-        if (filter && shouldBeUsed(s,p,o)) {
+        if (!filter || shouldBeUsed(s,p,o)) {
             output[i*3] = s;
             output[i*3+1] = p;
             output[i*3+2] = o;
-- 
2.43.0


From 93ea5a333dbcca806c7cc160630031979b4cb27f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:33:09 +0000
Subject: [PATCH 093/119] fix: training stopped with an error if the training
 or the validation set was empty

---
 src/trident/ml/batch.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/trident/ml/batch.cpp b/src/trident/ml/batch.cpp
index 1125afb..4a3e091 100644
--- a/src/trident/ml/batch.cpp
+++ b/src/trident/ml/batch.cpp
@@ -342,7 +342,12 @@ void BatchCreator::start(int64_t s, int64_t p, int64_t o) {
         }
     }
 
-    if (createBatchFile) {
+    if (createBatchFile && Utils::fileSize(fin) == 0) {
+        //All the triples are in the other sets. An empty file cannot be mapped
+        this->mappedFile = NULL;
+        this->rawtriples = NULL;
+        this->ntriples = 0;
+    } else if (createBatchFile) {
         //Load the file into a memory-mapped file
         this->mappedFile = std::unique_ptr<MemoryMappedFile>(new MemoryMappedFile(
                     fin));
@@ -481,6 +486,9 @@ bool BatchCreator::getBatch(std::vector<uint64_t> &output1,
 }
 
 void BatchCreator::loadTriples(string path, std::vector<uint64_t> &output) {
+    if (Utils::exists(path) && Utils::fileSize(path) == 0) {
+        return; //An empty file cannot be mapped
+    }
     MemoryMappedFile mf(path);
     char *start = mf.getData();
     char *end = start + mf.getLength();
-- 
2.43.0


From a11e6a41af986a5d3083a03d556277f6267cfcc1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:33:09 +0000
Subject: [PATCH 094/119] fix: batch files that were only partially written
 were used for the training

---
 src/trident/ml/batch.cpp | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/trident/ml/batch.cpp b/src/trident/ml/batch.cpp
index 4a3e091..465d40a 100644
--- a/src/trident/ml/batch.cpp
+++ b/src/trident/ml/batch.cpp
@@ -52,13 +52,20 @@ void BatchCreator::createInputForBatch(bool createTraining,
     auto itr = q->getIterator(this->usedIndex, -1, -1, -1);
     int64_t s, p, o;
 
+    //The files are written with temporary names, so that an interrupted
+    //creation is not mistaken for a complete one
+    const string pathTrain = this->kbdir + "/_batch" + std::to_string(this->usedIndex);
+    const string pathValid = getValidPath();
+    const string pathTest = getTestPath();
+    const string suffixTmp = ".tmp";
+
     ofstream ofs_valid;
     if (valid > 0) {
-        ofs_valid.open(this->kbdir + "/_batch_valid" + std::to_string(this->usedIndex), ios::out | ios::app | ios::binary);
+        ofs_valid.open(pathValid + suffixTmp, ios::out | ios::trunc | ios::binary);
     }
     ofstream ofs_test;
     if (test > 0) {
-        ofs_test.open(this->kbdir + "/_batch_test" + std::to_string(this->usedIndex), ios::out | ios::app | ios::binary);
+        ofs_test.open(pathTest + suffixTmp, ios::out | ios::trunc | ios::binary);
     }
     std::random_device rd;
     std::mt19937 gen(rd());
@@ -68,9 +75,8 @@ void BatchCreator::createInputForBatch(bool createTraining,
     ofstream ofs;
     if (createTraining) {
         LOG(INFOL) << "Store the input for the batch process in " <<
-            kbdir + "/_batch" + std::to_string(this->usedIndex) << " ...";
-        ofs.open(this->kbdir + "/_batch" + std::to_string(this->usedIndex),
-                ios::out | ios::app | ios::binary);
+            pathTrain << " ...";
+        ofs.open(pathTrain + suffixTmp, ios::out | ios::trunc | ios::binary);
     }
 
     std::unordered_map<uint64_t, uint64_t> mapPredicates;
@@ -150,6 +156,25 @@ void BatchCreator::createInputForBatch(bool createTraining,
     }
 
     delete q;
+
+    if (ofs.fail() || ofs_valid.fail() || ofs_test.fail()) {
+        LOG(ERRORL) << "Could not write the input for the batch process";
+        throw 10;
+    }
+    //The training set is the last one, because it tells that all are complete
+    if (valid > 0) {
+        Utils::rename(pathValid + suffixTmp, pathValid);
+    } else if (Utils::exists(pathValid)) {
+        Utils::remove(pathValid);
+    }
+    if (test > 0) {
+        Utils::rename(pathTest + suffixTmp, pathTest);
+    } else if (Utils::exists(pathTest)) {
+        Utils::remove(pathTest);
+    }
+    if (createTraining) {
+        Utils::rename(pathTrain + suffixTmp, pathTrain);
+    }
     LOG(INFOL) << "Done";
 }
 
-- 
2.43.0


From 3aa7fb730c4f1f586c159ffd9cdbe8a2ce5bcf3e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:33:09 +0000
Subject: [PATCH 095/119] fix: testing a HolE model wrote the scores after the
 end of an array

---
 include/trident/ml/tester.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/trident/ml/tester.h b/include/trident/ml/tester.h
index 0624602..037f793 100644
--- a/include/trident/ml/tester.h
+++ b/include/trident/ml/tester.h
@@ -51,7 +51,8 @@ class Tester {
             scores.resize(ne);
             const uint16_t dime = E->getDim();
             const uint16_t dimr = R->getDim();
-            std::vector<K> testArray(dime);
+            //Some algorithms write here the scores of all entities
+            std::vector<K> testArray(std::max((uint64_t)dime, ne));
             double *test = testArray.data();
             std::vector<std::size_t> indices(ne);
             std::iota(indices.begin(), indices.end(), 0u);
-- 
2.43.0


From a927dee90d0698653e92409c71e836309b15e432 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:33:41 +0000
Subject: [PATCH 096/119] fix: the training threads used the same random
 generator without synchronization

---
 include/trident/ml/distmul.h         | 4 ++++
 include/trident/ml/pairwiselearner.h | 4 ++++
 src/trident/ml/distmul.cpp           | 1 +
 src/trident/ml/pairwiselearner.cpp   | 5 ++++-
 4 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/trident/ml/distmul.h b/include/trident/ml/distmul.h
index 247eb7e..5f73647 100644
--- a/include/trident/ml/distmul.h
+++ b/include/trident/ml/distmul.h
@@ -3,6 +3,9 @@
 
 #include <trident/ml/learner.h>
 
+#include <mutex>
+#include <random>
+
 #include <cmath>
 
 class DistMulLearner: public Learner {
@@ -10,6 +13,7 @@ class DistMulLearner: public Learner {
         const uint64_t numneg;
         std::random_device rd;
         std::mt19937 gen;
+        std::mutex mutexGen; //All threads share the generator
 
         void update_gradient_matrix(std::vector<EntityGradient> &gm,
                 std::vector<std::unique_ptr<double>> &gradmatrix,
diff --git a/include/trident/ml/pairwiselearner.h b/include/trident/ml/pairwiselearner.h
index d92cccf..21f8284 100644
--- a/include/trident/ml/pairwiselearner.h
+++ b/include/trident/ml/pairwiselearner.h
@@ -2,6 +2,9 @@
 #define _PAIRWISE_H
 
 #include <trident/ml/learner.h>
+
+#include <mutex>
+#include <random>
 #include <trident/ml/embeddings.h>
 #include <trident/ml/batch.h>
 #include <trident/kb/querier.h>
@@ -19,6 +22,7 @@ class PairwiseLearner : public Learner {
     private:
         std::random_device rd;
         std::mt19937 gen;
+        std::mutex mutexGen; //All threads share the generator
         std::uniform_int_distribution<> dis;
 
         void gen_random(Querier *q,
diff --git a/src/trident/ml/distmul.cpp b/src/trident/ml/distmul.cpp
index 9832d67..89a9ac3 100644
--- a/src/trident/ml/distmul.cpp
+++ b/src/trident/ml/distmul.cpp
@@ -152,6 +152,7 @@ void DistMulLearner::getRandomEntities(uint16_t n, std::vector<double*> &negs,
     negs.clear();
     //Used to generate negative entity values
     std::uniform_int_distribution<uint32_t> dis(0, ne - 1);
+    std::lock_guard<std::mutex> lock(mutexGen);
     for(uint16_t i = 0; i < n; ++i) {
         uint32_t id = dis(gen);
         negs.push_back(E->get(id));
diff --git a/src/trident/ml/pairwiselearner.cpp b/src/trident/ml/pairwiselearner.cpp
index c97d3a0..40f01e6 100644
--- a/src/trident/ml/pairwiselearner.cpp
+++ b/src/trident/ml/pairwiselearner.cpp
@@ -22,7 +22,10 @@ void PairwiseLearner::gen_random(
         o = io.field3[i];
         uint16_t attemptId;
         for(attemptId = 0; attemptId < ntries; ++attemptId) {
-            input[i] = dis(gen);
+            {
+                std::lock_guard<std::mutex> lock(mutexGen);
+                input[i] = dis(gen);
+            }
             //Check if the resulting triple is existing ...
             if (subjObjs) {
                 s = input[i];
-- 
2.43.0


From c73e33f357d16f06d1d994e1c8bb105db2fbabab Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:33:41 +0000
Subject: [PATCH 097/119] fix: training never finished or used the wrong
 samples with large batches

---
 include/trident/ml/distmul.h |  2 +-
 src/trident/ml/distmul.cpp   | 18 +++++++++---------
 src/trident/ml/hole.cpp      |  4 ++--
 src/trident/ml/transe.cpp    |  8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/trident/ml/distmul.h b/include/trident/ml/distmul.h
index 5f73647..0b8aa07 100644
--- a/include/trident/ml/distmul.h
+++ b/include/trident/ml/distmul.h
@@ -17,7 +17,7 @@ class DistMulLearner: public Learner {
 
         void update_gradient_matrix(std::vector<EntityGradient> &gm,
                 std::vector<std::unique_ptr<double>> &gradmatrix,
-                std::vector<uint16_t> &inputTripleID,
+                std::vector<uint32_t> &inputTripleID,
                 std::vector<uint64_t> &inputTerms);
 
         double softmax(double *h, double *r, double *t, uint16_t dim, int so,
diff --git a/src/trident/ml/distmul.cpp b/src/trident/ml/distmul.cpp
index 89a9ac3..aeece31 100644
--- a/src/trident/ml/distmul.cpp
+++ b/src/trident/ml/distmul.cpp
@@ -3,7 +3,7 @@
 struct _DistMulSorter {
     const std::vector<uint64_t> &vec;
     _DistMulSorter(const std::vector<uint64_t> &vec) : vec(vec) {}
-    bool operator() (const uint16_t v1, const uint16_t v2) const {
+    bool operator() (const uint32_t v1, const uint32_t v2) const {
         return vec[v1] < vec[v2];
     }
 };
@@ -11,11 +11,11 @@ struct _DistMulSorter {
 
 void DistMulLearner::update_gradient_matrix(std::vector<EntityGradient> &gradients,
         std::vector<std::unique_ptr<double>> &gradmatrix,
-        std::vector<uint16_t> &inputTripleID,
+        std::vector<uint32_t> &inputTripleID,
         std::vector<uint64_t> &inputTerms) {
-    uint16_t gidx = 0;
-    for(uint16_t i = 0; i < inputTripleID.size(); ++i) {
-        uint16_t tripleId = inputTripleID[i];
+    size_t gidx = 0;
+    for(size_t i = 0; i < inputTripleID.size(); ++i) {
+        uint32_t tripleId = inputTripleID[i];
         const uint64_t t = inputTerms[tripleId];
         while (gradients[gidx].id < t && gidx < gradients.size()) {
             gidx += 1;
@@ -194,8 +194,8 @@ void DistMulLearner::process_batch(BatchIO &io,
     std::vector<std::unique_ptr<double>> &gradsNegT = io.support5_d;
 
     //Used to resort the batch by entity
-    std::vector<uint16_t> positions;
-    std::vector<uint16_t> positionsNeg;
+    std::vector<uint32_t> positions;
+    std::vector<uint32_t> positionsNeg;
     std::vector<uint64_t> negativeHeadEntities;
     std::vector<uint64_t> negativeTailEntities;
 
@@ -291,10 +291,10 @@ void DistMulLearner::process_batch(BatchIO &io,
     allrels.resize(std::distance(allrels.begin(), it));
 
     //Initialize the gradient matrices
-    for(uint16_t i = 0; i < allterms.size(); ++i) {
+    for(size_t i = 0; i < allterms.size(); ++i) {
         gradientsE.push_back(EntityGradient(allterms[i], dim));
     }
-    for(uint16_t i = 0; i < allrels.size(); ++i) {
+    for(size_t i = 0; i < allrels.size(); ++i) {
         gradientsR.push_back(EntityGradient(allrels[i], dim));
     }
 
diff --git a/src/trident/ml/hole.cpp b/src/trident/ml/hole.cpp
index 342395a..749e581 100644
--- a/src/trident/ml/hole.cpp
+++ b/src/trident/ml/hole.cpp
@@ -98,11 +98,11 @@ void HoleLearner::process_batch_withnegs(BatchIO &io, std::vector<uint64_t> &one
     allrels.resize(std::distance(allrels.begin(), it));
 
     //Initialize gradient matrix
-    for(uint16_t i = 0; i < allterms.size(); ++i) {
+    for(size_t i = 0; i < allterms.size(); ++i) {
         EntityGradient entityTemp(allterms[i], dim);
         gradientsE.insert(make_pair(allterms[i], entityTemp));
     }
-    for(uint16_t i = 0; i < allrels.size(); ++i) {
+    for(size_t i = 0; i < allrels.size(); ++i) {
         EntityGradient relationTemp(allrels[i], dim);
         gradientsR.insert(make_pair(allrels[i], relationTemp));
     }
diff --git a/src/trident/ml/transe.cpp b/src/trident/ml/transe.cpp
index aa9e1dd..1e37358 100644
--- a/src/trident/ml/transe.cpp
+++ b/src/trident/ml/transe.cpp
@@ -5,8 +5,8 @@ void TranseLearner::update_gradient_matrix(std::vector<EntityGradient> &gradient
         std::vector<uint32_t> &inputTripleID,
         std::vector<uint64_t> &inputTerms,
         int pos, int neg) {
-    uint16_t gidx = 0;
-    for(uint16_t i = 0; i < inputTripleID.size(); ++i) {
+    size_t gidx = 0;
+    for(size_t i = 0; i < inputTripleID.size(); ++i) {
         uint16_t tripleId = inputTripleID[i];
         const uint64_t t = inputTerms[tripleId];
         while (gradients[gidx].id < t && gidx < gradients.size()) {
@@ -165,10 +165,10 @@ void TranseLearner::process_batch_withnegs(BatchIO &io, std::vector<uint64_t> &o
     allrels.resize(std::distance(allrels.begin(), it));
 
     //Initialize gradient matrix
-    for(uint16_t i = 0; i < allterms.size(); ++i) {
+    for(size_t i = 0; i < allterms.size(); ++i) {
         gradientsE.push_back(EntityGradient(allterms[i], dim));
     }
-    for(uint16_t i = 0; i < allrels.size(); ++i) {
+    for(size_t i = 0; i < allrels.size(); ++i) {
         gradientsR.push_back(EntityGradient(allrels[i], dim));
     }
 
-- 
2.43.0


From e15a814c05ee82039938b4fcd5060b43d19919e2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:33:52 +0000
Subject: [PATCH 098/119] fix: training without a batch file used term
 identifiers as relation identifiers

---
 src/trident/ml/batch.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trident/ml/batch.cpp b/src/trident/ml/batch.cpp
index 465d40a..5d043cf 100644
--- a/src/trident/ml/batch.cpp
+++ b/src/trident/ml/batch.cpp
@@ -545,7 +545,10 @@ void BatchCreator::KBBatch::populateCoordinates() {
         uint64_t pred = itr->getKey();
         uint64_t card = itr->getCount();
         PredCoordinates info;
-        info.pred = pred;
+        //Without a separate dictionary, the relations are numbered in order
+        info.pred = kb->areRelIDsSeparated() ? pred : predicates.size();
+        info.offset = 0;
+        info.nfirstterms = 0;
         info.boundary = current + card;
 
         //Get beginning of the table
-- 
2.43.0


From 22f35350c6ae67b500bd9cdc4f19543fc988d760 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:36:27 +0000
Subject: [PATCH 099/119] fix: training without a batch file crashed if the
 needed tables are not stored

---
 src/trident/kb/kb.cpp    |  4 ++++
 src/trident/ml/batch.cpp | 18 +++++++++++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/trident/kb/kb.cpp b/src/trident/kb/kb.cpp
index b79582a..95f53ae 100644
--- a/src/trident/kb/kb.cpp
+++ b/src/trident/kb/kb.cpp
@@ -678,6 +678,10 @@ void KB::addDiffIndex(string inputdir, const char **globalbuffers, Querier *q) {
 }
 
 std::vector<const char*> KB::openAllFiles(int perm) {
+    if (files[perm] == NULL) {
+        LOG(ERRORL) << "The permutation " << perm << " is not stored in the KB";
+        throw 10;
+    }
     return files[perm]->loadAllFiles();
 }
 
diff --git a/src/trident/ml/batch.cpp b/src/trident/ml/batch.cpp
index 5d043cf..4ddc9ac 100644
--- a/src/trident/ml/batch.cpp
+++ b/src/trident/ml/batch.cpp
@@ -535,7 +535,13 @@ BatchCreator::KBBatch::KBBatch(KB *kb) : kb(kb) {
 void BatchCreator::KBBatch::populateCoordinates() {
     //Load all files
     allposfiles = kb->openAllFiles(IDX_POS);
-    auto itr = (TermItr*)querier->getTermList(IDX_POS);
+    auto list = querier->getTermList(IDX_POS);
+    if (list->getTypeItr() != TERM_ITR) {
+        //The files do not contain the updates
+        LOG(ERRORL) << "Not supported";
+        throw 10;
+    }
+    auto itr = (TermItr*)list;
     string kbdir = kb->getPath();
     string posdir = kbdir + "/p" + to_string(IDX_POS);
     //Get all the predicates
@@ -568,6 +574,11 @@ void BatchCreator::KBBatch::populateCoordinates() {
         }
         char currentStrat = itr->getCurrentStrat();
         int storageType = StorageStrat::getStorageType(currentStrat);
+        if (StorageStrat::isAggregated(currentStrat)) {
+            //The pairs are not in this table
+            LOG(ERRORL) << "Not supported";
+            throw 10;
+        }
         if (storageType == NEWCOLUMN_ITR) {
             //Get reader and offset
             char header1 = info.buffer[0];
@@ -598,6 +609,11 @@ void BatchCreator::KBBatch::populateCoordinates() {
         predicates.push_back(info);
         current += card;
     }
+    if (current != ntriples()) {
+        //Some tables are not stored in this permutation
+        LOG(ERRORL) << "Not supported";
+        throw 10;
+    }
     querier->releaseItr(itr);
 }
 
-- 
2.43.0


From 8c56212a265511453ccedb02d69b72f625787a94 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 05:36:27 +0000
Subject: [PATCH 100/119] fix: training without a batch file read wrong pairs
 from column tables with repeated terms

---
 include/trident/binarytables/newcolumntable.h | 24 ++++++++++++++++---
 src/trident/ml/batch.cpp                      |  5 +---
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/trident/binarytables/newcolumntable.h b/include/trident/binarytables/newcolumntable.h
index c03a536..4eb8966 100644
--- a/include/trident/binarytables/newcolumntable.h
+++ b/include/trident/binarytables/newcolumntable.h
@@ -489,9 +489,27 @@ class NewColumnTable: public AbsNewTable {
                     const uint64_t rowId,
                     uint64_t &v1,
                     uint64_t &v2) {
-                const char *currentpos1 = start + (nbytes1 + offset) * rowId;
-                v1 = Utils::decode_longFixedBytes(currentpos1, nbytes1);
-                const char *currentpos2 = start + (nbytes1 + offset) * sizetable +
+                //The offset contains the size of the count and of the starting
+                //point of each group, encoded as in the header of the table
+                const uint8_t bytesPerCount = (offset >> 3) & 7;
+                const uint8_t bytesPerStartingPoint = offset & 7;
+                const uint64_t sizeEntry = nbytes1 + bytesPerCount + bytesPerStartingPoint;
+                //Search the group (first term) that contains the row
+                uint64_t group = 0;
+                uint64_t endGroups = sizetable;
+                while (group + 1 < endGroups) {
+                    const uint64_t middle = group + (endGroups - group) / 2;
+                    const uint64_t startGroup = Utils::decode_longFixedBytes(
+                            start + sizeEntry * middle + nbytes1 + bytesPerCount,
+                            bytesPerStartingPoint);
+                    if (startGroup <= rowId) {
+                        group = middle;
+                    } else {
+                        endGroups = middle;
+                    }
+                }
+                v1 = Utils::decode_longFixedBytes(start + sizeEntry * group, nbytes1);
+                const char *currentpos2 = start + sizeEntry * sizetable +
                     rowId * nbytes2;
                 v2 = Utils::decode_longFixedBytes(currentpos2, nbytes2);
             }
diff --git a/src/trident/ml/batch.cpp b/src/trident/ml/batch.cpp
index 4ddc9ac..4e106e3 100644
--- a/src/trident/ml/batch.cpp
+++ b/src/trident/ml/batch.cpp
@@ -583,12 +583,9 @@ void BatchCreator::KBBatch::populateCoordinates() {
             //Get reader and offset
             char header1 = info.buffer[0];
             char header2 = info.buffer[1];
-            const uint8_t bytesPerStartingPoint =  header2 & 7;
-            const uint8_t bytesPerCount = (header2 >> 3) & 7;
-            const uint8_t remBytes = bytesPerCount + bytesPerStartingPoint;
             const uint8_t bytesPerFirstEntry = (header1 >> 3) & 7;
             const uint8_t bytesPerSecondEntry = (header1) & 7;
-            info.offset = remBytes;
+            info.offset = header2; //Size of the counts and starting points
 
             //update the buffer
             int offset = 2;
-- 
2.43.0


From 4834ab5a969e66a51972770b21ab5bab9e58940b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:14:01 +0000
Subject: [PATCH 101/119] fix: a read error in the middle of a file was taken
 for the end of the file

---
 snap/glib-core/fl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/snap/glib-core/fl.cpp b/snap/glib-core/fl.cpp
index 13a5556..2094480 100644
--- a/snap/glib-core/fl.cpp
+++ b/snap/glib-core/fl.cpp
@@ -266,7 +266,8 @@ void TFIn::FillBf(){
    (BfC==BfL)&&((BfL==-1)||(BfL==MxBfL)),
    "Error reading file '"+GetSNm()+"'.");
   BfL=int(fread(Bf, 1, MxBfL, FileId));
-  EAssertR((BfC!=0)||(BfL!=0), "Error reading file '"+GetSNm()+"'.");
+  EAssertR(((BfC!=0)||(BfL!=0))&&(ferror(FileId)==0),
+   "Error reading file '"+GetSNm()+"'.");
   BfC=0;
 }
 
-- 
2.43.0


From 91e13d838937342bed642dd987bb206687453a7e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:14:01 +0000
Subject: [PATCH 102/119] fix: a file cut at a multiple of the buffer size was
 read on from old buffer contents

---
 snap/glib-core/fl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/snap/glib-core/fl.cpp b/snap/glib-core/fl.cpp
index 2094480..6801cf1 100644
--- a/snap/glib-core/fl.cpp
+++ b/snap/glib-core/fl.cpp
@@ -313,7 +313,9 @@ int TFIn::GetBf(const void* LBf, const TSize& LBfL){
   int LBfS=0;
   if (TSize(BfC+LBfL)>TSize(BfL)){
     for (TSize LBfC=0; LBfC<LBfL; LBfC++){
-      if (BfC==BfL){FillBf();}
+      if (BfC==BfL){
+        FillBf();
+        EAssertR(BfC<BfL, "Error reading file '"+GetSNm()+"'.");}
       LBfS+=((char*)LBf)[LBfC]=Bf[BfC++];}
   } else {
     for (TSize LBfC=0; LBfC<LBfL; LBfC++){
-- 
2.43.0


From 8f7f3fcbe65569d845780abe687f41e5f8df07fc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:14:01 +0000
Subject: [PATCH 103/119] fix: appending to a file wrote over the third byte
 and those that follow

---
 snap/glib-core/fl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snap/glib-core/fl.cpp b/snap/glib-core/fl.cpp
index 6801cf1..b153ee6 100644
--- a/snap/glib-core/fl.cpp
+++ b/snap/glib-core/fl.cpp
@@ -488,7 +488,7 @@ TFInOut::TFInOut(const TStr& FNm, const TFAccess& FAccess, const bool& CreateIfN
     case faCreate: FileId=fopen(FNm.CStr(), "w+b"); break;
     case faUpdate: FileId=fopen(FNm.CStr(), "r+b"); break;
     case faAppend: FileId=fopen(FNm.CStr(), "r+b");
-      if (FileId!=NULL){fseek(FileId, SEEK_END, 0);} break;
+      if (FileId!=NULL){fseek(FileId, 0, SEEK_END);} break;
     case faRdOnly: FileId=fopen(FNm.CStr(), "rb"); break;
     default: Fail;
   }
@@ -934,7 +934,7 @@ TFRnd::TFRnd(const TStr& _FNm, const TFAccess& FAccess,
     case faCreate: FileId=fopen(FNm.CStr(), "w+b"); break;
     case faUpdate: FileId=fopen(FNm.CStr(), "r+b"); break;
     case faAppend: FileId=fopen(FNm.CStr(), "r+b");
-      if (FileId!=NULL){fseek(FileId, SEEK_END, 0);} break;
+      if (FileId!=NULL){fseek(FileId, 0, SEEK_END);} break;
     case faRdOnly: FileId=fopen(FNm.CStr(), "rb"); break;
     default: Fail;
   }
-- 
2.43.0


From f59e448b4a3f1de4eb61f229a168f298099c2241 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:14:01 +0000
Subject: [PATCH 104/119] fix: a file that could not be mapped was read as an
 empty one

---
 snap/glib-core/fl.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/snap/glib-core/fl.cpp b/snap/glib-core/fl.cpp
index b153ee6..2de923d 100644
--- a/snap/glib-core/fl.cpp
+++ b/snap/glib-core/fl.cpp
@@ -573,9 +573,8 @@ TMIn::TMIn(const TStr& Str, bool FromFile):
     uint64 FLen;
     EAssertR(!FNm.Empty(), "Empty file-name.");
     FileId=fopen(FNm.CStr(), "rb");
-    fd = fileno(FileId);
-
     EAssertR(FileId!=NULL, "Can not open file '"+FNm+"'.");
+    fd = fileno(FileId);
 
     EAssertR(
         fseek(FileId, 0, SEEK_END)==0,
@@ -590,16 +589,12 @@ TMIn::TMIn(const TStr& Str, bool FromFile):
     mapped = (char *) mmap (0, FLen, PROT_READ, MAP_PRIVATE, fd, 0);
     IsMemoryMapped = true;
 
-    if (mapped == MAP_FAILED) {
-      printf("mmap failed: %d %s\n", fd, strerror (errno));
-      Bf = NULL;
-      BfC = BfL = 0;
-    }
-    else {
-      Bf = mapped;
-      BfC = 0;
-      BfL = FLen;
-    }
+    // the mapping stays when the file is closed; an empty file can not be mapped
+    fclose(FileId);
+    EAssertR((mapped!=MAP_FAILED)||(FLen==0), "Can not map file '"+FNm+"'.");
+    Bf = (FLen==0) ? NULL : mapped;
+    BfC = 0;
+    BfL = FLen;
     IsMemoryMapped = true;
 #else
     TExcept::Throw("TMIn::TMIn(TStr, Bool): GLib_LINUX undefined.\n");
-- 
2.43.0


From 7da6a9ea80604b02c7effbe2d8f23a5cce07a188 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:14:14 +0000
Subject: [PATCH 105/119] fix: a carriage return at the end of a buffer was
 dropped from the line

---
 snap/glib-core/fl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/snap/glib-core/fl.cpp b/snap/glib-core/fl.cpp
index 2de923d..7eaa911 100644
--- a/snap/glib-core/fl.cpp
+++ b/snap/glib-core/fl.cpp
@@ -344,7 +344,12 @@ bool TFIn::GetNextLnBf(TChA& LnChA) {
     } else {
       BfP = BfC;
     }
+    const bool PrevCr = CrEnd;
     Status = FindEol(BfN,CrEnd);
+    if (PrevCr && !(Status == 1 && BfC == 1)) {
+      // the CR at the end of the previous buffer was not part of a line end
+      LnChA.AddCh('\r');
+    }
     if (Status >= 0) {
       if (BfN-BfP > 0) {
         LnChA.AddBf(&Bf[BfP],BfN-BfP);
-- 
2.43.0


From 536197d0f2102d47e0228d54f62b5e2ce82a60c5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:14:14 +0000
Subject: [PATCH 106/119] fix: saving an edge list did not report that the file
 could not be written

---
 snap/snap-core/gio.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/snap/snap-core/gio.h b/snap/snap-core/gio.h
index 7fc7eca..0533bc1 100644
--- a/snap/snap-core/gio.h
+++ b/snap/snap-core/gio.h
@@ -207,6 +207,7 @@ PGraph LoadPajek(const TStr& InFNm) {
 template <class PGraph>
 void SaveEdgeList(const PGraph& Graph, const TStr& OutFNm, const TStr& Desc) {
   FILE *F = fopen(OutFNm.CStr(), "wt");
+  EAssertR(F != NULL, "Can not open file '"+OutFNm+"'.");
   if (HasGraphFlag(typename PGraph::TObj, gfDirected)) { fprintf(F, "# Directed graph: %s \n", OutFNm.CStr()); } 
   else { fprintf(F, "# Undirected graph (each unordered pair of nodes is saved once): %s\n", OutFNm.CStr()); }
   if (! Desc.Empty()) { fprintf(F, "# %s\n", Desc.CStr()); }
@@ -216,7 +217,8 @@ void SaveEdgeList(const PGraph& Graph, const TStr& OutFNm, const TStr& Desc) {
   for (typename PGraph::TObj::TEdgeI ei = Graph->BegEI(); ei < Graph->EndEI(); ei++) {
     fprintf(F, "%d\t%d\n", ei.GetSrcNId(), ei.GetDstNId());
   }
-  fclose(F);
+  const bool Ok = ferror(F) == 0;
+  EAssertR(fclose(F) == 0 && Ok, "Error writing to the file '"+OutFNm+"'.");
 }
 
 template <class PGraph>
-- 
2.43.0


From de0ba77dc53184c382134c916d48ee17f39a40d0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:14:27 +0000
Subject: [PATCH 107/119] fix: saving a network as text did not report that the
 file could not be written

---
 snap/snap-core/gio.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/snap/snap-core/gio.cpp b/snap/snap-core/gio.cpp
index daa7bdc..632376a 100644
--- a/snap/snap-core/gio.cpp
+++ b/snap/snap-core/gio.cpp
@@ -268,6 +268,7 @@ void WriteEdgesToFile(FILE *F, const PNEANet& Graph, TStrV &IntAttrENames, TStrV
 
 void SaveEdgeListNet(const PNEANet& Graph, const TStr& OutFNm, const TStr& Desc) {
   FILE *F = fopen(OutFNm.CStr(), "wt");
+  EAssertR(F != NULL, "Can not open file '"+OutFNm+"'.");
   fprintf(F, "# Directed network: %s \n", OutFNm.CStr());
   if (! Desc.Empty()) { fprintf(F, "# %s\n", Desc.CStr()); }
   fprintf(F, "# Nodes: %d Edges: %d\n", Graph->GetNodes(), Graph->GetEdges());
@@ -288,7 +289,8 @@ void SaveEdgeListNet(const PNEANet& Graph, const TStr& OutFNm, const TStr& Desc)
   WriteEdgesToFile(F, Graph, IntAttrENames, FltAttrENames, StrAttrENames);
   fprintf(F, "%s\n", END_SENTINEL.CStr());
 
-  fclose(F);
+  const bool Ok = ferror(F) == 0;
+  EAssertR(fclose(F) == 0 && Ok, "Error writing to the file '"+OutFNm+"'.");
 }
 
 
-- 
2.43.0


From bf5c95a5f5ebc86251d9c87de83f8f0ec25197ae Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:22:42 +0000
Subject: [PATCH 108/119] fix: iterating a parallel hash table visited its
 first slot even if it was empty

---
 snap/glib-core/hashmp.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/snap/glib-core/hashmp.h b/snap/glib-core/hashmp.h
index bb2cc52..f3e57ba 100644
--- a/snap/glib-core/hashmp.h
+++ b/snap/glib-core/hashmp.h
@@ -152,7 +152,9 @@ public:
 
   TIter BegI() const {
     if (Len() == 0){return TIter(Table.EndI(), Table.EndI());}
-    return TIter(Table.BegI(), Table.EndI());}
+    TIter It(Table.BegI(), Table.EndI());
+    if (Table.BegI()->HashCd==-1){It++;} // the first slot may be empty
+    return It;}
   TIter EndI() const {return TIter(Table.EndI(), Table.EndI());}
   //TIter GetI(const int& KeyId) const {return TIter(&KeyDatV[KeyId], KeyDatV.EndI());}
   TIter GetI(const TKey& Key) const {return TIter(&Table[GetKeyId(Key)], Table.EndI());}
-- 
2.43.0


From 08fa94817beadb34942121989bd0590bb877059c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:22:42 +0000
Subject: [PATCH 109/119] fix: the parallel weighted PageRank started from zero
 and never used the ranks of the previous iteration

---
 snap/snap-core/centr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/snap/snap-core/centr.cpp b/snap/snap-core/centr.cpp
index 90f32b9..e9f91d4 100644
--- a/snap/snap-core/centr.cpp
+++ b/snap/snap-core/centr.cpp
@@ -468,7 +468,7 @@ namespace TSnap {
             TNEANet::TNodeI NI = NV[j];
             int Id = NI.GetId();
             OutWeights[Id] = Graph->GetWeightOutEdges(NI, Attr);
-            PRankV[Id] = 1/NNodes;
+            PRankV[Id] = 1.0/NNodes;
         }
 
         TFltV TmpV(NNodes);
@@ -487,7 +487,7 @@ namespace TSnap {
                     const TFlt Weight = Weights[Graph->GetFltKeyIdE(EId)];
 
                     if (OutWeight > 0) {
-                        Tmp += PRankH.GetDat(InNId) * Weight / OutWeight;
+                        Tmp += PRankV[InNId] * Weight / OutWeight;
                     }
                 }
                 TmpV[j] =  C*Tmp; // Berkhin (the correct way of doing it)
-- 
2.43.0


From 720ef5dcf01f445a465cba4c418eac7145e594fb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:26:46 +0000
Subject: [PATCH 110/119] fix: grouping by a number added to the groups from
 several threads at once

---
 snap/snap-core/table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snap/snap-core/table.cpp b/snap/snap-core/table.cpp
index 7b09982..d9a4b3d 100644
--- a/snap/snap-core/table.cpp
+++ b/snap/snap-core/table.cpp
@@ -1224,7 +1224,7 @@ void TTable::GroupByIntColMP(const TStr& GroupBy, THashMP<TInt, TIntV>& Grouping
   //double endGen = omp_get_wtime();
   //printf("Gen time = %f\n", endGen-endPart);
   //printf("S\n");
-  #pragma omp parallel for schedule(dynamic, CHUNKS_PER_THREAD) //num_threads(1)
+  // UpdateGrouping looks for a group, adds it and appends to it: not for concurrent use
   for (int i = 0; i < Partitions.Len(); i++){
     TRowIterator RowI(Partitions[i].GetVal1(), this);
     TRowIterator EndI(Partitions[i].GetVal2(), this);
-- 
2.43.0


From 2108644a5ae115be19adf8e81c66fd3aa6f1ec7d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:26:46 +0000
Subject: [PATCH 111/119] fix: aggregating by a column of fractions looked into
 the groups of another column type

---
 snap/snap-core/table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/snap/snap-core/table.cpp b/snap/snap-core/table.cpp
index d9a4b3d..69cfe77 100644
--- a/snap/snap-core/table.cpp
+++ b/snap/snap-core/table.cpp
@@ -1677,7 +1677,7 @@ void TTable::Aggregate(const TStrV& GroupByAttrs, TAttrAggr AggOp,
   			GroupRows = & GroupByIntMapping.GetDat(GroupByIntMapping.GetKey(g));
   			break;
   		case 2:
-  			GroupRows = & GroupByIntMapping.GetDat(GroupByIntMapping.GetKey(g));
+  			GroupRows = & GroupByFltMapping.GetDat(GroupByFltMapping.GetKey(g));
   			break;
   	    case 3:
   			GroupRows = & GroupByStrMapping.GetDat(GroupByStrMapping.GetKey(g));
-- 
2.43.0


From 3e34b4384e07e60e9e48aea3d525410b8e083ebf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 06:28:06 +0000
Subject: [PATCH 112/119] fix: the table of a few edges had an empty first
 part, which wrote before the start of a column

---
 snap/snap-core/table.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/snap/snap-core/table.cpp b/snap/snap-core/table.cpp
index 69cfe77..d0e8954 100644
--- a/snap/snap-core/table.cpp
+++ b/snap/snap-core/table.cpp
@@ -3784,6 +3784,7 @@ PTable TTable::GetEdgeTablePN(const PNGraphMP& Network, TTableContext* Context){
   TInt NumEdges = Network->GetEdges();
   TInt NumPartitions = omp_get_max_threads()*CHUNKS_PER_THREAD;
   TInt PartitionSize = NumEdges/NumPartitions;
+  if (PartitionSize == 0) { PartitionSize = 1; } // a part without rows has no place in the table
   if (PartitionSize*NumPartitions < NumEdges) { NumPartitions++;}
 
   typedef TPair<TNGraphMP::TEdgeI, TNGraphMP::TEdgeI> TEIPr;
-- 
2.43.0


From 453a99f936bbaa190016bc7260e4414556ba411b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 07:30:06 +0000
Subject: [PATCH 113/119] Simulation hook: smaller thresholds for buffers kept
 in memory

---
 include/trident/binarytables/newcolumntableinserter.h |  8 ++++++++
 include/trident/kb/consts.h                           | 10 ++++++++++
 include/trident/kb/diffindex.h                        |  4 ++++
 3 files changed, 22 insertions(+)

diff --git a/include/trident/binarytables/newcolumntableinserter.h b/include/trident/binarytables/newcolumntableinserter.h
index 56c9bcc..6a7cc92 100644
--- a/include/trident/binarytables/newcolumntableinserter.h
+++ b/include/trident/binarytables/newcolumntableinserter.h
@@ -24,6 +24,9 @@
 #define _NEWCOLUMNTABLEINSERTER_H
 
 #include <trident/binarytables/binarytableinserter.h>
+#ifdef TRIDENT_SIM
+#include <trident/kb/consts.h>
+#endif
 
 class NewColumnTableInserter: public BinaryTableInserter {
 private:
@@ -43,8 +46,13 @@ private:
 
 public:
 
+#ifdef TRIDENT_SIM
+    NewColumnTableInserter() : thresholdToOffload(TRIDENT_SIM_CONST(2, 500000000)) {
+    }
+#else
     NewColumnTableInserter() : thresholdToOffload(500000000) {
     }
+#endif
 
     int getType() {
         return NEWCOLUMN_ITR;
diff --git a/include/trident/kb/consts.h b/include/trident/kb/consts.h
index 679e201..f1daad6 100644
--- a/include/trident/kb/consts.h
+++ b/include/trident/kb/consts.h
@@ -83,6 +83,12 @@
 //Size buffer (i.e. number of elements) to sort during the compression
 #define SORTING_BLOCK_SIZE 25000000
 
+#ifdef TRIDENT_SIM
+//A simulation can use smaller thresholds than the ones below
+extern "C" long trident_sim_const(int which, long value) __attribute__((weak));
+#define TRIDENT_SIM_CONST(which, value) (trident_sim_const ? trident_sim_const(which, value) : (value))
+#endif
+
 #ifdef TRIDENT_SIM
 #define MAX_N_BLOCKS_IN_CACHE 65536
 #else
@@ -101,7 +107,11 @@
 
 //File that exists in the directory of a KB while the KB is being loaded
 #define LOADING_MARKER "_loading"
+#ifdef TRIDENT_SIM
+#define THRESHOLD_KEEP_MEMORY TRIDENT_SIM_CONST(0, 1000*1024)
+#else
 #define THRESHOLD_KEEP_MEMORY 1000*1024
+#endif
 
 #define MAX_N_FILES 4096
 
diff --git a/include/trident/kb/diffindex.h b/include/trident/kb/diffindex.h
index 47d7c19..4a24678 100644
--- a/include/trident/kb/diffindex.h
+++ b/include/trident/kb/diffindex.h
@@ -39,7 +39,11 @@
 #include <mutex>
 #endif
 
+#ifdef TRIDENT_SIM
+#define THRESHOLD_USEGLOBALFILES TRIDENT_SIM_CONST(1, 1000000)
+#else
 #define THRESHOLD_USEGLOBALFILES 1000000
+#endif
 
 class Querier;
 class Root;
-- 
2.43.0


From 76e663d729dbb7a260e9a879ca94419857d7f803 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 07:34:52 +0000
Subject: [PATCH 114/119] fix: a column table bound on its first term read
 beyond its end after moveto

---
 include/trident/binarytables/newcolumntable.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/trident/binarytables/newcolumntable.h b/include/trident/binarytables/newcolumntable.h
index 4eb8966..421952f 100644
--- a/include/trident/binarytables/newcolumntable.h
+++ b/include/trident/binarytables/newcolumntable.h
@@ -423,6 +423,9 @@ class NewColumnTable: public AbsNewTable {
                         currentpos1 = startpos1;
                         nUniqueFirstTerms = 1;
                         nTerms = currentCount;
+                        //The first term must be read again by the next next()
+                        scannedCounts = currentCount = 0;
+                        currentValue2 = -1;
                     } else {
                         //Make it fail
                         currentpos1 = startpos2;
-- 
2.43.0


From b25af8365767c375e1a62d452d8db6aefe8cbc22 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 07:52:35 +0000
Subject: [PATCH 115/119] fix: errors on the temporary files of a large column
 table were ignored, and wrong triples were stored

---
 .../binarytables/newcolumntableinserter.cpp      | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/trident/binarytables/newcolumntableinserter.cpp b/src/trident/binarytables/newcolumntableinserter.cpp
index 5abc90d..efb1887 100644
--- a/src/trident/binarytables/newcolumntableinserter.cpp
+++ b/src/trident/binarytables/newcolumntableinserter.cpp
@@ -141,6 +141,10 @@ void NewColumnTableInserter::stopAppend() {
     if (offloadedElements1 > 0) {
         assert(fileopen1);
         offloadfile1.close();
+        if (offloadfile1.fail()) {
+            LOG(ERRORL) << "Failed in writing offloadfile1";
+            throw 10;
+        }
         offloadfile1_r.open(getRootDir() + "/tmpfile1" + to_string(perm));
         char *buffer = new char[16 * 1000];
 
@@ -149,6 +153,10 @@ void NewColumnTableInserter::stopAppend() {
         while (offloadedElements1 > 0) {
             const int64_t maxElsToRead = min(offloadedElements1, (int64_t)1000);
             offloadfile1_r.read(buffer, maxElsToRead * 16);
+            if (offloadfile1_r.gcount() != maxElsToRead * 16) {
+                LOG(ERRORL) << "Failed in reading offloadfile1";
+                throw 10;
+            }
             for (int64_t i = 0; i < maxElsToRead * 16; i += 16) {
                 const int64_t v1 = Utils::decode_long(buffer + i);
                 const int64_t v2 = Utils::decode_long(buffer + i + 8);
@@ -196,11 +204,19 @@ void NewColumnTableInserter::stopAppend() {
     if (offloadedElements2 > 0) {
         assert(fileopen2);
         offloadfile2.close();
+        if (offloadfile2.fail()) {
+            LOG(ERRORL) << "Failed in writing offloadfile2";
+            throw 10;
+        }
         offloadfile2_r.open(getRootDir() + "/tmpfile2" + to_string(perm), ios_base::in);
         char buffer[8 * 1000];
         while (offloadedElements2 > 0) {
             const int64_t maxElsToRead = min(offloadedElements2, (int64_t)1000);
             offloadfile2_r.read(buffer, maxElsToRead * 8);
+            if (offloadfile2_r.gcount() != maxElsToRead * 8) {
+                LOG(ERRORL) << "Failed in reading offloadfile2";
+                throw 10;
+            }
             for (int64_t i = 0; i < maxElsToRead * 8; i += 8) {
                 const int64_t value = Utils::decode_long(buffer + i);
                 writeLong(bytesPerSecondEntry, value);
-- 
2.43.0


From b5a7f803d1d3d4d83979dcb2e319b199eef0525a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 07:52:35 +0000
Subject: [PATCH 116/119] fix: loading reported success although the statistics
 of the sample were not written

---
 src/trident/kb/loader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trident/kb/loader.cpp b/src/trident/kb/loader.cpp
index 6cfc4f8..4d3c86f 100644
--- a/src/trident/kb/loader.cpp
+++ b/src/trident/kb/loader.cpp
@@ -1681,7 +1681,9 @@ void Loader::load(ParamsLoad p) {
 
     //Close the KB, so that everything is stored, and declare it complete
     kb.reset();
-    if (!KB::hasCompleteStats(p.kbDir)) {
+    const string sampleDir = p.kbDir + DIR_SEP + "_sample";
+    if (!KB::hasCompleteStats(p.kbDir) || (Utils::exists(sampleDir)
+                && !KB::hasCompleteStats(sampleDir))) {
         LOG(ERRORL) << "Error writing the statistics of the KB";
         throw 10;
     }
-- 
2.43.0


From fe880519232b2f729e953716d873008a8ae20bed Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 07:52:35 +0000
Subject: [PATCH 117/119] fix: an interrupted update left an empty file that
 made the KB impossible to open

---
 include/trident/kb/kb.h |  2 ++
 src/trident/kb/kb.cpp   | 17 +++++++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/trident/kb/kb.h b/include/trident/kb/kb.h
index 724bd54..921cf8b 100644
--- a/include/trident/kb/kb.h
+++ b/include/trident/kb/kb.h
@@ -203,6 +203,8 @@ class KB {
         //Returns true if the update stored in "dir" was completely written
         static bool isUpdateComplete(string dir);
 
+        static bool hasContent(string file);
+
         //True if the statistics, the last thing written in a KB, are all there
         static bool hasCompleteStats(string path);
 
diff --git a/src/trident/kb/kb.cpp b/src/trident/kb/kb.cpp
index 95f53ae..4fed94a 100644
--- a/src/trident/kb/kb.cpp
+++ b/src/trident/kb/kb.cpp
@@ -307,32 +307,32 @@ KB::KB(const char *path,
                 //Instantiate the buffers
                 for (int i = 0; i < N_PARTITIONS; ++i)
                     globalbuffers[i] = NULL;
-                if (Utils::exists(defaultDiffDir + DIR_SEP + "s" + DIR_SEP + "p0")) {
+                if (hasContent(defaultDiffDir + DIR_SEP + "s" + DIR_SEP + "p0")) {
                     spo_f = std::unique_ptr<ROMappedFile>(
                             new ROMappedFile(defaultDiffDir + DIR_SEP + "s" + DIR_SEP + "p0"));
                     globalbuffers[IDX_SPO] = spo_f->getBuffer();
                 }
-                if (Utils::exists(defaultDiffDir + DIR_SEP + "s" + DIR_SEP + "p1")) {
+                if (hasContent(defaultDiffDir + DIR_SEP + "s" + DIR_SEP + "p1")) {
                     sop_f = std::unique_ptr<ROMappedFile>(
                             new ROMappedFile(defaultDiffDir + DIR_SEP + "s" + DIR_SEP + "p1"));
                     globalbuffers[IDX_SOP] = sop_f->getBuffer();
                 }
-                if (Utils::exists(defaultDiffDir + DIR_SEP + "p" + DIR_SEP + "p0")) {
+                if (hasContent(defaultDiffDir + DIR_SEP + "p" + DIR_SEP + "p0")) {
                     pos_f = std::unique_ptr<ROMappedFile>(
                             new ROMappedFile(defaultDiffDir + DIR_SEP + "p" + DIR_SEP + "p0"));
                     globalbuffers[IDX_POS] = pos_f->getBuffer();
                 }
-                if (Utils::exists(defaultDiffDir + DIR_SEP + "p" + DIR_SEP + "p1")) {
+                if (hasContent(defaultDiffDir + DIR_SEP + "p" + DIR_SEP + "p1")) {
                     pso_f = std::unique_ptr<ROMappedFile>(
                             new ROMappedFile(defaultDiffDir + DIR_SEP + "p" + DIR_SEP + "p1"));
                     globalbuffers[IDX_PSO] = pso_f->getBuffer();
                 }
-                if (Utils::exists(defaultDiffDir + DIR_SEP + "o" + DIR_SEP + "p0")) {
+                if (hasContent(defaultDiffDir + DIR_SEP + "o" + DIR_SEP + "p0")) {
                     ops_f = std::unique_ptr<ROMappedFile>(
                             new ROMappedFile(defaultDiffDir + DIR_SEP + "o" + DIR_SEP + "p0"));
                     globalbuffers[IDX_OPS] = ops_f->getBuffer();
                 }
-                if (Utils::exists(defaultDiffDir + DIR_SEP + "o" + DIR_SEP + "p1")) {
+                if (hasContent(defaultDiffDir + DIR_SEP + "o" + DIR_SEP + "p1")) {
                     osp_f = std::unique_ptr<ROMappedFile>(
                             new ROMappedFile(defaultDiffDir + DIR_SEP + "o" + DIR_SEP + "p1"));
                     globalbuffers[IDX_OSP] = osp_f->getBuffer();
@@ -627,6 +627,11 @@ bool KB::hasCompleteStats(string path) {
     return Utils::exists(fileConf) && Utils::fileSize(fileConf) >= sizeStats;
 }
 
+bool KB::hasContent(string file) {
+    //An update that was interrupted can leave an empty file
+    return Utils::exists(file) && Utils::fileSize(file) > 0;
+}
+
 bool KB::isUpdateComplete(string dir) {
     //The flag is the last thing that is written
     return Utils::exists(dir + DIR_SEP + "ADD") || Utils::exists(dir + DIR_SEP + "DEL");
-- 
2.43.0


From aa0085693c0b59c94e136764995050053f1e6d64 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 07:59:05 +0000
Subject: [PATCH 118/119] fix: constants of a filter that are not in the store
 were taken for a term

---
 rdf3x/src/cts/SemanticAnalysis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdf3x/src/cts/SemanticAnalysis.cpp b/rdf3x/src/cts/SemanticAnalysis.cpp
index 90c840f..5c3dfe0 100644
--- a/rdf3x/src/cts/SemanticAnalysis.cpp
+++ b/rdf3x/src/cts/SemanticAnalysis.cpp
@@ -389,7 +389,7 @@ static bool encodeFilter(SemanticAnalysis *myself, DBLayer& dict, DifferentialIn
                                                     output.value = input.value;
                                                 } else {
                                                     output.type = QueryGraph::Filter::Literal;
-                                                    output.id = ~0u;
+                                                    output.id = ~UINT64_C(0);
                                                     output.value = input.value;
                                                     //In this case the literal is completely new (and is not present in the KB.)
                                                     output.valueid = tempDict.add(output.value);
@@ -418,7 +418,7 @@ static bool encodeFilter(SemanticAnalysis *myself, DBLayer& dict, DifferentialIn
                                                 output.value = input.value;
                                             } else {
                                                 output.type = QueryGraph::Filter::IRI;
-                                                output.id = ~0u;
+                                                output.id = ~UINT64_C(0);
                                                 output.value = input.value;
                                             }
                                         }
-- 
2.43.0


From 94abe5a02a0a6294061fafca3bd798112918548f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 07:59:05 +0000
Subject: [PATCH 119/119] fix: comparing a computed value used an undefined
 identifier or an empty string

---
 rdf3x/include/rts/operator/Selection.hpp | 2 +-
 rdf3x/src/rts/Selection.cpp              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdf3x/include/rts/operator/Selection.hpp b/rdf3x/include/rts/operator/Selection.hpp
index 0d77c72..0563ad5 100644
--- a/rdf3x/include/rts/operator/Selection.hpp
+++ b/rdf3x/include/rts/operator/Selection.hpp
@@ -45,7 +45,7 @@ class Selection : public Operator {
             bool boolean;
 
             /// Constructor
-            Result() : flags(0) {}
+            Result() : flags(0), id(0) {}
             /// Destructor
             ~Result();
 
diff --git a/rdf3x/src/rts/Selection.cpp b/rdf3x/src/rts/Selection.cpp
index e483892..a83c2ac 100644
--- a/rdf3x/src/rts/Selection.cpp
+++ b/rdf3x/src/rts/Selection.cpp
@@ -395,7 +395,7 @@ void Selection::Less::eval(Result& result)
         if (selection->isNumericComparison(l,r)) {
             result.setBoolean(selection->numLess(l,r));
         } else {
-	    r.ensureString(selection);
+	    l.ensureString(selection);
 	    r.ensureString(selection);
             result.setBoolean(l.value < r.value);
         }
-- 
2.43.0

