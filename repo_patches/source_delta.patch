From 62726670ce103f089c49e119c5ca2997dbf2b128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:15 +0000
Subject: [PATCH 01/39] fix: SimpleQueue::pushVector of an empty batch no
 longer marks an empty queue as non-empty

---
 gmlc/containers/SimpleQueue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index 67a9467..a9ad4df 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -143,6 +143,9 @@ atomic flag indicating the queue is empty
         */
         void pushVector(const std::vector<X>& val)  // universal reference
         {
+            if (val.empty()) {
+                return;  // nothing to add, the queue may still be empty
+            }
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
-- 
2.43.0


From 9a100cd09d8364976a9fd9bce3e622170ee57ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:15 +0000
Subject: [PATCH 02/39] fix: BlockingQueue blocking pops check the push side
 before waiting and after taking an element

A waiting pop looked only at the pull vector, so an element another producer had
placed in the push vector could be missed for ever; a direct take also left the
empty flag and the pull side stale.
---
 gmlc/containers/BlockingQueue.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 339c5f2..7272cbc 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -216,10 +216,12 @@ contention the two locks will reduce contention in most cases.
             while (!val) {
                 std::unique_lock<MUTEX> pullLock(
                     m_pullLock);  // get the lock then wait
+                checkPullAndSwap();
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);  // now wait
@@ -227,6 +229,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -244,10 +247,12 @@ contention the two locks will reduce contention in most cases.
             while (!val) {
                 std::unique_lock<MUTEX> pullLock(
                     m_pullLock);  // get the lock then wait
+                checkPullAndSwap();
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 auto res = condition.wait_for(pullLock, timeout);  // now wait
@@ -255,6 +260,7 @@ contention the two locks will reduce contention in most cases.
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 pullLock.unlock();
@@ -282,11 +288,13 @@ contention the two locks will reduce contention in most cases.
                 // may be spurious so make sure actually have a value
                 callOnWaitFunction();
                 std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
+                checkPullAndSwap();
                 if (!pullElements.empty()) {
                     // the callback may fill the queue or it may have been
                     // filled in the meantime
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);
@@ -294,6 +302,7 @@ contention the two locks will reduce contention in most cases.
                 if (!pullElements.empty()) {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
-- 
2.43.0


From 459088a68751336a942f0db3b02bf597ba68ff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:15 +0000
Subject: [PATCH 03/39] fix: BlockingPriorityQueue pops keep the pull side and
 the empty flag current

As in BlockingQueue a waiting pop could miss an element in the push vector; taking
a priority element left the queue marked non-empty and the next element unpeekable.
---
 gmlc/containers/BlockingPriorityQueue.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index d025373..e83da22 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -268,24 +268,29 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
+                checkPullAndSwap();
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);  // now wait
                 if (!priorityQueue.empty()) {
                     actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
                     actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -307,12 +312,15 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     val = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     break;
                 }
+                checkPullAndSwap();
                 if (!pullElements.empty())  // make sure we are actually empty;
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 auto res = condition.wait_for(pullLock, timeout);  // now wait
@@ -320,12 +328,14 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     val = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     break;
                 }
                 if (!pullElements.empty())  // check for spurious wake-ups
                 {
                     val = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     break;
                 }
                 pullLock.unlock();
@@ -358,13 +368,16 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     auto actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
+                checkPullAndSwap();
                 if (!pullElements.empty()) {
                     // the callback may fill the queue or it may have been
                     // filled in the meantime
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 condition.wait(pullLock);
@@ -372,11 +385,13 @@ the two locks will reduce contention in most cases.
                 if (!priorityQueue.empty()) {
                     auto actval = std::move(priorityQueue.front());
                     priorityQueue.pop();
+                    checkPullAndSwap();
                     return actval;
                 }
                 if (!pullElements.empty()) {
                     auto actval = std::move(pullElements.back());
                     pullElements.pop_back();
+                    checkPullAndSwap();
                     return actval;
                 }
                 pullLock.unlock();
@@ -407,7 +422,7 @@ any meaning depending on the number of consumers
                     // after the swap call;
                     pushLock.unlock();
                     std::reverse(pullElements.begin(), pullElements.end());
-                } else {
+                } else if (priorityQueue.empty()) {
                     queueEmptyFlag = true;
                 }
             }
@@ -421,6 +436,7 @@ any meaning depending on the number of consumers
         if (!priorityQueue.empty()) {
             std::optional<T> val(std::move(priorityQueue.front()));
             priorityQueue.pop();
+            checkPullAndSwap();
             return val;
         }
         checkPullAndSwap();
-- 
2.43.0


From 8628d64236b7aa397d3ab7f33fc6df4761b57ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:29 +0000
Subject: [PATCH 04/39] fix: moved-from queues report themselves empty

---
 gmlc/containers/BlockingPriorityQueue.hpp | 2 ++
 gmlc/containers/BlockingQueue.hpp         | 2 ++
 gmlc/containers/SimpleQueue.hpp           | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index e83da22..45a1edf 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -78,6 +78,7 @@ the two locks will reduce contention in most cases.
             priorityQueue(std::move(bq.priorityQueue))
         {
             queueEmptyFlag = (pullElements.empty() && priorityQueue.empty());
+            bq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -89,6 +90,7 @@ the two locks will reduce contention in most cases.
             pullElements = std::move(sq.pullElements);
             priorityQueue = std::move(sq.priorityQueue);
             queueEmptyFlag = (pullElements.empty() && priorityQueue.empty());
+            sq.queueEmptyFlag = true;
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index 7272cbc..a3a13db 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -71,6 +71,7 @@ contention the two locks will reduce contention in most cases.
             pullElements(std::move(bq.pullElements))
         {
             queueEmptyFlag = pullElements.empty();
+            bq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -81,6 +82,7 @@ contention the two locks will reduce contention in most cases.
             pushElements = std::move(sq.pushElements);
             pullElements = std::move(sq.pullElements);
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index a9ad4df..008cfd6 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -64,6 +64,7 @@ atomic flag indicating the queue is empty
             pullElements(std::move(sq.pullElements))
         {
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
         }
 
         /** enable the move assignment not the copy assignment*/
@@ -74,6 +75,7 @@ atomic flag indicating the queue is empty
             pushElements = std::move(sq.pushElements);
             pullElements = std::move(sq.pullElements);
             queueEmptyFlag = pullElements.empty();
+            sq.queueEmptyFlag = true;
             return *this;
         }
         /** DISABLE_COPY_AND_ASSIGN */
-- 
2.43.0


From cc2c122104d4e663f96b356c38f32e7e3d597bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:15 +0000
Subject: [PATCH 05/39] fix: WorkQueue submissions never miss waking a worker

---
 gmlc/containers/WorkQueue.hpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index 29f58f1..a25bbfa 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -350,26 +350,21 @@ value)
                 return;
             }
             if (numWorkers > 0) {
-                size_t ccount;
                 switch (priority) {
                     case WorkPriority::high:
                     case WorkPriority::required:
-                        ccount = workToDoHigh.size();
                         workToDoHigh.push(std::move(newWork));
                         break;
                     case WorkPriority::medium:
-                        ccount = workToDoMed.size();
                         workToDoMed.push(std::move(newWork));
                         break;
                     case WorkPriority::low:
                     default:
-                        ccount = workToDoLow.size();
                         workToDoLow.push(std::move(newWork));
                         break;
                 }
-                if (static_cast<int>(ccount) <= numWorkers) {
-                    queueCondition.notify_one();
-                }
+                syncWithWorkers();
+                queueCondition.notify_one();
             } else {
                 newWork->execute();
             }
@@ -395,6 +390,7 @@ value)
                         workToDoLow.pushVector(newWork);
                         break;
                 }
+                syncWithWorkers();
                 queueCondition.notify_all();
             } else {
                 for (auto& wb : newWork) {
@@ -465,6 +461,12 @@ value)
         }
 
       private:
+        /** wait until no worker is between finding the queues empty and
+    waiting on the condition variable, so a notification cannot be missed*/
+        void syncWithWorkers()
+        {
+            std::lock_guard<std::mutex> lv(queueLock);
+        }
         /** the main worker loop*/
         void workerLoop()
         {
@@ -474,10 +476,14 @@ value)
                     if (halt.load()) {
                         return;
                     }
-                    queueCondition.wait_for(
-                        lv, std::chrono::milliseconds(5000));
-                    if (halt) {
-                        return;
+                    // check again under the lock, new work may have arrived
+                    // (and its notification been missed) in between
+                    if (isEmpty()) {
+                        queueCondition.wait_for(
+                            lv, std::chrono::milliseconds(5000));
+                        if (halt) {
+                            return;
+                        }
                     }
                 }
                 auto wb =
-- 
2.43.0


From ae3dcd927d0dc7d7a8c70d3b6a2adfcd789decb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:15 +0000
Subject: [PATCH 06/39] fix: WorkQueue without workers ignores null and
 finished blocks in every submission form

---
 gmlc/containers/WorkQueue.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index a25bbfa..fbc0c14 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -365,7 +365,7 @@ value)
                 }
                 syncWithWorkers();
                 queueCondition.notify_one();
-            } else {
+            } else if (!newWork->isFinished()) {
                 newWork->execute();
             }
         }
@@ -394,7 +394,9 @@ value)
                 queueCondition.notify_all();
             } else {
                 for (auto& wb : newWork) {
-                    wb->execute();
+                    if ((wb) && (!wb->isFinished())) {
+                        wb->execute();
+                    }
                 }
             }
         }
-- 
2.43.0


From 7cbdccf254fb4182b2615e00a73b2813a5e3dd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:15 +0000
Subject: [PATCH 07/39] fix: default constructed WorkBlock no longer throws for
 lack of a task

---
 gmlc/containers/WorkQueue.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index fbc0c14..e54bfa3 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -126,7 +126,9 @@ that can be executed, functionoid, or something that implements operator()
                 task.reset();
             }
             finished = false;
-            future_ret = task.get_future();
+            // a block without a task has no result to deliver
+            future_ret = task.valid() ? task.get_future().share() :
+                                        std::shared_future<retType>();
         };
         /** get the shared future object*/
         std::shared_future<retType> get_future() { return future_ret; }
@@ -201,7 +203,9 @@ that can be executed
                 task.reset();
             }
             finished = false;
-            future_ret = task.get_future();
+            // a block without a task has no result to deliver
+            future_ret = task.valid() ? task.get_future().share() :
+                                        std::shared_future<void>();
         };
         std::shared_future<void> get_future() { return future_ret; }
 
-- 
2.43.0


From 9532fab03f4a022cd8d63d00fc134f40e63888b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:04 +0000
Subject: [PATCH 08/39] fix: StackBuffer::resize keeps the space accounting of
 the stored blocks

---
 gmlc/containers/StackBuffer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 7659a00..996e0de 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -234,9 +234,10 @@ blocks of raw data
                     data + indexOffset,
                     static_cast<size_t>(diSize) *
                         static_cast<size_t>(stack.dataCount));
+                auto dataOffset = stack.next - stack.origin;
                 stack.dataSize = newsize;
                 stack.origin = data;
-                stack.next = stack.origin + newsize;
+                stack.next = stack.origin + dataOffset;
                 stack.nextIndex = reinterpret_cast<dataIndex*>(
                     stack.origin + stack.dataSize - diSize);
                 stack.nextIndex -= stack.dataCount;
@@ -257,7 +258,7 @@ blocks of raw data
                         static_cast<size_t>(stack.dataCount));
                 stack.dataSize = newsize;
                 stack.origin = data;
-                stack.next = stack.origin + newsize;
+                stack.next = stack.origin + dataOffset;
                 stack.nextIndex = reinterpret_cast<dataIndex*>(
                     stack.origin + stack.dataSize - diSize);
                 stack.nextIndex -= stack.dataCount;
-- 
2.43.0


From 8bd2533a40a5c6efcc7133588c2217ba57afec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:04 +0000
Subject: [PATCH 09/39] fix: StackBuffer move assignment leaves the source
 resizable

---
 gmlc/containers/StackBuffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 996e0de..6481912 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -192,6 +192,7 @@ blocks of raw data
             stack = std::move(sq.stack);
             sq.data = nullptr;
             sq.statedSize = 0;
+            sq.actualCapacity = 0;
             sq.stack.dataSize = 0;
             sq.stack.origin = nullptr;
             sq.stack.next = nullptr;
-- 
2.43.0


From 9d9fbc49a2f6260670fbdbf9745d993feefb2b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:04 +0000
Subject: [PATCH 10/39] fix: StackBuffer resize releases a zero size block

---
 gmlc/containers/StackBuffer.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/gmlc/containers/StackBuffer.hpp b/gmlc/containers/StackBuffer.hpp
index 6481912..fbf76b9 100644
--- a/gmlc/containers/StackBuffer.hpp
+++ b/gmlc/containers/StackBuffer.hpp
@@ -317,13 +317,10 @@ blocks of raw data
             }
             if (newsize > actualCapacity) {
                 auto buf = new unsigned char[newsize];
-                if (actualCapacity > 0) {
-                    if (copyData) {
-                        memcpy(buf, data, statedSize);
-                    }
-
-                    delete[] data;
+                if (actualCapacity > 0 && copyData) {
+                    memcpy(buf, data, statedSize);
                 }
+                delete[] data;
                 data = buf;
                 actualCapacity = newsize;
             }
-- 
2.43.0


From 0206ffc5b400f6d1c3a9c829aea69faffcb26810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:12 +0000
Subject: [PATCH 11/39] fix: CircularBuffer tells a full buffer from an empty
 one

---
 gmlc/containers/CircularBuffer.hpp | 35 ++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 7b91658..bc1bdbf 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -29,7 +29,7 @@ namespace containers {
         int capacity() const { return capacity_; }
         bool isSpaceAvailable(int sz) const
         {
-            if (next_write >= next_read) {
+            if (isContiguous()) {
                 if ((capacity_ - (next_write - origin)) >=
                     static_cast<ptrdiff_t>(sz) + 4) {
                     return true;
@@ -50,13 +50,14 @@ namespace containers {
             if (blockSize <= 0 || data == nullptr) {
                 return false;
             }
-            if (next_write >= next_read) {
+            if (isContiguous()) {
                 if ((capacity_ - (next_write - origin)) >=
                     static_cast<ptrdiff_t>(blockSize) + 4) {
                     memcpy(next_write, &blockSize, sizeof(int));
                     // *(reinterpret_cast<int *>(next_write)) = blockSize;
                     memcpy(next_write + 4, data, blockSize);
                     next_write += static_cast<ptrdiff_t>(blockSize) + 4;
+                    ++blockCount;
                     // loop around if there isn't really space for another block
                     // of at least 4 bytes and the next_read>origin
                     if (((capacity_ - (next_write - origin)) < 8) &&
@@ -72,6 +73,7 @@ namespace containers {
                     memcpy(origin, &blockSize, sizeof(int));
                     memcpy(origin + 4, data, blockSize);
                     next_write = origin + blockSize + 4;
+                    ++blockCount;
                     return true;
                 }
             } else if (
@@ -80,13 +82,14 @@ namespace containers {
                 memcpy(next_write, &blockSize, sizeof(int));
                 memcpy(next_write + 4, data, blockSize);
                 next_write += static_cast<ptrdiff_t>(blockSize) + 4;
+                ++blockCount;
                 return true;
             }
             return false;
         }
         int nextDataSize() const
         {
-            if (next_write == next_read) {
+            if (empty()) {
                 return 0;
             }
             int size;
@@ -100,7 +103,7 @@ namespace containers {
         /// insuffient space available
         int pop(unsigned char* data, int maxSize)
         {
-            if (next_write == next_read) {
+            if (empty()) {
                 return 0;
             }
             int size;
@@ -112,7 +115,10 @@ namespace containers {
             if (size <= maxSize) {
                 memcpy(data, next_read + sizeof(int), size);
                 next_read += static_cast<size_t>(size) + sizeof(int);
-                if ((capacity_ - (next_read - origin)) < 8) {
+                --blockCount;
+                if (blockCount == 0) {
+                    next_read = next_write;
+                } else if ((capacity_ - (next_read - origin)) < 8) {
                     next_read = origin;
                 }
                 return size;
@@ -120,15 +126,28 @@ namespace containers {
             return -size;
         }
         /** check if the block is Empty or not*/
-        bool empty() const { return (next_write == next_read); }
+        bool empty() const { return (blockCount == 0); }
         /** clear the buffer*/
-        void clear() { next_write = next_read = origin; }
+        void clear()
+        {
+            next_write = next_read = origin;
+            blockCount = 0;
+        }
 
       private:
+        /// true if the stored blocks do not wrap around the end of the memory,
+        /// next_write==next_read is either an empty or a full buffer
+        bool isContiguous() const
+        {
+            return (next_write > next_read) ||
+                (next_write == next_read && blockCount == 0);
+        }
+
         unsigned char* origin;
         unsigned char* next_write;
         unsigned char* next_read;
         int capacity_{0};
+        int blockCount{0};
 
       private:
         friend class CircularBuffer;
@@ -157,6 +176,7 @@ namespace containers {
             cb.actualSize = 0;
             cb.actualCapacity = 0;
             cb.buffer.capacity_ = 0;
+            cb.buffer.blockCount = 0;
             cb.buffer.origin = nullptr;
             cb.buffer.next_read = nullptr;
             cb.buffer.next_write = nullptr;
@@ -191,6 +211,7 @@ namespace containers {
             data = std::move(cb.data);
 
             cb.buffer.capacity_ = 0;
+            cb.buffer.blockCount = 0;
             cb.buffer.origin = nullptr;
             cb.buffer.next_read = nullptr;
             cb.buffer.next_write = nullptr;
-- 
2.43.0


From 77e7caa28b7cf3e5252a6c4da331b7e92fe8c237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:12 +0000
Subject: [PATCH 12/39] fix: CircularBuffer marks the unused space of every
 wrap around and reads past it

---
 gmlc/containers/CircularBuffer.hpp | 47 ++++++++++++++++++------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index bc1bdbf..bf258a8 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -62,14 +62,14 @@ namespace containers {
                     // of at least 4 bytes and the next_read>origin
                     if (((capacity_ - (next_write - origin)) < 8) &&
                         (next_read > origin)) {
+                        markWrap();
                         next_write = origin;
                     }
                     return true;
                 } else if (
                     (next_read - origin) >=
                     static_cast<ptrdiff_t>(blockSize) + 4) {
-                    int loc = -1;
-                    memcpy(next_write, &loc, sizeof(int));
+                    markWrap();
                     memcpy(origin, &blockSize, sizeof(int));
                     memcpy(origin + 4, data, blockSize);
                     next_write = origin + blockSize + 4;
@@ -93,10 +93,7 @@ namespace containers {
                 return 0;
             }
             int size;
-            memcpy(&size, next_read, sizeof(int));
-            if (size < 0) {
-                memcpy(&size, origin, sizeof(int));
-            }
+            memcpy(&size, readPosition(), sizeof(int));
             return size;
         }
         /// Return number of bytes read, 0 if no data available and -nextSize if
@@ -106,21 +103,14 @@ namespace containers {
             if (empty()) {
                 return 0;
             }
+            unsigned char* block = readPosition();
             int size;
-            memcpy(&size, next_read, sizeof(int));
-            if (size < 0) {
-                next_read = origin;
-                memcpy(&size, next_read, sizeof(int));
-            }
+            memcpy(&size, block, sizeof(int));
             if (size <= maxSize) {
-                memcpy(data, next_read + sizeof(int), size);
-                next_read += static_cast<size_t>(size) + sizeof(int);
+                memcpy(data, block + sizeof(int), size);
+                next_read = block + static_cast<size_t>(size) + sizeof(int);
                 --blockCount;
-                if (blockCount == 0) {
-                    next_read = next_write;
-                } else if ((capacity_ - (next_read - origin)) < 8) {
-                    next_read = origin;
-                }
+                next_read = (blockCount > 0) ? readPosition() : next_write;
                 return size;
             }
             return -size;
@@ -142,6 +132,27 @@ namespace containers {
             return (next_write > next_read) ||
                 (next_write == next_read && blockCount == 0);
         }
+        /// mark the rest of the memory after next_write as unused, a remainder
+        /// too small for the marker never holds a block
+        void markWrap()
+        {
+            if (capacity_ - (next_write - origin) >=
+                static_cast<ptrdiff_t>(sizeof(int))) {
+                int loc = -1;
+                memcpy(next_write, &loc, sizeof(int));
+            }
+        }
+        /// location of the oldest block, the buffer must not be empty
+        unsigned char* readPosition() const
+        {
+            if (capacity_ - (next_read - origin) <
+                static_cast<ptrdiff_t>(sizeof(int))) {
+                return origin;
+            }
+            int size;
+            memcpy(&size, next_read, sizeof(int));
+            return (size < 0) ? origin : next_read;
+        }
 
         unsigned char* origin;
         unsigned char* next_write;
-- 
2.43.0


From 49797db52ab1004134f62d7177e8390335abb3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:12 +0000
Subject: [PATCH 13/39] fix: copy of a CircularBuffer without memory keeps no
 dangling block

---
 gmlc/containers/CircularBuffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index bf258a8..5b38db6 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -205,6 +205,7 @@ namespace containers {
                 buffer.next_write = buffer.origin + write_offset;
             } else {
                 delete[] data;
+                data = nullptr;
                 actualSize = 0;
                 actualCapacity = 0;
             }
-- 
2.43.0


From 9ea55a7c7d7a39607b5684355847ad96bae375a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:12 +0000
Subject: [PATCH 14/39] fix: CircularBuffer releases a zero size block

---
 gmlc/containers/CircularBuffer.hpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/gmlc/containers/CircularBuffer.hpp b/gmlc/containers/CircularBuffer.hpp
index 5b38db6..057cbf6 100644
--- a/gmlc/containers/CircularBuffer.hpp
+++ b/gmlc/containers/CircularBuffer.hpp
@@ -173,12 +173,7 @@ namespace containers {
             actualCapacity{size}, buffer(data, size)
         {
         }
-        ~CircularBuffer()
-        {
-            if (actualCapacity > 0) {
-                delete[] data;
-            }
-        }
+        ~CircularBuffer() { delete[] data; }
         CircularBuffer(CircularBuffer&& cb) noexcept :
             data{cb.data}, actualSize(cb.actualSize),
             actualCapacity(cb.actualCapacity), buffer(std::move(cb.buffer))
@@ -348,13 +343,10 @@ namespace containers {
         {
             if (newsize > actualCapacity) {
                 auto buf = new unsigned char[newsize];
-                if (actualCapacity > 0) {
-                    if (copyData) {
-                        memcpy(buf, data, actualSize);
-                    }
-
-                    delete[] data;
+                if (actualCapacity > 0 && copyData) {
+                    memcpy(buf, data, actualSize);
                 }
+                delete[] data;
                 data = buf;
                 actualCapacity = newsize;
             }
-- 
2.43.0


From dd96d51dc5f9e94db27c752213ced18d73610fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 15/39] fix: BlockIterator moves across blocks in both
 directions with every operator

---
 gmlc/containers/BlockIterator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gmlc/containers/BlockIterator.hpp b/gmlc/containers/BlockIterator.hpp
index f848f92..d84f1fc 100644
--- a/gmlc/containers/BlockIterator.hpp
+++ b/gmlc/containers/BlockIterator.hpp
@@ -76,6 +76,7 @@ namespace containers {
             ptr += movement;
             offset += static_cast<int>(movement);
             check();
+            checkNeg();
             return (*this);
         }
         BlockIterator& operator++()
@@ -101,6 +102,7 @@ namespace containers {
         {
             ptr -= movement;
             offset -= static_cast<int>(movement);
+            check();
             checkNeg();
             return (*this);
         }
-- 
2.43.0


From 415967c88ac51dd26ebf601c18be7c9e8e223559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 16/39] fix: moved-from StableBlockVector is empty and usable

---
 gmlc/containers/StableBlockVector.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index c7b3bd7..1417575 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -98,10 +98,11 @@ no erase or insert
         {
             sbv.freeblocks = nullptr;
             sbv.freeSlotsAvailable = 0;
+            sbv.freeIndex = 0;
             sbv.dataSlotsAvailable = 0;
             sbv.dataptr = nullptr;
-            sbv.bsize = 0;
-            sbv.dataSlotIndex = -1;
+            sbv.bsize = blockSize;
+            sbv.dataSlotIndex = 0;
             sbv.csize = 0;
         }
 
@@ -124,8 +125,12 @@ no erase or insert
 
             sbv.freeblocks = nullptr;
             sbv.freeSlotsAvailable = 0;
+            sbv.freeIndex = 0;
             sbv.dataSlotsAvailable = 0;
             sbv.dataptr = nullptr;
+            sbv.bsize = blockSize;
+            sbv.dataSlotIndex = 0;
+            sbv.csize = 0;
 
             return *this;
         }
-- 
2.43.0


From e36ff92c5a2a2f0b316fdb184173661afe393e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 17/39] fix: copy of an emptied StableBlockVector holds no
 phantom block

---
 gmlc/containers/StableBlockVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 1417575..1a7e385 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -81,7 +81,7 @@ no erase or insert
 
         StableBlockVector(const StableBlockVector& sbv)
         {
-            if (sbv.dataptr != nullptr) {
+            if (sbv.csize > 0) {
                 dataptr = new X*[sbv.dataSlotsAvailable];
                 dataSlotsAvailable = sbv.dataSlotsAvailable;
                 dataSlotIndex = -1;
-- 
2.43.0


From 729c476f57837175fecd1716715798fb71a6fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 18/39] fix: StableBlockVector::end() stays within the block
 table

---
 gmlc/containers/StableBlockVector.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 1a7e385..36130d1 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -53,9 +53,9 @@ no erase or insert
             const X& init =
                 X{}) noexcept(std::is_nothrow_copy_constructible<X>::value) :
             csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 1, size_t{64})]),
+            dataptr(new X*[std::max((startSize >> N) + 2, size_t{64})]),
             dataSlotsAvailable(
-                std::max(static_cast<int>(startSize >> N) + 1, 64)),
+                std::max(static_cast<int>(startSize >> N) + 2, 64)),
             dataSlotIndex(static_cast<int>(startSize >> N)),
             bsize(static_cast<int>(startSize & cntmask))
         {
@@ -387,7 +387,8 @@ no erase or insert
                     dataptr = new X*[64];
                     dataSlotsAvailable = 64;
                     dataSlotIndex = -1;
-                } else if (dataSlotIndex >= dataSlotsAvailable - 1) {
+                } else if (dataSlotIndex >= dataSlotsAvailable - 2) {
+                    // keep one more slot for the iterator past a full block
                     auto mem =
                         new X*[static_cast<size_t>(dataSlotsAvailable) * 2];
                     std::copy(dataptr, dataptr + dataSlotsAvailable, mem);
-- 
2.43.0


From 3fe0f327cf3636c6205f487298cd9499fa72cf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 19/39] fix: StableBlockDeque constructed empty has no
 unconstructed element

---
 gmlc/containers/StableBlockDeque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 7414757..1f4f293 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -58,7 +58,8 @@ and deallocate methods)*/
             if (startSize == 0) {
                 dataSlotFront = dataSlotBack = 30;
                 dataptr[30] = a.allocate(blockSize);
-                bsize = fsize = blockSize / 2;
+                bsize = blockSize / 2;
+                fsize = bsize - 1;
             } else {
                 int blocks = static_cast<int>((startSize >> N));
                 if (blocks > 0) {
@@ -127,7 +128,8 @@ and deallocate methods)*/
                 Allocator a;
                 dataSlotFront = dataSlotBack = 30;
                 dataptr[30] = a.allocate(blockSize);
-                bsize = fsize = blockSize / 2;
+                bsize = blockSize / 2;
+                fsize = bsize - 1;
             }
         }
         StableBlockDeque(StableBlockDeque&& sbd) noexcept :
-- 
2.43.0


From 66b32ce8397d30295f0984de283ebf742d82f570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 20/39] fix: StableBlockDeque::clear of a single block destroys
 only its elements

---
 gmlc/containers/StableBlockDeque.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 1f4f293..cb99a63 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -323,7 +323,8 @@ and deallocate methods)*/
             if (dataSlotsAvailable == 0 || csize == 0) {
                 return;
             }
-            for (int jj = bsize - 1; jj >= 0;
+            const int lastFirst = (dataSlotFront == dataSlotBack) ? fsize + 1 : 0;
+            for (int jj = bsize - 1; jj >= lastFirst;
                  --jj) {  // call destructors on the last block
                 dataptr[dataSlotBack][jj].~X();
             }
-- 
2.43.0


From 2ebccd93e6c7c3ed18f6cd5e08c6ce18a61196ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 21/39] fix: moved-from StableBlockDeque is empty and usable

---
 gmlc/containers/StableBlockDeque.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index cb99a63..716c4ee 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -142,8 +142,12 @@ and deallocate methods)*/
         {
             sbd.freeblocks = nullptr;
             sbd.freeSlotsAvailable = 0;
+            sbd.freeIndex = 0;
             sbd.dataSlotsAvailable = 0;
+            sbd.dataSlotBack = 0;
+            sbd.dataSlotFront = 0;
             sbd.dataptr = nullptr;
+            sbd.bsize = blockSize;
             sbd.fsize = -1;
             sbd.csize = 0;
         }
@@ -169,8 +173,12 @@ and deallocate methods)*/
 
             sbd.freeblocks = nullptr;
             sbd.freeSlotsAvailable = 0;
+            sbd.freeIndex = 0;
             sbd.dataSlotsAvailable = 0;
+            sbd.dataSlotBack = 0;
+            sbd.dataSlotFront = 0;
             sbd.dataptr = nullptr;
+            sbd.bsize = blockSize;
             sbd.fsize = -1;
             sbd.csize = 0;
             return *this;
-- 
2.43.0


From 16e87cade4656a56c4d65209d2b79514792c3536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 22/39] fix: push_front on an unallocated StableBlockDeque with
 blocks of one element

---
 gmlc/containers/StableBlockDeque.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 716c4ee..037a50b 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -525,7 +525,7 @@ and deallocate methods)*/
                     dataptr = new X*[64];
                     dataSlotsAvailable = 64;
                     dataSlotFront = dataSlotBack = 30;
-                    fsize = blockSize / 2 - 1;
+                    fsize = blockSize / 2;
                     bsize = fsize + 1;
                     dataptr[dataSlotBack] = getNewBlock();
                     return;
-- 
2.43.0


From de90212bac79707929c8b41155c8c70658cb5262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:58 +0000
Subject: [PATCH 23/39] fix: StableBlockDeque::end() stays within the block
 table

---
 gmlc/containers/StableBlockDeque.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 037a50b..a8771f1 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -50,9 +50,9 @@ and deallocate methods)*/
         /** construct with a specified size*/
         StableBlockDeque(size_t startSize, const X& init = X{}) :
             csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 2, size_t{64})]),
+            dataptr(new X*[std::max((startSize >> N) + 3, size_t{64})]),
             dataSlotsAvailable(
-                std::max(static_cast<int>(startSize >> N) + 2, 64))
+                std::max(static_cast<int>(startSize >> N) + 3, 64))
         {
             Allocator a;
             if (startSize == 0) {
@@ -495,7 +495,8 @@ and deallocate methods)*/
                     dataptr[dataSlotBack] = getNewBlock();
                     return;
                 }
-                if (dataSlotBack >= dataSlotsAvailable - 1) {
+                // keep one more slot for the iterator past a full block
+                if (dataSlotBack >= dataSlotsAvailable - 2) {
                     if (dataSlotFront > 5) {  // shift the pointers
                         std::copy(
                             dataptr + dataSlotFront,
-- 
2.43.0


From 89f445038d884fe28dd459ace2e0282ca88c5f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:41 +0000
Subject: [PATCH 24/39] fix: MappedVector removal unlinks all and only the
 terms of the removed element

---
 gmlc/containers/MappedVector.hpp | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/gmlc/containers/MappedVector.hpp b/gmlc/containers/MappedVector.hpp
index 0266b70..9f6c2f1 100644
--- a/gmlc/containers/MappedVector.hpp
+++ b/gmlc/containers/MappedVector.hpp
@@ -135,17 +135,16 @@ limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto erased = localErase(dataStorage, index);
-            searchType ind;
-            for (auto& el2 : lookup) {
-                if (erased && el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind = el2.first;
+            // all terms of the element go, those of later elements follow
+            for (auto el = lookup.begin(); el != lookup.end();) {
+                if (el->second == index) {
+                    el = lookup.erase(el);
+                    continue;
                 }
-            }
-            auto fnd = lookup.find(ind);
-            if (fnd != lookup.end()) {
-                lookup.erase(fnd);
+                if (erased && el->second > index) {
+                    el->second -= 1;
+                }
+                ++el;
             }
         }
 
@@ -155,15 +154,7 @@ limited to no removal since removal is a rather expensive operation
             if (el == lookup.end()) {
                 return;
             }
-            auto index = el->second;
-            if (localErase(dataStorage, index)) {
-                for (auto& el2 : lookup) {
-                    if (el2.second > index) {
-                        el2.second -= 1;
-                    }
-                }
-            }
-            lookup.erase(el);
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
-- 
2.43.0


From 0410b7de13631858843661d7229b320fa7935592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:41 +0000
Subject: [PATCH 25/39] fix: StringMappedVector removal unlinks all and only
 the terms of the removed element

---
 gmlc/containers/StringMappedVector.hpp | 29 +++++++++-----------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 2fce174..318cdc6 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -124,17 +124,16 @@ with limited to no removal since removal is a rather expensive operation
                 return;
             }
             auto erased = localErase(dataStorage, index);
-            std::string_view ind;
-            for (auto& el2 : lookup) {
-                if (erased && el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind = el2.first;
+            // all terms of the element go, those of later elements follow
+            for (auto el = lookup.begin(); el != lookup.end();) {
+                if (el->second == index) {
+                    el = lookup.erase(el);
+                    continue;
                 }
-            }
-            auto fnd = lookup.find(ind);
-            if (fnd != lookup.end()) {
-                lookup.erase(fnd);
+                if (erased && el->second > index) {
+                    el->second -= 1;
+                }
+                ++el;
             }
         }
 
@@ -144,15 +143,7 @@ with limited to no removal since removal is a rather expensive operation
             if (el == lookup.end()) {
                 return;
             }
-            auto index = el->second;
-            if (localErase(dataStorage, index)) {
-                for (auto& el2 : lookup) {
-                    if (el2.second > index) {
-                        el2.second -= 1;
-                    }
-                }
-            }
-            lookup.erase(el);
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
-- 
2.43.0


From e478f14062787e104cf458b13d80d784d43b0b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:41 +0000
Subject: [PATCH 26/39] fix: MappedPointerVector removal unlinks all and only
 the terms of the removed element

---
 gmlc/containers/MappedPointerVector.hpp | 28 +++++++++----------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/gmlc/containers/MappedPointerVector.hpp b/gmlc/containers/MappedPointerVector.hpp
index d2ee9fc..6fd38fe 100644
--- a/gmlc/containers/MappedPointerVector.hpp
+++ b/gmlc/containers/MappedPointerVector.hpp
@@ -137,17 +137,16 @@ class MappedPointerVector {
             return;
         }
         dataStorage.erase(dataStorage.begin() + index);
-        searchType ind;
-        for (auto& el2 : lookup) {
-            if (el2.second > index) {
-                el2.second -= 1;
-            } else if (el2.second == index) {
-                ind = el2.first;
+        // all terms of the element go, those of later elements follow
+        for (auto el = lookup.begin(); el != lookup.end();) {
+            if (el->second == index) {
+                el = lookup.erase(el);
+                continue;
             }
-        }
-        auto fnd = lookup.find(ind);
-        if (fnd != lookup.end()) {
-            lookup.erase(fnd);
+            if (el->second > index) {
+                el->second -= 1;
+            }
+            ++el;
         }
     }
     /** remove an element based on the lookup index*/
@@ -157,14 +156,7 @@ class MappedPointerVector {
         if (el == lookup.end()) {
             return;
         }
-        auto index = el->second;
-        dataStorage.erase(dataStorage.begin() + index);
-        for (auto& el2 : lookup) {
-            if (el2.second > index) {
-                el2.second -= 1;
-            }
-        }
-        lookup.erase(el);
+        removeIndex(el->second);
     }
 
     /** apply a function to all the values
-- 
2.43.0


From 3d2010bcbbfedfae841874f8c2aa2a3be3cecf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:41 +0000
Subject: [PATCH 27/39] fix: DualMappedPointerVector removal unlinks all and
 only the terms of the removed element

---
 gmlc/containers/DualMappedPointerVector.hpp | 80 ++++++---------------
 1 file changed, 20 insertions(+), 60 deletions(-)

diff --git a/gmlc/containers/DualMappedPointerVector.hpp b/gmlc/containers/DualMappedPointerVector.hpp
index 5f47c19..af95cc2 100644
--- a/gmlc/containers/DualMappedPointerVector.hpp
+++ b/gmlc/containers/DualMappedPointerVector.hpp
@@ -251,29 +251,27 @@ namespace containers {
                 return;
             }
             dataStorage.erase(dataStorage.begin() + index);
-            searchType1 ind1;
-            searchType2 ind2;
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind1 = el2.first;
+            // all terms of the element go, those of later elements follow
+            for (auto el = lookup1.begin(); el != lookup1.end();) {
+                if (el->second == index) {
+                    el = lookup1.erase(el);
+                    continue;
                 }
-            }
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind2 = el2.first;
+                if (el->second > index) {
+                    el->second -= 1;
                 }
+                ++el;
             }
-            auto fnd1 = lookup1.find(ind1);
-            if (fnd1 != lookup1.end()) {
-                lookup1.erase(fnd1);
-            }
-            auto fnd2 = lookup2.find(ind2);
-            if (fnd2 != lookup2.end()) {
-                lookup2.erase(fnd2);
+            // all terms of the element go, those of later elements follow
+            for (auto el = lookup2.begin(); el != lookup2.end();) {
+                if (el->second == index) {
+                    el = lookup2.erase(el);
+                    continue;
+                }
+                if (el->second > index) {
+                    el->second -= 1;
+                }
+                ++el;
             }
         }
 
@@ -283,26 +281,7 @@ namespace containers {
             if (el == lookup1.end()) {
                 return;
             }
-            auto index = el->second;
-            dataStorage.erase(dataStorage.begin() + index);
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                }
-            }
-            lookup1.erase(el);
-            searchType2 ind2;
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind2 = el2.first;
-                }
-            }
-            auto fnd2 = lookup2.find(ind2);
-            if (fnd2 != lookup2.end()) {
-                lookup2.erase(fnd2);
-            }
+            removeIndex(el->second);
         }
 
         void remove(const searchType2& search)
@@ -311,26 +290,7 @@ namespace containers {
             if (el == lookup2.end()) {
                 return;
             }
-            auto index = el->second;
-            dataStorage.erase(dataStorage.begin() + index);
-            for (auto& el2 : lookup2) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                }
-            }
-            lookup2.erase(el);
-            searchType1 ind1;
-            for (auto& el2 : lookup1) {
-                if (el2.second > index) {
-                    el2.second -= 1;
-                } else if (el2.second == index) {
-                    ind1 = el2.first;
-                }
-            }
-            auto fnd1 = lookup1.find(ind1);
-            if (fnd1 != lookup1.end()) {
-                lookup1.erase(fnd1);
-            }
+            removeIndex(el->second);
         }
 
         /** apply a function to all the values
-- 
2.43.0


From 25f600bd257e60d72a902c6db6a49b38ae742f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:41 +0000
Subject: [PATCH 28/39] fix: DualMappedPointerVector::at can be used

---
 gmlc/containers/DualMappedPointerVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/DualMappedPointerVector.hpp b/gmlc/containers/DualMappedPointerVector.hpp
index af95cc2..d32ffa5 100644
--- a/gmlc/containers/DualMappedPointerVector.hpp
+++ b/gmlc/containers/DualMappedPointerVector.hpp
@@ -239,7 +239,7 @@ namespace containers {
                                                   nullptr;
         }
 
-        VType* at(size_t index) const { return dataStorage.at(index); }
+        VType* at(size_t index) const { return dataStorage.at(index).get(); }
 
         /** get a pointer to the last element inserted*/
         VType* back() { return dataStorage.back().get(); }
-- 
2.43.0


From 217c30a83bbcf3accfcab6b6c20f83852b128a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:55 +0000
Subject: [PATCH 29/39] fix: a copy of StringMappedVector owns its names

---
 gmlc/containers/StringMappedVector.hpp | 28 ++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 318cdc6..17a3a4b 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -30,6 +30,27 @@ with limited to no removal since removal is a rather expensive operation
         int BLOCK_ORDER = 5>
     class StringMappedVector {
       public:
+        StringMappedVector() = default;
+        /// the copy gets its own names, the lookup must not use those of other
+        StringMappedVector(const StringMappedVector& other) :
+            dataStorage(other.dataStorage)
+        {
+            copyNames(other);
+        }
+        StringMappedVector(StringMappedVector&& other) = default;
+        StringMappedVector& operator=(const StringMappedVector& other)
+        {
+            if (this != &other) {
+                dataStorage = other.dataStorage;
+                lookup.clear();
+                names.clear();
+                copyNames(other);
+            }
+            return *this;
+        }
+        StringMappedVector& operator=(StringMappedVector&& other) = default;
+        ~StringMappedVector() = default;
+
         /** insert an element into the mapped vector
     @param searchValue the unique name to use for the value if it exists the
     existing value is replaced
@@ -192,6 +213,13 @@ with limited to no removal since removal is a rather expensive operation
         }
 
       private:
+        void copyNames(const StringMappedVector& other)
+        {
+            for (const auto& el : other.lookup) {
+                names.emplace_back(el.first);
+                lookup.emplace(names.back(), el.second);
+            }
+        }
         bool localErase(
             StableBlockVector<VType, BLOCK_ORDER>& vect,
             size_t index)
-- 
2.43.0


From 873313b2dc4cbb88821a7d325269d4ecc87eaac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:55 +0000
Subject: [PATCH 30/39] fix: a copy of DualStringMappedVector owns its names

---
 gmlc/containers/DualStringMappedVector.hpp | 30 ++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index 1664a3d..b8b2b2a 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -38,6 +38,29 @@ or by numerical index
             !std::is_same<std::string, searchType2>::value,
             "searchType1 and searchType2 cannot be the same type");
 
+        DualStringMappedVector() = default;
+        /// the copy gets its own names, the lookup must not use those of other
+        DualStringMappedVector(const DualStringMappedVector& other) :
+            dataStorage(other.dataStorage),
+            lookup2(other.lookup2)
+        {
+            copyNames(other);
+        }
+        DualStringMappedVector(DualStringMappedVector&& other) = default;
+        DualStringMappedVector& operator=(const DualStringMappedVector& other)
+        {
+            if (this != &other) {
+                dataStorage = other.dataStorage;
+                lookup2 = other.lookup2;
+                lookup1.clear();
+                names.clear();
+                copyNames(other);
+            }
+            return *this;
+        }
+        DualStringMappedVector& operator=(DualStringMappedVector&& other) = default;
+        ~DualStringMappedVector() = default;
+
         /** insert a new element into the vector
     @param searchValue1 the primary unique index of the vector
     @param searchValue2 the secondary unique index of the vector
@@ -412,6 +435,13 @@ or by numerical index
         }
 
       private:
+        void copyNames(const DualStringMappedVector& other)
+        {
+            for (const auto& el : other.lookup1) {
+                names.emplace_back(el.first);
+                lookup1.emplace(names.back(), el.second);
+            }
+        }
         bool localErase(
             StableBlockVector<VType, BLOCK_ORDER>& vect,
             size_t index)
-- 
2.43.0


From a8bcd467b4aa868a436b5cccc0c97fdc9150c96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:39 +0000
Subject: [PATCH 31/39] fix: WorkBlock::updateTask accepts a task that was used
 before

---
 gmlc/containers/WorkQueue.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index e54bfa3..a119457 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -110,10 +110,10 @@ that can be executed, functionoid, or something that implements operator()
     @param[in] newTask the packaged task with the correct return type*/
         void updateTask(std::packaged_task<retType()>&& newTask)
         {
-            loaded = false;
             task = std::move(newTask);
+            loaded = task.valid();
+            // restart the task, which may have been used before
             reset();
-            loaded = true;
         }
         /** check if the task is finished*/
         bool isFinished() const override { return finished; }
@@ -190,10 +190,10 @@ that can be executed
         }
         void updateTask(std::packaged_task<void()>&& newTask)
         {
-            loaded = false;
             task = std::move(newTask);
+            loaded = task.valid();
+            // restart the task, which may have been used before
             reset();
-            loaded = true;
         }
         bool isFinished() const override { return finished; };
         void wait() const { future_ret.wait(); }
-- 
2.43.0


From 963c35d5856753a98d55723948eb7373a2b382fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:40 +0000
Subject: [PATCH 32/39] fix: removal from string mapped vectors with unstable
 storage compiles

---
 gmlc/containers/DualStringMappedVector.hpp | 5 +++++
 gmlc/containers/StringMappedVector.hpp     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/gmlc/containers/DualStringMappedVector.hpp b/gmlc/containers/DualStringMappedVector.hpp
index b8b2b2a..47e62af 100644
--- a/gmlc/containers/DualStringMappedVector.hpp
+++ b/gmlc/containers/DualStringMappedVector.hpp
@@ -442,6 +442,11 @@ or by numerical index
                 lookup1.emplace(names.back(), el.second);
             }
         }
+        bool localErase(std::vector<VType>& vect, size_t index)
+        {
+            vect.erase(vect.begin() + index);
+            return true;
+        }
         bool localErase(
             StableBlockVector<VType, BLOCK_ORDER>& vect,
             size_t index)
diff --git a/gmlc/containers/StringMappedVector.hpp b/gmlc/containers/StringMappedVector.hpp
index 17a3a4b..9aa25e2 100644
--- a/gmlc/containers/StringMappedVector.hpp
+++ b/gmlc/containers/StringMappedVector.hpp
@@ -220,6 +220,11 @@ with limited to no removal since removal is a rather expensive operation
                 lookup.emplace(names.back(), el.second);
             }
         }
+        bool localErase(std::vector<VType>& vect, size_t index)
+        {
+            vect.erase(vect.begin() + index);
+            return true;
+        }
         bool localErase(
             StableBlockVector<VType, BLOCK_ORDER>& vect,
             size_t index)
-- 
2.43.0


From 4afaa318fd7aef23f94dd4252c7ca575132b776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:57 +0000
Subject: [PATCH 33/39] fix: BlockIterator::difference_type is the pointer
 difference, not the element type

---
 gmlc/containers/BlockIterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmlc/containers/BlockIterator.hpp b/gmlc/containers/BlockIterator.hpp
index d84f1fc..42c5dc4 100644
--- a/gmlc/containers/BlockIterator.hpp
+++ b/gmlc/containers/BlockIterator.hpp
@@ -25,7 +25,7 @@ namespace containers {
       public:
         using iterator_category = std::bidirectional_iterator_tag;
         using value_type = X;
-        using difference_type = X;
+        using difference_type = std::ptrdiff_t;
         using pointer = const typename std::remove_const<X>::type*;
         using reference = const typename std::remove_const<X>::type&;
         using constref = const typename std::remove_const<X>::type;
-- 
2.43.0


From df91b3f412852f4ed8aa188fc05a70c2c95636aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:43 +0000
Subject: [PATCH 34/39] fix: a push whose element construction throws leaves
 the blocking queues' empty flag alone

---
 gmlc/containers/BlockingPriorityQueue.hpp | 51 ++++++++---------------
 gmlc/containers/BlockingQueue.hpp         | 18 ++++----
 2 files changed, 28 insertions(+), 41 deletions(-)

diff --git a/gmlc/containers/BlockingPriorityQueue.hpp b/gmlc/containers/BlockingPriorityQueue.hpp
index 45a1edf..1a066f5 100644
--- a/gmlc/containers/BlockingPriorityQueue.hpp
+++ b/gmlc/containers/BlockingPriorityQueue.hpp
@@ -119,14 +119,12 @@ the two locks will reduce contention in most cases.
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
-                bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag) {
                     // release the push lock so we don't get a potential
                     // deadlock condition
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;
                     if (pullElements.empty()) {
                         pullElements.push_back(std::forward<Z>(val));
                         // pullLock.unlock ();
@@ -134,11 +132,14 @@ the two locks will reduce contention in most cases.
                         pushLock.lock();
                         pushElements.push_back(std::forward<Z>(val));
                     }
+                    // the flag changes only once the element is in place, the
+                    // insertion could have thrown
+                    queueEmptyFlag = false;
                     condition.notify_all();
                     return;
                 } else {
                     pushElements.push_back(std::forward<Z>(val));
-                    expEmpty = true;
+                    bool expEmpty = true;
                     if (queueEmptyFlag.compare_exchange_strong(
                             expEmpty, false)) {
                         condition.notify_all();
@@ -155,21 +156,13 @@ the two locks will reduce contention in most cases.
         template<class Z>
         void pushPriority(Z&& val)  // forwarding reference
         {
+            std::unique_lock<MUTEX> pullLock(m_pullLock);
+            priorityQueue.push(std::forward<Z>(val));
+            // the flag changes only once the element is in place, the insertion
+            // could have thrown
             bool expEmpty = true;
             if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
-                queueEmptyFlag = false;  // need to set the flag again just in
-                                         // case after we get the lock
-                priorityQueue.push(std::forward<Z>(val));
-                // pullLock.unlock ();
                 condition.notify_all();
-            } else {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);
-                priorityQueue.push(std::forward<Z>(val));
-                expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                    condition.notify_all();
-                }
             }
         }
 
@@ -180,15 +173,12 @@ the two locks will reduce contention in most cases.
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
-                bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag) {
                     // release the push lock so we don't get a potential
                     // deadlock condition
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;  // need to set the flag again after
-                                             // we get the lock
                     if (pullElements.empty()) {
                         pullElements.emplace_back(std::forward<Args>(args)...);
                     } else {
@@ -196,11 +186,14 @@ the two locks will reduce contention in most cases.
                         pushElements.emplace_back(std::forward<Args>(args)...);
                     }
 
+                    // the flag changes only once the element is in place, the
+                    // insertion could have thrown
+                    queueEmptyFlag = false;
                     condition.notify_all();
                     return;
                 } else {
                     pushElements.emplace_back(std::forward<Args>(args)...);
-                    expEmpty = true;
+                    bool expEmpty = true;
                     if (queueEmptyFlag.compare_exchange_strong(
                             expEmpty, false)) {
                         condition.notify_all();
@@ -217,21 +210,13 @@ the two locks will reduce contention in most cases.
         template<class... Args>
         void emplacePriority(Args&&... args)
         {
+            std::unique_lock<MUTEX> pullLock(m_pullLock);
+            priorityQueue.emplace(std::forward<Args>(args)...);
+            // the flag changes only once the element is in place, the insertion
+            // could have thrown
             bool expEmpty = true;
             if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);  // first pullLock
-                queueEmptyFlag = false;  // need to set the flag again just in
-                                         // case after we get the lock
-                priorityQueue.emplace(std::forward<Args>(args)...);
-                // pullLock.unlock ();
                 condition.notify_all();
-            } else {
-                std::unique_lock<MUTEX> pullLock(m_pullLock);
-                priorityQueue.emplace(std::forward<Args>(args)...);
-                expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
-                    condition.notify_all();
-                }
             }
         }
         /** try to peek at an object without popping it from the stack
diff --git a/gmlc/containers/BlockingQueue.hpp b/gmlc/containers/BlockingQueue.hpp
index a3a13db..5fe5683 100644
--- a/gmlc/containers/BlockingQueue.hpp
+++ b/gmlc/containers/BlockingQueue.hpp
@@ -120,14 +120,12 @@ contention the two locks will reduce contention in most cases.
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
-                bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag) {
                     // release the push lock so we don't get a potential
                     // deadlock condition
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;
                     if (pullElements.empty()) {
                         pullElements.push_back(std::forward<Z>(val));
                     } else {
@@ -135,11 +133,14 @@ contention the two locks will reduce contention in most cases.
                         pushElements.push_back(std::forward<Z>(val));
                     }
                     // pullLock.unlock ();
+                    // the flag changes only once the element is in place, the
+                    // insertion could have thrown
+                    queueEmptyFlag = false;
                     condition.notify_all();
                     return;
                 } else {
                     pushElements.push_back(std::forward<Z>(val));
-                    expEmpty = true;
+                    bool expEmpty = true;
                     if (queueEmptyFlag.compare_exchange_strong(
                             expEmpty, false)) {
                         condition.notify_all();
@@ -157,14 +158,12 @@ contention the two locks will reduce contention in most cases.
             std::unique_lock<MUTEX> pushLock(
                 m_pushLock);  // only one lock on this branch
             if (pushElements.empty()) {
-                bool expEmpty = true;
-                if (queueEmptyFlag.compare_exchange_strong(expEmpty, false)) {
+                if (queueEmptyFlag) {
                     // release the push lock so we don't get a potential
                     // deadlock condition
                     pushLock.unlock();
                     std::unique_lock<MUTEX> pullLock(
                         m_pullLock);  // first pullLock
-                    queueEmptyFlag = false;
                     if (pullElements.empty()) {
                         pullElements.emplace_back(std::forward<Args>(args)...);
                     } else {
@@ -173,11 +172,14 @@ contention the two locks will reduce contention in most cases.
                     }
 
                     // pullLock.unlock ();
+                    // the flag changes only once the element is in place, the
+                    // insertion could have thrown
+                    queueEmptyFlag = false;
                     condition.notify_all();
                     return;
                 } else {
                     pushElements.emplace_back(std::forward<Args>(args)...);
-                    expEmpty = true;
+                    bool expEmpty = true;
                     if (queueEmptyFlag.compare_exchange_strong(
                             expEmpty, false)) {
                         condition.notify_all();
-- 
2.43.0


From 3b4ca3e240a5da9e4f82ca243e14820897ab7a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:43 +0000
Subject: [PATCH 35/39] fix: an insertion whose element construction throws
 leaves the stable containers unchanged

---
 gmlc/containers/StableBlockDeque.hpp  | 18 ++++++++++++------
 gmlc/containers/StableBlockVector.hpp |  9 ++++++---
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index a8771f1..6e0d3c9 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -190,21 +190,24 @@ and deallocate methods)*/
         void emplace_back(Args&&... args)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++]))
+            new (&(dataptr[dataSlotBack][bsize]))
                 X(std::forward<Args>(args)...);
+            ++bsize;
             ++csize;
         }
 
         void push_back(const X& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++])) X{val};
+            new (&(dataptr[dataSlotBack][bsize])) X{val};
+            ++bsize;
             ++csize;
         }
         void push_back(X&& val)
         {
             blockCheck();
-            new (&(dataptr[dataSlotBack][bsize++])) X{std::move(val)};
+            new (&(dataptr[dataSlotBack][bsize])) X{std::move(val)};
+            ++bsize;
             ++csize;
         }
 
@@ -227,21 +230,24 @@ and deallocate methods)*/
         void emplace_front(Args&&... args)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--]))
+            new (&(dataptr[dataSlotFront][fsize]))
                 X(std::forward<Args>(args)...);
+            --fsize;
             ++csize;
         }
 
         void push_front(const X& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--])) X{val};
+            new (&(dataptr[dataSlotFront][fsize])) X{val};
+            --fsize;
             ++csize;
         }
         void push_front(X&& val)
         {
             blockCheckFront();
-            new (&(dataptr[dataSlotFront][fsize--])) X{std::move(val)};
+            new (&(dataptr[dataSlotFront][fsize])) X{std::move(val)};
+            --fsize;
             ++csize;
         }
 
diff --git a/gmlc/containers/StableBlockVector.hpp b/gmlc/containers/StableBlockVector.hpp
index 36130d1..6e87c83 100644
--- a/gmlc/containers/StableBlockVector.hpp
+++ b/gmlc/containers/StableBlockVector.hpp
@@ -141,8 +141,9 @@ no erase or insert
         void emplace_back(Args&&... args)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++]))
+            new (&(dataptr[dataSlotIndex][bsize]))
                 X(std::forward<Args>(args)...);
+            ++bsize;
             ++csize;
         }
 
@@ -150,14 +151,16 @@ no erase or insert
             std::is_nothrow_copy_constructible<X>::value)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++])) X{val};
+            new (&(dataptr[dataSlotIndex][bsize])) X{val};
+            ++bsize;
             ++csize;
         }
         void push_back(X&& val) noexcept(
             std::is_nothrow_move_constructible<X>::value)
         {
             blockCheck();
-            new (&(dataptr[dataSlotIndex][bsize++])) X{std::move(val)};
+            new (&(dataptr[dataSlotIndex][bsize])) X{std::move(val)};
+            ++bsize;
             ++csize;
         }
 
-- 
2.43.0


From 4ec0c00367b7f792ea4eede4f34deed2ec90573b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:41 +0000
Subject: [PATCH 36/39] fix: a sized StableBlockDeque keeps a table slot behind
 its last block for the end iterator

---
 gmlc/containers/StableBlockDeque.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gmlc/containers/StableBlockDeque.hpp b/gmlc/containers/StableBlockDeque.hpp
index 6e0d3c9..70c6753 100644
--- a/gmlc/containers/StableBlockDeque.hpp
+++ b/gmlc/containers/StableBlockDeque.hpp
@@ -50,9 +50,9 @@ and deallocate methods)*/
         /** construct with a specified size*/
         StableBlockDeque(size_t startSize, const X& init = X{}) :
             csize(startSize),
-            dataptr(new X*[std::max((startSize >> N) + 3, size_t{64})]),
+            dataptr(new X*[std::max((startSize >> N) + 4, size_t{64})]),
             dataSlotsAvailable(
-                std::max(static_cast<int>(startSize >> N) + 3, 64))
+                std::max(static_cast<int>(startSize >> N) + 4, 64))
         {
             Allocator a;
             if (startSize == 0) {
-- 
2.43.0


From 2059f96861ce2ceba13cb0f090bc4b424f0461a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:56 +0000
Subject: [PATCH 37/39] fix: AirLock::load passed no notification on when the
 assignment of its value threw

---
 gmlc/containers/AirLock.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/AirLock.hpp b/gmlc/containers/AirLock.hpp
index 7cba1fe..0d90ccf 100644
--- a/gmlc/containers/AirLock.hpp
+++ b/gmlc/containers/AirLock.hpp
@@ -67,7 +67,14 @@ class AirLock {
             while (loaded.load(std::memory_order_acquire)) {
                 condition.wait(lock);
             }
-            data = std::forward<Z>(val);
+            try {
+                data = std::forward<Z>(val);
+            }
+            catch (...) {
+                // nothing was loaded, the notification is for another loader
+                condition.notify_one();
+                throw;
+            }
             loaded.store(true, std::memory_order_release);
         }
     }
-- 
2.43.0


From 55d8ae46027a0e91af7256c15f7d2f25771a8c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:56 +0000
Subject: [PATCH 38/39] fix: SimpleQueue::pushVector destroyed queued elements
 when a copy of the batch threw

---
 gmlc/containers/SimpleQueue.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/SimpleQueue.hpp b/gmlc/containers/SimpleQueue.hpp
index 008cfd6..3734e34 100644
--- a/gmlc/containers/SimpleQueue.hpp
+++ b/gmlc/containers/SimpleQueue.hpp
@@ -165,7 +165,20 @@ atomic flag indicating the queue is empty
                 pushLock.lock();
                 // LCOV_EXCL_STOP
             }
-            pushElements.insert(pushElements.end(), val.begin(), val.end());
+            // appended one at a time, a copy that throws midway must not disturb
+            // the elements which are already in the queue
+            const auto originalSize = pushElements.size();
+            try {
+                for (const auto& element : val) {
+                    pushElements.push_back(element);
+                }
+            }
+            catch (...) {
+                while (pushElements.size() > originalSize) {
+                    pushElements.pop_back();
+                }
+                throw;
+            }
         }
 
         /** emplace an element onto the queue
-- 
2.43.0


From 99f3478648ef1ca67e401effb4d482258b9b5308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:50 +0000
Subject: [PATCH 39/39] fix: WorkQueue workers stop when the queue is closed,
 whatever is still being added

---
 gmlc/containers/WorkQueue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gmlc/containers/WorkQueue.hpp b/gmlc/containers/WorkQueue.hpp
index a119457..f2909ea 100644
--- a/gmlc/containers/WorkQueue.hpp
+++ b/gmlc/containers/WorkQueue.hpp
@@ -476,7 +476,8 @@ value)
         /** the main worker loop*/
         void workerLoop()
         {
-            while (true) {
+            // work added while closing must not keep the worker going
+            while (!halt.load()) {
                 if (isEmpty()) {
                     std::unique_lock<std::mutex> lv(queueLock);
                     if (halt.load()) {
-- 
2.43.0

