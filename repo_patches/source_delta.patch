From d1ba59ef9ca0aee3c650db682d7bbd3dcf6fce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 01/57] fix: a waiter of Futex yields again after every
 spinCount attempts

The spin counter was not reset after the first yield, so it wrapped around
and the next yield came only after four billion more attempts.
---
 src/include/falcon/futex.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 23708c9..818bf2b 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -56,6 +56,7 @@ public:
          isOwned = false;
 
          if(spinCount && --sc == 0) {
+            sc = spinCount;
             std::this_thread::yield();
          }
       }
-- 
2.43.0


From f203c1cf14693ff86998fb38575b7ddd45a6c7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 02/57] fix: RFutex::lock returns and isOwner is false for
 threads without an id

lock() kept looping after the exchange had succeeded, as it then compared the
expected value (0) with the thread id. isOwner() answered true on a free lock
for a thread that never locked any RFutex (0 == 0).
---
 src/include/falcon/futex.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 818bf2b..94b3e27 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -95,7 +95,7 @@ public:
       while(!m_owner.compare_exchange_strong(
             free, thread_id,
             std::memory_order_seq_cst,
-            std::memory_order_seq_cst) || free != thread_id) {
+            std::memory_order_seq_cst) && free != thread_id) {
          free = 0;
       }
       ++m_count;
@@ -112,7 +112,7 @@ public:
    }
 
    bool isOwner() noexcept {
-      return m_owner.load(std::memory_order_seq_cst) == s_thread_id;
+      return s_thread_id != 0 && m_owner.load(std::memory_order_seq_cst) == s_thread_id;
    }
 };
 
-- 
2.43.0


From 1e0397f1fe7e55be80c896b43c177f4a327809c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 03/57] fix: discarding up to the first entry of a stack page
 empties that page

---
 src/include/falcon/engine/pagedstack.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 168d5d1..6d85654 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -111,13 +111,11 @@ private:
       }
       if(iData == m_curBase->begin())
       {
+         m_curBase->clear();
          if (m_curBase != m_base.begin())
          {
             m_curBase--;
          }
-         else {
-            m_curBase->clear();
-         }
       }
       else {
          m_curBase->resize(iData - m_curBase->begin());
-- 
2.43.0


From 64b60006ac6f993d6d088499f43eaf7bd7a55a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 04/57] fix: PagedStack::clear removes the elements of the
 first page too

---
 src/include/falcon/engine/pagedstack.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 6d85654..3692b2a 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -528,6 +528,7 @@ public:
          m_curBase->clear();
          --m_curBase;
       }
+      m_curBase->clear();
    }
 
    /**
-- 
2.43.0


From 15825171fc9a9651ab204eb356dd7f5751000886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 05/57] fix: reverse iterators of PagedStack stop at the page
 of the top element

---
 src/include/falcon/engine/pagedstack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 3692b2a..7955077 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -564,8 +564,8 @@ public:
    const_iterator end() const noexcept {return const_iterator(m_base.begin(), --m_base.front().begin(), m_base.cbegin()); }
    const_iterator cend() const noexcept {return end(); }
 
-   reverse_iterator rbegin() noexcept {return reverse_iterator(m_base.begin(), m_base.front().begin(), --m_base.end());}
-   const_reverse_iterator rbegin() const noexcept {return const_reverse_iterator(m_base.cbegin(), m_base.front().cbegin(), --m_base.cend());}
+   reverse_iterator rbegin() noexcept {return reverse_iterator(m_base.begin(), m_base.front().begin(), m_curBase);}
+   const_reverse_iterator rbegin() const noexcept {return const_reverse_iterator(m_base.cbegin(), m_base.front().cbegin(), m_curBase);}
    const_reverse_iterator crbegin() const noexcept {return rbegin();}
 
    reverse_iterator rend() noexcept{return reverse_iterator(m_curBase, m_curBase->end(), m_curBase);}
-- 
2.43.0


From 24a6443952fcd2eb017951b1ec364dfd567ba184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 06/57] fix: a failed push leaves the paged stack as it was

---
 src/include/falcon/engine/pagedstack.h | 39 +++++++++++++++-----------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 7955077..59f99c1 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -12,6 +12,7 @@
   (C) Copyright 2019 The Falcon Programming Language
   Released under Apache 2.0 License.
  ******************************************************************************/
+#include <iterator>
 #include <vector>
 #include <list>
 #include <cassert>
@@ -69,21 +70,24 @@ private:
    void growBase() {
       size_t count = m_allocSize;
       while(count) {
-         m_base.emplace_back(m_dataAllocator);
-         m_base.back().reserve(m_pageSize);
+         page_type page(m_dataAllocator);
+         page.reserve(m_pageSize);
+         m_base.push_back(std::move(page));
          --count;
       }
    }
 
-   void advance() {
-      if (m_curBase->size() == m_pageSize) {
-         ++m_curBase;
-         if(m_curBase == m_base.end()) {
-            m_curBase--;
-            growBase();
-            m_curBase++;
-         }
+   /**
+    * Page where the next element goes; it becomes the current one when the element is there.
+    */
+   typename base_type::iterator nextPage() {
+      if (m_curBase->size() != m_pageSize) {
+         return m_curBase;
+      }
+      if(std::next(m_curBase) == m_base.end()) {
+         growBase();
       }
+      return std::next(m_curBase);
    }
 
    template<typename... _Args>
@@ -123,14 +127,16 @@ private:
    }
 
    void internal_push(const _T& data) {
-      advance();
-      m_curBase->push_back(data);
+      auto page = nextPage();
+      page->push_back(data);
+      m_curBase = page;
    }
 
    template<typename... _Args>
    void internal_push(const _T& data, _Args&&... __args) {
-      advance();
-      m_curBase->push_back(data);
+      auto page = nextPage();
+      page->push_back(data);
+      m_curBase = page;
       internal_push(std::forward<_Args>(__args)...);
    }
 
@@ -454,9 +460,10 @@ public:
    template<typename... _Args>
    void push_emplace(_Args&&... __args)	{
       std::lock_guard<_Mutex> guard(m_mutex);
-      advance();
+      auto page = nextPage();
       // vector::emplace writes at the previous iterator.
-      m_curBase->emplace_back(std::forward<_Args>(__args)...);
+      page->emplace_back(std::forward<_Args>(__args)...);
+      m_curBase = page;
    }
 
    /**
-- 
2.43.0


From 7abf875352f294519d74691017dca0a6058bdd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 07/57] fix: copies of a synchronised stack iterator are
 counted

---
 src/include/falcon/engine/pagedstack.h | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 59f99c1..8fc7387 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -149,6 +149,11 @@ private:
         }
    }
 
+   void addSyncIterator() const {
+      std::lock_guard<_Mutex> guard(m_mutex);
+      ++m_syncIterCount;
+   }
+
    void removeSyncIterator() const noexcept {
       std::lock_guard<_Mutex> guard(m_mutex);
       if(--m_syncIterCount == 0 && m_shrinkRequest) {
@@ -346,6 +351,27 @@ private:
          return *this;
       }
 
+      sync_iterator_base(const sync_iterator_base& other):
+            m_iBase(other.m_iBase),
+            m_iData(other.m_iData),
+            m_iBaseBegin(other.m_iBaseBegin),
+            m_owner(other.m_owner)
+      {
+         m_owner->addSyncIterator();
+      }
+
+      sync_iterator_base& operator=(const sync_iterator_base& other) {
+         if (this != &other) {
+            other.m_owner->addSyncIterator();
+            m_owner->removeSyncIterator();
+            m_iBase = other.m_iBase;
+            m_iData = other.m_iData;
+            m_iBaseBegin = other.m_iBaseBegin;
+            m_owner = other.m_owner;
+         }
+         return *this;
+      }
+
       ~sync_iterator_base() {
          m_owner->removeSyncIterator();
       }
-- 
2.43.0


From 0396fcaae707f1ca356faa2268f6dca3f3d08f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 08/57] fix: PagedStack works with a page size or preallocation
 of zero

---
 src/include/falcon/engine/pagedstack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 8fc7387..37779f7 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -452,8 +452,8 @@ public:
 
    PagedStack(size_t pageSize = DEFAULT_PAGE_SIZE, size_t prealloc = DEFAULT_BASE_SIZE,
          const allocator_type& dataAllocator = allocator_type() ):
-            m_pageSize(pageSize),
-            m_allocSize(prealloc),
+            m_pageSize(pageSize ? pageSize : 1),
+            m_allocSize(prealloc ? prealloc : 1),
             m_base(page_allocator_type(dataAllocator)),
             m_dataAllocator(dataAllocator)
    {
-- 
2.43.0


From ee4b9c06e9abfb8f4d2f51245f980744a34fb383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 09/57] fix: replacing the stack top reports a failed element
 copy

---
 src/include/falcon/engine/pagedstack.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 37779f7..5b7f8f5 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -18,6 +18,7 @@
 #include <cassert>
 #include <memory>
 #include <stdexcept>
+#include <type_traits>
 #include <falcon/engine/distribute.h>
 #include <mutex>
 
@@ -461,7 +462,7 @@ public:
       m_curBase = m_base.begin();
    }
 
-   void top(const _T& value) noexcept { std::lock_guard<_Mutex> guard(m_mutex); m_curBase->back() = value; }
+   void top(const _T& value) noexcept(std::is_nothrow_copy_assignable<_T>::value) { std::lock_guard<_Mutex> guard(m_mutex); m_curBase->back() = value; }
    const _T& top() const noexcept { std::lock_guard<_Mutex> guard(m_mutex); return m_curBase->back(); }
 
    void push(const _T& data) {
-- 
2.43.0


From 5bf3dcdb578b7e60d24020cc628c8790309f4869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 10/57] fix: synchronised stack iterators stay inside the stack
 at both ends

---
 src/include/falcon/engine/pagedstack.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 5b7f8f5..6e2689c 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -343,8 +343,11 @@ private:
       const sync_iterator_base& operator--() {
          PagedStack::lock_guard guard(m_owner);
          if (synchronize()){
-            ++m_iData;
-            if(m_iData == m_iBase->end()) {
+            if(m_iData + 1 != m_iBase->end()) {
+               ++m_iData;
+            }
+            // at the top of the stack, stay there.
+            else if(m_owner->m_curBase != m_iBase) {
                ++m_iBase;
                m_iData = m_iBase->begin();
             }
@@ -404,7 +407,11 @@ private:
             while(++nbase != m_owner->m_base.end()) {
                // we are in sync also if the base is BEYOND us.
                if(nbase == m_owner->m_curBase) {
-                  return true;
+                  // ... unless we are at the end, before the bottom element.
+                  if (m_iData - m_iBase->begin() >= 0) {
+                     return true;
+                  }
+                  break;
                }
             }
 
-- 
2.43.0


From 3752bbf3fe76ba88c659e34d4bde062a588cc9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:41 +0000
Subject: [PATCH 11/57] fix: constant synchronised stack iterators can be read

---
 src/include/falcon/engine/pagedstack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 6e2689c..306816a 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -313,7 +313,7 @@ private:
    class sync_iterator_base {
    public:
 
-      void get(_TT& value) {
+      void get(typename std::remove_const<_TT>::type& value) {
          PagedStack::lock_guard guard(m_owner);
          synchronize();
          value = *m_iData;
-- 
2.43.0


From 8c6bf746f2d50a71326224918f951f519ed49a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:39 +0000
Subject: [PATCH 12/57] fix: a synchronised iterator is left alone when the
 stack is empty

---
 src/include/falcon/engine/pagedstack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 306816a..a3153da 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -417,14 +417,14 @@ private:
 
          }
          // we need to resync.
-         m_iBase = m_owner->m_curBase;
-         if ( m_iBase->size() == 0)
+         if ( m_owner->m_curBase->size() == 0)
          {
             // the stack has been emptied in the meanwhile.
             // any resync operation implies a movement or a dereference
             // hence, we're done.
             throw std::runtime_error("Empty stack while resync");
          }
+         m_iBase = m_owner->m_curBase;
          m_iData = m_iBase->end()-1;
 
          return false;
-- 
2.43.0


From 817cb1ad23a4b39170f6a344276427d74e48cb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 13/57] fix: a new LogSystem is not marked as terminated

---
 src/engine/logsystem.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index f3e3cc7..a98d7ea 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -24,7 +24,8 @@ LogSystem::LogSystem(bool startNow):
 		m_unpooled(0),
 		m_destroyed(0),
 		m_maxMsgQueueSize(0),
-		m_msgReceived(0)
+		m_msgReceived(0),
+		m_isTerminated(false)
 {
 	// prepare the pool
 	for (int i = 0; i < MESSAGE_POOL_THRESHOLD; ++i) {
-- 
2.43.0


From 2748e48164c7e9b2086256bf6e5f07a4a89751f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 14/57] fix: LogSystem delivers again when it is started after
 a stop

---
 src/engine/logsystem.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index a98d7ea..531b3f4 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -57,25 +57,26 @@ LogSystem::~LogSystem()
 void LogSystem::start() {
 	std::lock_guard<std::mutex> guard(m_mtxThread);
 	if(m_logThread == 0) {
+		m_mtxMessage.lock();
+		m_isTerminated = false;
+		m_mtxMessage.unlock();
 		m_logThread = new std::thread(&LogSystem::loggingThread, this);
 	}
 }
 
 
 void LogSystem::stop() noexcept {
+	std::lock_guard<std::mutex> guard(m_mtxThread);
+	if(m_logThread == 0) {
+		return;
+	}
+
 	// send a killer message
 	m_mtxMessage.lock();
 	m_isTerminated = true;
 	m_mtxMessage.unlock();
 	m_cvLogs.notify_all();
 
-	// now
-	std::thread* the_thread = 0;
-	std::lock_guard<std::mutex> guard(m_mtxThread);
-	if(m_logThread == 0) {
-		return;
-	}
-
 	// we join in a lock, but this stop() should hardly be called more than once per program.
 	m_logThread->join();
 	delete m_logThread;
-- 
2.43.0


From b7ed1240504804c86cf4290bc91f8f81bba4196a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 15/57] fix: LogSystem::log reuses the strings of a pooled
 message instead of leaking them

---
 src/engine/logsystem.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 531b3f4..f952dd7 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -91,7 +91,19 @@ void LogSystem::log( const std::string& file, int line, LEVEL level, const std::
 		return;
 	}
 
-	Message* msg = new(allocateMsg()) Message(file, line, level, cat, message);
+	// The message from the pool is a live object: reuse its storage.
+	Message* msg = allocateMsg();
+	try {
+		msg->m_file = file;
+		msg->m_line = line;
+		msg->m_level = level;
+		msg->m_category = cat;
+		msg->m_message = message;
+	}
+	catch(...) {
+		disposeMsg(msg);
+		throw;
+	}
 	log(msg);
 }
 
-- 
2.43.0


From 38a6485f618924de9b398721c0000ebec710e948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 16/57] fix: LogSystem survives failing allocations while a
 message is passed on

---
 src/engine/logsystem.cpp | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index f952dd7..4ddeed6 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -110,12 +110,18 @@ void LogSystem::log( const std::string& file, int line, LEVEL level, const std::
 
 void LogSystem::log( LogSystem::Message* msg ) noexcept
 {
-	std::lock_guard<std::mutex> guard(m_mtxMessage);
-	m_messages.push_back(msg);
-	if(m_messages.size() > m_maxMsgQueueSize) {
-		m_maxMsgQueueSize = m_messages.size();
+	try {
+		std::lock_guard<std::mutex> guard(m_mtxMessage);
+		m_messages.push_back(msg);
+		if(m_messages.size() > m_maxMsgQueueSize) {
+			m_maxMsgQueueSize = m_messages.size();
+		}
+		m_cvLogs.notify_all();
+	}
+	catch(const std::bad_alloc&) {
+		// There's no room for this message in the queue; drop it.
+		disposeMsg(msg);
 	}
-	m_cvLogs.notify_all();
 }
 
 /**
@@ -194,9 +200,15 @@ void LogSystem::loggingThread() noexcept
 void LogSystem::processNewListeners() noexcept
 {
 	std::lock_guard<std::mutex> guard(m_mtxListeners);
-	std::copy(m_pendingListeners.begin(), m_pendingListeners.end(),
-			std::back_inserter(m_activeListeners));
-	m_pendingListeners.clear();
+	try {
+		while(!m_pendingListeners.empty()) {
+			m_activeListeners.push_back(m_pendingListeners.front());
+			m_pendingListeners.pop_front();
+		}
+	}
+	catch(const std::bad_alloc&) {
+		// The listeners left are pending until the next message.
+	}
 }
 
 void LogSystem::sendMessageToListeners(Message* msg) noexcept
@@ -235,20 +247,24 @@ LogSystem::Message* LogSystem::allocateMsg()
 			return msg;
 		}
 	}
+	Message* msg = new Message;
 	m_unpooled++;
-	return new Message;
+	return msg;
 }
 
 
 void LogSystem::disposeMsg(Message* msg) noexcept
 {
-	{
+	try {
 		std::lock_guard<std::mutex> guard(m_mtxPool);
 		if(m_pool.size() < MESSAGE_POOL_THRESHOLD) {
 			m_pool.push_back(msg);
 			return;
 		}
 	}
+	catch(const std::bad_alloc&) {
+		// The pool can't grow now; do without this message.
+	}
 	m_destroyed++;
 	delete msg;
 }
-- 
2.43.0


From 10de08eee62b15de3d35d7c787cf266176016eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 17/57] fix: a LogSystem that cannot be created releases its
 pool

---
 src/engine/logsystem.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 4ddeed6..19bbeb8 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -27,13 +27,24 @@ LogSystem::LogSystem(bool startNow):
 		m_msgReceived(0),
 		m_isTerminated(false)
 {
-	// prepare the pool
-	for (int i = 0; i < MESSAGE_POOL_THRESHOLD; ++i) {
-		m_pool.push_back(new Message);
-	}
+	try {
+		// prepare the pool
+		for (int i = 0; i < MESSAGE_POOL_THRESHOLD; ++i) {
+			auto message = std::make_unique<Message>();
+			m_pool.push_back(message.get());
+			message.release();
+		}
 
-	if(startNow) {
-		start();
+		if(startNow) {
+			start();
+		}
+	}
+	catch(...) {
+		// the destructor won't be called
+		for(auto* message: m_pool){
+			delete message;
+		}
+		throw;
 	}
 }
 
-- 
2.43.0


From 3e70e351765a59efac0154e4c811e18c7bd40734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 18/57] fix: a log listener that throws does not terminate the
 process

---
 src/engine/logsystem.cpp       | 17 +++++++++++------
 src/include/falcon/logsystem.h |  2 +-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 19bbeb8..faaf530 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -226,16 +226,21 @@ void LogSystem::sendMessageToListeners(Message* msg) noexcept
 {
 	m_msgReceived++;
 	for(auto listener: m_activeListeners) {
-		if(listener->isEnabled()
-				&& listener->level() >= msg->m_level
-				&& listener->checkCategory(msg->m_category))
-		{
-			listener->onMessage(*msg);
+		try {
+			if(listener->isEnabled()
+					&& listener->level() >= msg->m_level
+					&& listener->checkCategory(msg->m_category))
+			{
+				listener->onMessage(*msg);
+			}
+		}
+		catch(...) {
+			// A listener in trouble must not harm the others, nor the service.
 		}
 	}
 }
 
-bool LogSystem::Listener::checkCategory(const std::string& cat) const noexcept
+bool LogSystem::Listener::checkCategory(const std::string& cat) const
 {
 	  if(cat == "") return true;
 	  std::lock_guard<std::mutex> guard(m_mtxCategory);
diff --git a/src/include/falcon/logsystem.h b/src/include/falcon/logsystem.h
index 235bb9a..9fd71af 100644
--- a/src/include/falcon/logsystem.h
+++ b/src/include/falcon/logsystem.h
@@ -164,7 +164,7 @@ public:
 
       bool isDetached() const noexcept {return m_detached;}
 
-      bool checkCategory(const std::string& cat) const noexcept;
+      bool checkCategory(const std::string& cat) const;
       virtual void onMessage( const Message& msg ) = 0;
 
    private:
-- 
2.43.0


From 8faae0facff09a8b7f688f11c7ed7eaf3932e1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 19/57] fix: category filtering does not write on the standard
 output

---
 src/engine/logsystem.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index faaf530..a22eb11 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -247,7 +247,6 @@ bool LogSystem::Listener::checkCategory(const std::string& cat) const
 	  if(m_category == "") {
 		  return true;
 	  }
-	  std::cout << "Category filtering: " << cat <<" vs. "<< m_category << ": " << std::regex_match(cat, m_catRegex)<<  '\n';
 	  return std::regex_match(cat, m_catRegex);
   }
 
-- 
2.43.0


From e24230e7c6caea8bbec1359daaf22eeae794de5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 20/57] fix: reading and setting a listener's category filter
 is atomic

---
 src/include/falcon/logsystem.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/include/falcon/logsystem.h b/src/include/falcon/logsystem.h
index 9fd71af..6baabe3 100644
--- a/src/include/falcon/logsystem.h
+++ b/src/include/falcon/logsystem.h
@@ -124,8 +124,10 @@ public:
     	  std::lock_guard<std::mutex> guard(m_mtxCategory);
     	  // may throw in case of error
     	  try{
-			  m_catRegex = std::regex(regex_cat);
-			  m_category = regex_cat;
+			  std::regex new_regex(regex_cat);
+			  std::string new_category(regex_cat);
+			  m_catRegex.swap(new_regex);
+			  m_category.swap(new_category);
     	  }
     	  catch(const std::runtime_error& err) {
     		  throw InvalidCategory(err.what());
@@ -135,7 +137,7 @@ public:
       /**
        * Returns the current category filter
        */
-      const std::string& category() const noexcept {
+      std::string category() const {
     	  std::lock_guard<std::mutex> guard(m_mtxCategory);
     	  return m_category;
       }
-- 
2.43.0


From 33e098641c368eac23d643390f60341841c790ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 21/57] fix: LogSystem diagnostics are read under the locks
 that guard them

---
 src/engine/logsystem.cpp       | 22 ++++++++++++++--------
 src/include/falcon/logsystem.h |  2 +-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index a22eb11..9dcb55d 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -287,11 +287,17 @@ void LogSystem::disposeMsg(Message* msg) noexcept
 
 void LogSystem::cleanupTerminatedListeners()
 {
-	m_activeListeners.erase(
-			std::remove_if(m_activeListeners.begin(), m_activeListeners.end(),
-					[](auto& listener) { return listener->isDetached(); }),
-			m_activeListeners.end());
-
+	// Only this thread changes the active listeners: taking one out needs the lock, looking doesn't.
+	for(size_t i = 0; i < m_activeListeners.size();) {
+		if(!m_activeListeners[i]->isDetached()) {
+			++i;
+			continue;
+		}
+		// the listener is destroyed after the lock is released.
+		PListener detached = m_activeListeners[i];
+		std::lock_guard<std::mutex> guard(m_mtxListeners);
+		m_activeListeners.erase(m_activeListeners.begin() + i);
+	}
 }
 
 
@@ -299,9 +305,6 @@ void LogSystem::getDiags(LogSystem::Diags& diags) noexcept
 {
 	diags.m_msgsCreated = m_unpooled;
 	diags.m_msgsDiscarded = m_destroyed;
-	diags.m_activeListeners = m_activeListeners.size();
-	diags.m_enabledListeners = std::count_if(m_activeListeners.begin(), m_activeListeners.end(),
-				[](const auto& l){return l->isEnabled();});
 	diags.m_msgReceived = m_msgReceived;
 
 	{
@@ -315,6 +318,9 @@ void LogSystem::getDiags(LogSystem::Diags& diags) noexcept
 	{
 		std::lock_guard<std::mutex> guard(m_mtxListeners);
 		diags.m_pendingListeners = m_pendingListeners.size();
+		diags.m_activeListeners = m_activeListeners.size();
+		diags.m_enabledListeners = std::count_if(m_activeListeners.begin(), m_activeListeners.end(),
+					[](const auto& l){return l->isEnabled();});
 	}
 }
 
diff --git a/src/include/falcon/logsystem.h b/src/include/falcon/logsystem.h
index 6baabe3..48ce179 100644
--- a/src/include/falcon/logsystem.h
+++ b/src/include/falcon/logsystem.h
@@ -269,7 +269,7 @@ private:
    std::atomic<size_t> m_unpooled;
    std::atomic<size_t> m_destroyed;
    size_t m_maxMsgQueueSize;
-   size_t m_msgReceived;
+   std::atomic<size_t> m_msgReceived;
 
 
    using MessageQueue = std::deque<Message*>;
-- 
2.43.0


From bc3c4bcd6cd647a1c35d95d94ef32950e03d5b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 22/57] fix: a detached log listener receives no further
 message

---
 src/engine/logsystem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 9dcb55d..f5b8c9f 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -228,6 +228,7 @@ void LogSystem::sendMessageToListeners(Message* msg) noexcept
 	for(auto listener: m_activeListeners) {
 		try {
 			if(listener->isEnabled()
+					&& !listener->isDetached()
 					&& listener->level() >= msg->m_level
 					&& listener->checkCategory(msg->m_category))
 			{
-- 
2.43.0


From 3afc051e91b0b2d850e1f63906f16c33b071dbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:11 +0000
Subject: [PATCH 23/57] fix: log lines take the local time from storage of
 their own

localtime() returns a buffer that all the threads of the process share: two log
services writing at the same time could show each other's, or a mixed, time.
---
 src/engine/logstream.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine/logstream.cpp b/src/engine/logstream.cpp
index 6db856a..0c0fc74 100644
--- a/src/engine/logstream.cpp
+++ b/src/engine/logstream.cpp
@@ -24,7 +24,13 @@ void LogStreamListener::onMessage( const falcon::LogSystem::Message& msg )
 {
 	auto now = std::chrono::system_clock::now();
 	time_t tt = std::chrono::system_clock::to_time_t(now);
-	tm local_tm = *localtime(&tt);
+	// localtime() shares its result with every other thread.
+	tm local_tm;
+#ifdef _WIN32
+	localtime_s(&local_tm, &tt);
+#else
+	localtime_r(&tt, &local_tm);
+#endif
 
 	size_t fpos = msg.m_file.rfind(FALCON_DIR_SEP_CHR);
 	std::string file;
-- 
2.43.0


From c9413a900eb9eebbf09cb29029982836fa20c361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 24/57] fix: log lines don't depend on, nor change, the target
 stream's formatting state

The line was composed with the formatting state of the target stream: with a
stream left in hexadecimal, with a fill character, a width or a locale of its
own, date and line number were wrong; and the zero fill character set for the
date stayed on the user's stream.
---
 src/engine/logstream.cpp | 41 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/engine/logstream.cpp b/src/engine/logstream.cpp
index 0c0fc74..d58c5f3 100644
--- a/src/engine/logstream.cpp
+++ b/src/engine/logstream.cpp
@@ -15,8 +15,8 @@
 
 #include <falcon/logstream.h>
 
+#include <cstdio>
 #include <iostream>
-#include <iomanip>
 
 namespace falcon {
 
@@ -41,32 +41,27 @@ void LogStreamListener::onMessage( const falcon::LogSystem::Message& msg )
 		file =  msg.m_file;
 	}
 
-	// This method is not really meant to be used by multiple threads,
-	// but this lock prevents changing the underlying stream mid-output.
-	std::lock_guard<std::mutex> guard(m_mtxStream);
-	std::ostream& out = *m_pout;
-
+	// Compose the line apart from the stream: what it shows must not depend on the
+	// formatting state and locale of the stream, which are not ours to change.
 	// TODO: use a format to print
-	out
-		<< local_tm.tm_year +1900 << '-'
-		<< std::setfill('0') << std::setw(2)
-		<< local_tm.tm_mon + 1 << '-'
-		<< std::setfill('0') << std::setw(2)
-		<< local_tm.tm_mday << ' '
-		<< std::setfill('0') << std::setw(2)
-		<< local_tm.tm_hour << ':'
-		<< std::setfill('0') << std::setw(2)
-		<< local_tm.tm_min  << ':'
-		<< std::setfill('0') << std::setw(2)
-		<< local_tm.tm_sec  << ' '
-		<< std::setw(0);
+	char time_str[100];
+	snprintf(time_str, sizeof(time_str), "%d-%02d-%02d %02d:%02d:%02d ",
+			local_tm.tm_year + 1900, local_tm.tm_mon + 1, local_tm.tm_mday,
+			local_tm.tm_hour, local_tm.tm_min, local_tm.tm_sec);
 
-	out	<< "[" << LogSystem::levelToString(msg.m_level) << "] ";
+	std::string line(time_str);
+	line.append("[").append(LogSystem::levelToString(msg.m_level)).append("] ");
 	if(! msg.m_category.empty()) {
-		out << "(" << msg.m_category << ") ";
+		line.append("(").append(msg.m_category).append(") ");
 	}
-	out << file << ':' << msg.m_line;
-	out << " " << msg.m_message << "\n";
+	line.append(file).append(":").append(std::to_string(msg.m_line));
+	line.append(" ").append(msg.m_message).append("\n");
+
+	// This method is not really meant to be used by multiple threads,
+	// but this lock prevents changing the underlying stream mid-output.
+	std::lock_guard<std::mutex> guard(m_mtxStream);
+	std::ostream& out = *m_pout;
+	out.write(line.data(), line.size());
 
 	// TODO: add a flag to do this optionally
 	out.flush();
-- 
2.43.0


From 795e7866dbe7487eae005a7bc51975f59c6374cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 25/57] fix: logger.h can be included by more than one source
 of a program

The operator for message categories was neither inline nor a template, so the
engine's and the program's own definitions clashed when linked statically.
---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index f565360..1ae380c 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -399,7 +399,7 @@ const Logger::AutoEnd& operator << (const Logger::AutoEnd& aes, T&& arg)
     return aes;
 }
 
-const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::category_manipulator&& cat)
+inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::category_manipulator&& cat)
 {
     if(aes.doLog()) {
     	aes.obj().setTempCategory(cat.m_cat);
-- 
2.43.0


From f8d08fb721e46e5f5579311ab3368dc7ae4767c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 26/57] fix: each log message is composed with a fresh
 formatting state

Manipulators like std::hex or std::setfill streamed into a message stayed in
force for all the following messages of the thread, and the text of a message
that could not be logged was left for the next one.
---
 src/include/falcon/logger.h | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 1ae380c..d80ad85 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -276,14 +276,15 @@ public:
 
 	void commit()
 	{
-		if(m_tempCategory.empty()) {
-			log(m_msgFile, m_msgLine, m_msgLevel, m_category, m_composer.str());
-		}
-		else {
-			log(m_msgFile, m_msgLine, m_msgLevel, m_tempCategory, m_composer.str());
-			m_tempCategory.clear();
-		}
-		readyStream();
+		// Whatever happens here, the next message starts anew:
+		// no text, category nor formatting state of this one is left.
+		std::ostringstream composer;
+		composer.swap(m_composer);
+		std::string tempCategory;
+		tempCategory.swap(m_tempCategory);
+
+		log(m_msgFile, m_msgLine, m_msgLevel,
+				tempCategory.empty() ? m_category : tempCategory, composer.str());
 	}
 
 	void setLevel(LOGLEVEL lvl) {
@@ -382,11 +383,6 @@ private:
 	static thread_local std::string m_msgFile;
 	static thread_local int m_msgLine;
 	static thread_local LOGLEVEL m_msgLevel;
-
-	void readyStream() noexcept {
-		m_composer.clear();
-		m_composer.str("");
-	}
 };
 
 
-- 
2.43.0


From f8f3b439a7331357bb50bf3c48b0189d87a197f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 27/57] fix: nested and abandoned log statements don't mix
 their text with others

A statement whose operand logs, too, gave the first part of its text to the
operand's message and took the operand's file, line and level; and a LOG_BLOCK
left early (by break, return or an exception) left its text and temporary
category for the next message of the thread.
---
 src/include/falcon/logger.h | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index d80ad85..af140d6 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -302,17 +302,49 @@ public:
 	void categoryFilter(const std::string& line, LOGLEVEL l=LLTRACE);
 	void clearFilter();
 
+	/**
+	 * Keeps aside what the thread is composing, and gives it back when destroyed.
+	 *
+	 * Statements composing a message in a scope of their own are not mixed up
+	 * with the statement they are an operand of, and leave nothing behind if they
+	 * are abandoned before they are complete.
+	 */
+	class Composition
+	{
+	private:
+		std::ostringstream m_composer;
+		std::string m_tempCategory;
+		std::string m_msgFile;
+		int m_msgLine{0};
+		LOGLEVEL m_msgLevel{LLTRACE};
+
+		void exchange() {
+			m_composer.swap(Logger::m_composer);
+			m_tempCategory.swap(Logger::m_tempCategory);
+			m_msgFile.swap(Logger::m_msgFile);
+			std::swap(m_msgLine, Logger::m_msgLine);
+			std::swap(m_msgLevel, Logger::m_msgLevel);
+		}
+
+	public:
+		Composition() { exchange(); }
+		~Composition() { exchange(); }
+		Composition(const Composition&) = delete;
+		Composition& operator=(const Composition&) = delete;
+	};
+
 	class AutoEnd
 	{
 	private:
+	    std::unique_ptr<Composition> m_composition;
 	    Logger* m_obj;
-	    std::string m_category;
 
 	public:
 	    explicit AutoEnd (Logger& obj, const std::string& file, int line, LOGLEVEL lvl):
 			m_obj(nullptr)
 	    {
 	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
+	    		m_composition = std::make_unique<Composition>();
 	    		obj.setFile(file);
 	    		obj.setLine(line);
 	    		obj.setLevel(lvl);
@@ -328,6 +360,7 @@ public:
 	class BlockEnd
 	{
 	private:
+	    std::unique_ptr<Composition> m_composition;
 	    Logger* m_obj;
 
 	public:
@@ -335,6 +368,7 @@ public:
 			m_obj(nullptr)
 	    {
 	    	if(FALCON_MIN_LOG_LEVEL >= lvl && obj.level() >= lvl) {
+	    		m_composition = std::make_unique<Composition>();
 	    		obj.setFile(file);
 	    		obj.setLine(line);
 	    		obj.setLevel(lvl);
-- 
2.43.0


From bb1af2487d142e4c5a4008611f75f1585ad28329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 28/57] fix: a log statement out of memory does not terminate
 the process

---
 src/include/falcon/logger.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index af140d6..4219412 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -352,7 +352,16 @@ public:
 	    	}
 	    }
 
-	    ~AutoEnd () {if(m_obj){m_obj->commit();}}
+	    ~AutoEnd () {
+	    	if(m_obj) {
+	    		try {
+	    			m_obj->commit();
+	    		}
+	    		catch(...) {
+	    			// can't be reported from here: the message is dropped.
+	    		}
+	    	}
+	    }
 	    bool doLog() const noexcept {return m_obj != nullptr;}
 	    Logger& obj () const noexcept {return *m_obj;}
 	};
-- 
2.43.0


From adbf3ccf05fb086bd1c967c9b30d5d2a9e6061ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:35 +0000
Subject: [PATCH 29/57] fix: setting a log category out of memory is reported
 instead of fatal

The setters copy a string, and were declared noexcept.
---
 src/include/falcon/logger.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 4219412..1e8a9ea 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -262,11 +262,11 @@ public:
 		return m_dflt;
 	}
 
-	void setCategory(const std::string& category) noexcept {
+	void setCategory(const std::string& category) {
 		m_category = category;
 	}
 
-	void setTempCategory(const std::string& category) noexcept {
+	void setTempCategory(const std::string& category) {
 		m_tempCategory = category;
 	}
 
-- 
2.43.0


From bf3635c877837f403075ce169d2a9c8c2a59e606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:09 +0000
Subject: [PATCH 30/57] fix: clearing the logger's category filter when none is
 set does nothing

---
 src/engine/logger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index 3c8e365..f33d06d 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -47,7 +47,11 @@ void Logger::categoryFilter(const std::string& category, LOGLEVEL l) {
 
 
 void Logger::clearFilter() {
+	if(! m_proxy) {
+		return;
+	}
 	m_proxy->detach();
+	m_proxy.reset();
 	level(m_proxyBaseLevel);
 }
 
-- 
2.43.0


From d69f66d56a5321af9d1dc7fb03aa411f1909eec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:12 +0000
Subject: [PATCH 31/57] fix: replacing the logger's category filter keeps the
 level to be restored

---
 src/engine/logger.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index f33d06d..8619f1c 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -14,6 +14,7 @@
 ******************************************************************************/
 
 #include <falcon/logger.h>
+#include <algorithm>
 
 namespace falcon {
 
@@ -32,13 +33,14 @@ Logger::Logger()
 
 
 void Logger::categoryFilter(const std::string& category, LOGLEVEL l) {
-	if (m_proxy.get()) {
+	if (m_proxy) {
+		// the levels in force before the first filter are still to be restored.
 		m_proxy->detach();
 	}
-	m_proxyBaseLevel = level();
-	if(l > m_proxyBaseLevel) {
-		level(l);
+	else {
+		m_proxyBaseLevel = level();
 	}
+	level(std::max(l, m_proxyBaseLevel));
 	m_proxy = std::make_shared<LogProxyListener>(m_dflt);
 	m_proxy->category(category);
 	m_proxy->level(l);
-- 
2.43.0


From 08dea404d778076ec9f5974e9e70367812fbfc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:16 +0000
Subject: [PATCH 32/57] fix: an invalid category filter leaves the logger as it
 was

---
 src/engine/logger.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index 8619f1c..619bd02 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -33,6 +33,12 @@ Logger::Logger()
 
 
 void Logger::categoryFilter(const std::string& category, LOGLEVEL l) {
+	// What may fail comes first, so that a failure changes nothing.
+	auto proxy = std::make_shared<LogProxyListener>(m_dflt);
+	proxy->category(category);
+	proxy->level(l);
+	addListener(proxy);
+
 	if (m_proxy) {
 		// the levels in force before the first filter are still to be restored.
 		m_proxy->detach();
@@ -40,11 +46,8 @@ void Logger::categoryFilter(const std::string& category, LOGLEVEL l) {
 	else {
 		m_proxyBaseLevel = level();
 	}
+	m_proxy = proxy;
 	level(std::max(l, m_proxyBaseLevel));
-	m_proxy = std::make_shared<LogProxyListener>(m_dflt);
-	m_proxy->category(category);
-	m_proxy->level(l);
-	addListener(m_proxy);
 }
 
 
-- 
2.43.0


From 2829c00adcd0af0c82a886a1672dc98675e09556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:19 +0000
Subject: [PATCH 33/57] fix: the logger's category filter lets only its
 category through

As documented, the default listener is lowered to the level in force before, or
it would write the messages of every category up to the level of the filter.
---
 src/engine/logger.cpp       | 5 +++++
 src/include/falcon/logger.h | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index 619bd02..e94e969 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -45,8 +45,12 @@ void Logger::categoryFilter(const std::string& category, LOGLEVEL l) {
 	}
 	else {
 		m_proxyBaseLevel = level();
+		m_dfltBaseLevel = m_dflt->level();
 	}
 	m_proxy = proxy;
+
+	// The default listener goes on with what it got up to now.
+	m_dflt->level(std::min(m_dfltBaseLevel, m_proxyBaseLevel));
 	level(std::max(l, m_proxyBaseLevel));
 }
 
@@ -58,6 +62,7 @@ void Logger::clearFilter() {
 	m_proxy->detach();
 	m_proxy.reset();
 	level(m_proxyBaseLevel);
+	m_dflt->level(m_dfltBaseLevel);
 }
 
 }
diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 1e8a9ea..df37d87 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -419,6 +419,7 @@ private:
 	std::shared_ptr<LogStreamListener> m_dflt;
 	std::shared_ptr<LogProxyListener> m_proxy;
 	LOGLEVEL m_proxyBaseLevel{LLTRACE};
+	LOGLEVEL m_dfltBaseLevel{LLTRACE};
 
 	static thread_local std::ostringstream m_composer;
 	static thread_local std::string m_category;
-- 
2.43.0


From 04d527169460bdc9248a233bdc42d2d985c416aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 34/57] fix: a code object holds sources of any length

---
 src/engine/code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/code.cpp b/src/engine/code.cpp
index 823a381..aba1b6c 100644
--- a/src/engine/code.cpp
+++ b/src/engine/code.cpp
@@ -19,7 +19,7 @@
 namespace falcon {
 
 Code::Code(const std::string& source, int line) noexcept :
-		m_source(source), m_line(line), m_data(new char[1000])
+		m_source(source), m_line(line), m_data(new char[source.size() + 1])
 {
 	std::copy(m_source.data(), m_source.data() + m_source.size(), m_data);
 	m_data[m_source.size()] = 0;
-- 
2.43.0


From 9542547ec2c1b5d00106e43ccf996cfc32b609ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:15 +0000
Subject: [PATCH 35/57] fix: each code object owns its text

---
 src/engine/code.cpp              | 13 +++++++++++--
 src/include/falcon/engine/code.h |  2 +-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/engine/code.cpp b/src/engine/code.cpp
index aba1b6c..474e57a 100644
--- a/src/engine/code.cpp
+++ b/src/engine/code.cpp
@@ -15,6 +15,7 @@
 
 #include <falcon/engine/code.h>
 #include <algorithm>
+#include <utility>
 
 namespace falcon {
 
@@ -26,7 +27,7 @@ Code::Code(const std::string& source, int line) noexcept :
 }
 
 Code::Code(const Code& other) noexcept:
-		m_source(other.m_source), m_line(other.m_line), m_data(other.m_data)
+		Code(other.m_source, other.m_line)
 {}
 
 Code::Code(Code&& other) noexcept:
@@ -36,13 +37,21 @@ Code::Code(Code&& other) noexcept:
 	other.m_data = nullptr;
 }
 
+Code& Code::operator=(Code other) noexcept
+{
+	m_source.swap(other.m_source);
+	std::swap(m_line, other.m_line);
+	std::swap(m_data, other.m_data);
+	return *this;
+}
+
 Code::~Code()
 {
 	delete[] m_data;
 }
 
 std::string Code::toString() const noexcept {
-	return std::string(m_data);
+	return m_data == nullptr ? std::string() : std::string(m_data);
 }
 
 }
diff --git a/src/include/falcon/engine/code.h b/src/include/falcon/engine/code.h
index 11042cf..214cfc0 100644
--- a/src/include/falcon/engine/code.h
+++ b/src/include/falcon/engine/code.h
@@ -24,7 +24,7 @@ public:
 	Code(const std::string& source="", int m_line=0) noexcept;
 	Code(const Code& other) noexcept;
 	Code(Code&& other) noexcept;
-	Code& operator=(const Code& other) = default;
+	Code& operator=(Code other) noexcept;
 	~Code();
 
 	std::string toString() const noexcept;
-- 
2.43.0


From f2e9819446c95f2659a0be72e785e6ad3504dd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:25 +0000
Subject: [PATCH 36/57] fix: a code object keeps text that contains zero bytes

---
 src/engine/code.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/code.cpp b/src/engine/code.cpp
index 474e57a..4460122 100644
--- a/src/engine/code.cpp
+++ b/src/engine/code.cpp
@@ -51,7 +51,7 @@ Code::~Code()
 }
 
 std::string Code::toString() const noexcept {
-	return m_data == nullptr ? std::string() : std::string(m_data);
+	return m_data == nullptr ? std::string() : std::string(m_data, m_source.size());
 }
 
 }
-- 
2.43.0


From d691b43b45701d8492fa806e7bbc6ac938f24135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 37/57] fix: lack of memory or a throwing stream while
 compiling is reported, not fatal

---
 src/engine/code.cpp                  | 6 +++---
 src/engine/compiler.cpp              | 2 +-
 src/include/falcon/engine/code.h     | 6 +++---
 src/include/falcon/engine/compiler.h | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/engine/code.cpp b/src/engine/code.cpp
index 4460122..20048f7 100644
--- a/src/engine/code.cpp
+++ b/src/engine/code.cpp
@@ -19,14 +19,14 @@
 
 namespace falcon {
 
-Code::Code(const std::string& source, int line) noexcept :
+Code::Code(const std::string& source, int line) :
 		m_source(source), m_line(line), m_data(new char[source.size() + 1])
 {
 	std::copy(m_source.data(), m_source.data() + m_source.size(), m_data);
 	m_data[m_source.size()] = 0;
 }
 
-Code::Code(const Code& other) noexcept:
+Code::Code(const Code& other):
 		Code(other.m_source, other.m_line)
 {}
 
@@ -50,7 +50,7 @@ Code::~Code()
 	delete[] m_data;
 }
 
-std::string Code::toString() const noexcept {
+std::string Code::toString() const {
 	return m_data == nullptr ? std::string() : std::string(m_data, m_source.size());
 }
 
diff --git a/src/engine/compiler.cpp b/src/engine/compiler.cpp
index 5a0ef17..354a84d 100644
--- a/src/engine/compiler.cpp
+++ b/src/engine/compiler.cpp
@@ -17,7 +17,7 @@
 #include <falcon/engine/compiler.h>
 
 namespace falcon {
-Code Compiler::compile(std::istream& input) noexcept
+Code Compiler::compile(std::istream& input)
 {
 	std::string value;
 	input >> value;
diff --git a/src/include/falcon/engine/code.h b/src/include/falcon/engine/code.h
index 214cfc0..8e5fd89 100644
--- a/src/include/falcon/engine/code.h
+++ b/src/include/falcon/engine/code.h
@@ -21,13 +21,13 @@
 namespace falcon {
 class Code {
 public:
-	Code(const std::string& source="", int m_line=0) noexcept;
-	Code(const Code& other) noexcept;
+	Code(const std::string& source="", int m_line=0);
+	Code(const Code& other);
 	Code(Code&& other) noexcept;
 	Code& operator=(Code other) noexcept;
 	~Code();
 
-	std::string toString() const noexcept;
+	std::string toString() const;
 private:
 	std::string m_source;
 	int m_line;
diff --git a/src/include/falcon/engine/compiler.h b/src/include/falcon/engine/compiler.h
index 4294266..ed10a8c 100644
--- a/src/include/falcon/engine/compiler.h
+++ b/src/include/falcon/engine/compiler.h
@@ -30,7 +30,7 @@ public:
 	 * @throw CompilationError on error.
 	 */
 
-	Code compile(std::istream& input) noexcept;
+	Code compile(std::istream& input);
 };
 }
 
-- 
2.43.0


From 76938cab98349d034e8b70ab8ab09df0ff2c8559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:04 +0000
Subject: [PATCH 38/57] fix: the value of an item can be read

---
 src/include/falcon/engine/item.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/falcon/engine/item.h b/src/include/falcon/engine/item.h
index ede1a6e..37406d5 100644
--- a/src/include/falcon/engine/item.h
+++ b/src/include/falcon/engine/item.h
@@ -91,8 +91,6 @@ public:
         } else {
             throw std::invalid_argument("Not a valid item type");
         }
-
-        return *static_cast<T*>(data);
     }
 
     String toString() const noexcept {return handler->toString(data);}
-- 
2.43.0


From e1e9628a632f460456b71f6f49867c40fc67504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 39/57] fix: values allocated by a type handler can be released

---
 src/include/falcon/engine/itemdata.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/falcon/engine/itemdata.h b/src/include/falcon/engine/itemdata.h
index 4eee6de..3390785 100644
--- a/src/include/falcon/engine/itemdata.h
+++ b/src/include/falcon/engine/itemdata.h
@@ -17,6 +17,7 @@
 #define _FALCON_ITEMDATA_H_
 
 #include "falcon/types.h"
+#include <type_traits>
 
 namespace falcon {
 
@@ -45,6 +46,10 @@ union ItemData {
             uint64Value = value;
         } else if constexpr (std::is_same_v<T, numeric>) {
             numericValue = value;
+        } else if constexpr (std::is_null_pointer_v<T>) {
+            ptrValue = nullptr;
+        } else if constexpr (std::is_pointer_v<T>) {
+            ptrValue = const_cast<void*>(static_cast<const void*>(value));
         } else {
             ptrValue = static_cast<void*>(const_cast<T*>(&value));
         }
-- 
2.43.0


From 7162eba909178e85e987c8fc8550d498361ec738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 40/57] fix: copies of an item own their value

---
 src/include/falcon/engine/deephandler.h |  2 ++
 src/include/falcon/engine/flathandler.h |  1 +
 src/include/falcon/engine/handler.h     |  1 +
 src/include/falcon/engine/item.h        | 15 +++++++++++++++
 4 files changed, 19 insertions(+)

diff --git a/src/include/falcon/engine/deephandler.h b/src/include/falcon/engine/deephandler.h
index 0efe981..78cb480 100644
--- a/src/include/falcon/engine/deephandler.h
+++ b/src/include/falcon/engine/deephandler.h
@@ -27,6 +27,8 @@ struct DeepHandler: public Handler {
     ItemData allocate() const override {return new T;}
     void destroy(ItemData data) const noexcept override { delete reinterpret_cast<T *>(data.ptrValue);}
 
+    ItemData copy(ItemData data) const override { return new T(*reinterpret_cast<T *>(data.ptrValue)); }
+
     bool isFlat() const noexcept override { return false; }
     bool isCopyFlat() const noexcept override { return false; }
 };
diff --git a/src/include/falcon/engine/flathandler.h b/src/include/falcon/engine/flathandler.h
index 8e379f0..064c618 100644
--- a/src/include/falcon/engine/flathandler.h
+++ b/src/include/falcon/engine/flathandler.h
@@ -24,6 +24,7 @@ struct FlatHandler: public Handler {
 
     ItemData allocate() const override { return ItemData(false); }
     void destroy(ItemData) const noexcept override {}
+    ItemData copy(ItemData data) const override { return data; }
     
     bool isFlat() const noexcept override{ return true; }
     bool isCopyFlat() const noexcept override{ return true; }
diff --git a/src/include/falcon/engine/handler.h b/src/include/falcon/engine/handler.h
index df54df1..e8ca152 100644
--- a/src/include/falcon/engine/handler.h
+++ b/src/include/falcon/engine/handler.h
@@ -31,6 +31,7 @@ struct Handler {
 
     virtual ItemData allocate() const =0;
     virtual void destroy(ItemData data) const noexcept =0;
+    virtual ItemData copy(ItemData data) const =0;
 
     virtual String typeName() const noexcept = 0;
     virtual String toString(ItemData data) const noexcept = 0;
diff --git a/src/include/falcon/engine/item.h b/src/include/falcon/engine/item.h
index 37406d5..6de3f67 100644
--- a/src/include/falcon/engine/item.h
+++ b/src/include/falcon/engine/item.h
@@ -18,6 +18,8 @@
 
 #include "falcon/types.h"
 #include "falcon/engine/handlerfactory.h"
+#include <stdexcept>
+#include <utility>
 
 namespace falcon {
 
@@ -69,6 +71,19 @@ public:
         }
     }
 
+    Item(const Item& other) : data(other.handler->copy(other.data)), handler(other.handler) {}
+
+    Item(Item&& other) noexcept : data(other.data), handler(other.handler) {
+        other.data = ItemData(nullptr);
+        other.handler = &HandlerFactory::nilHandler;
+    }
+
+    Item& operator=(Item other) noexcept {
+        std::swap(data, other.data);
+        std::swap(handler, other.handler);
+        return *this;
+    }
+
     ~Item() {
         handler->destroy(data);
     }
-- 
2.43.0


From 965487580bb84fc789992fd21ac7f2b52129a3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 41/57] fix: formatting settings a test leaves on the standard
 streams don't alter the report

---
 src/fut/testcase.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index d76bb4c..9a63631 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -41,6 +41,9 @@ public:
    std::streambuf *outbuf;
    std::streambuf *errbuf;
 
+   std::ios outfmt{nullptr};
+   std::ios errfmt{nullptr};
+
    std::string failDesc;
    int failLine;
    std::string failFile;
@@ -189,6 +192,8 @@ void TestCase::beginTest(bool capture)
       p->errbuf = std::cerr.rdbuf();
       std::cout.rdbuf(p->outCapture.rdbuf());
       std::cerr.rdbuf(p->errCapture.rdbuf());
+      p->outfmt.copyfmt(std::cout);
+      p->errfmt.copyfmt(std::cerr);
    }
 
    p->status = NONE;
@@ -200,6 +205,8 @@ void TestCase::endTest(bool capture)
    if(capture){
       std::cout.rdbuf(p->outbuf);
       std::cerr.rdbuf(p->errbuf);
+      std::cout.copyfmt(p->outfmt);
+      std::cerr.copyfmt(p->errfmt);
 
       p->outCaptureStr = p->outCapture.str();
       p->errCaptureStr = p->errCapture.str();
-- 
2.43.0


From ffe97555ae6a2bace8d29b0f0c6beb424bf18bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:21 +0000
Subject: [PATCH 42/57] fix: only tests that were performed are listed as
 failed

---
 src/fut/unittest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index c9424cd..1e8963b 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -223,7 +223,7 @@ void UnitTest::report()
    if(p->verbosity > SILENT) {
       if (p->status != 0) {
          bool first = true;
-         for(auto tcase: p->tests ) {
+         for(auto tcase: p->testsToPerofm ) {
             if (!hasPassed(tcase))
             {
                if(first) {
-- 
2.43.0


From cb30122333501b9a86f7f23af595e5036ce7e369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:28 +0000
Subject: [PATCH 43/57] fix: performing the unit tests again runs each test
 once

---
 src/fut/unittest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 1e8963b..f6629dd 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -110,6 +110,7 @@ void UnitTest::runAllTests()
 {
    // Reorder the tests in components
    int count = 0;
+   p->componentToPerform.clear();
    for(auto tcase: p->testsToPerofm ) {
 
       auto catIter = p->componentToPerform.find(tcase->componentName());
-- 
2.43.0


From 7e8e5f4d22a3afd5a17cda1f783277b26fea8e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 44/57] fix: a test that runs again captures only what it
 writes this time

---
 src/fut/testcase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 9a63631..cdcc5a3 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -190,6 +190,8 @@ void TestCase::beginTest(bool capture)
    if (capture) {
       p->outbuf = std::cout.rdbuf();
       p->errbuf = std::cerr.rdbuf();
+      p->outCapture.str("");
+      p->errCapture.str("");
       std::cout.rdbuf(p->outCapture.rdbuf());
       std::cerr.rdbuf(p->errCapture.rdbuf());
       p->outfmt.copyfmt(std::cout);
-- 
2.43.0


From 15daeb128ff586c5f25c2bc59cec47c4cf692b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 45/57] fix: a test whose set-up throws doesn't report the time
 since the epoch

---
 src/fut/testcase.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index cdcc5a3..0da8658 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -219,6 +219,7 @@ void TestCase::run()
 {
    try {
       p->status = NONE;
+      p->lapse.markBegin();
       SetUp();
 
       p->lapse.markBegin();
-- 
2.43.0


From 4cedc3783889efaab74d80be3bd4fc4dcd856306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 46/57] fix: elapsed times don't depend on the wall clock being
 set

---
 src/fut/marktime-unix.c++ | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fut/marktime-unix.c++ b/src/fut/marktime-unix.c++
index efac12f..6e439c0 100644
--- a/src/fut/marktime-unix.c++
+++ b/src/fut/marktime-unix.c++
@@ -15,7 +15,7 @@
 
 #include <falcon/fut/marktime.h>
 #include <unistd.h>
-#include <sys/time.h>
+#include <time.h>
 #include <stdexcept>
 
 namespace falcon {
@@ -23,12 +23,12 @@ namespace testing {
 
 void markTime(int64& currentMillisecs)
 {
-   struct timeval tv;
-   if(gettimeofday(&tv, NULL)) {
-      throw std::runtime_error("gettimeofday failed");
+   struct timespec ts;
+   if(clock_gettime(CLOCK_MONOTONIC, &ts)) {
+      throw std::runtime_error("clock_gettime failed");
    }
-   currentMillisecs = (tv.tv_sec * 1000);
-   currentMillisecs += (tv.tv_usec / 1000);
+   currentMillisecs = (static_cast<int64>(ts.tv_sec) * 1000);
+   currentMillisecs += (ts.tv_nsec / 1000000);
 }
 
 void waitTime(int64 mseconds) {
-- 
2.43.0


From 94bdafcb9fbff112dcadfd8dd3232b0cf0d92c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:21 +0000
Subject: [PATCH 47/57] fix: waitTime waits all the time asked, also when a
 signal arrives

---
 src/fut/marktime-unix.c++ | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fut/marktime-unix.c++ b/src/fut/marktime-unix.c++
index 6e439c0..f4ed2e7 100644
--- a/src/fut/marktime-unix.c++
+++ b/src/fut/marktime-unix.c++
@@ -14,7 +14,7 @@
 ******************************************************************************/
 
 #include <falcon/fut/marktime.h>
-#include <unistd.h>
+#include <errno.h>
 #include <time.h>
 #include <stdexcept>
 
@@ -32,7 +32,12 @@ void markTime(int64& currentMillisecs)
 }
 
 void waitTime(int64 mseconds) {
-	usleep(mseconds * 1000);
+	struct timespec ts;
+	ts.tv_sec = mseconds / 1000;
+	ts.tv_nsec = (mseconds % 1000) * 1000000;
+	while(nanosleep(&ts, &ts) && errno == EINTR) {
+		// a signal interrupted the wait: wait the remaining time.
+	}
 }
 
 }
-- 
2.43.0


From b849bccc2a3d6b9ab0a56b71a674e0440005244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 48/57] fix: the XML report is well-formed whatever names and
 messages contain

---
 src/fut/unittest.cpp | 65 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 8 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index f6629dd..3d017a8 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -44,6 +44,55 @@ public:
    std::vector<TestCase*> tests;
    TimeLapse lapse;
 };
+
+// Length of the well-formed UTF-8 sequence at pos that is a character allowed in XML; 0 if there is none.
+std::string::size_type xmlCharLength(const std::string& text, std::string::size_type pos)
+{
+   auto lead = static_cast<unsigned char>(text[pos]);
+   if(lead < 0x80) {
+      return (lead >= 0x20 || lead == '\t' || lead == '\n' || lead == '\r') ? 1 : 0;
+   }
+
+   std::string::size_type length = lead >= 0xF0 ? 4 : lead >= 0xE0 ? 3 : 2;
+   if(lead < 0xC2 || lead > 0xF4 || pos + length > text.size()) {
+      return 0;
+   }
+   unsigned long code = lead & (0x7F >> length);
+   for(std::string::size_type i = 1; i < length; ++i) {
+      auto next = static_cast<unsigned char>(text[pos + i]);
+      if((next & 0xC0) != 0x80) {
+         return 0;
+      }
+      code = code << 6 | (next & 0x3F);
+   }
+   if((length == 3 && code < 0x800) || (length == 4 && (code < 0x10000 || code > 0x10FFFF))
+      || (code >= 0xD800 && code <= 0xDFFF) || code == 0xFFFE || code == 0xFFFF) {
+      return 0;
+   }
+   return length;
+}
+
+// Text that can be put in an XML attribute or element; what XML can't represent becomes a question mark.
+std::string xmlEscape(const std::string& text)
+{
+   std::string escaped;
+   for(std::string::size_type pos = 0; pos < text.size();) {
+      auto length = xmlCharLength(text, pos);
+      switch(length == 0 ? 0 : text[pos]) {
+      case 0: escaped += '?'; length = 1; break;
+      case '&': escaped += "&amp;"; break;
+      case '<': escaped += "&lt;"; break;
+      case '>': escaped += "&gt;"; break;
+      case '"': escaped += "&quot;"; break;
+      case '\t': escaped += "&#9;"; break;
+      case '\n': escaped += "&#10;"; break;
+      case '\r': escaped += "&#13;"; break;
+      default: escaped.append(text, pos, length); break;
+      }
+      pos += length;
+   }
+   return escaped;
+}
 }
 
 class UnitTest::Private {
@@ -421,29 +470,29 @@ void UnitTest::saveToXML() const
 
    fout << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
 
-   fout << "<testsuites id=\""<< p->unitTestId << "\" name=\"" << p->unitTestName
+   fout << "<testsuites id=\""<< xmlEscape(p->unitTestId) << "\" name=\"" << xmlEscape(p->unitTestName)
             << "\" tests=\"" << p->testsToPerofm.size() << "\" "
             << "failures=\"" << p->failedCount << "\" "
             << "time=\""<< p->lapse.elapsed() / 1000.0 << "\">\n";
    for(auto& icat: p->componentToPerform) {
       auto& component = icat.second;
 
-      fout << "<testsuite id=\"" << p->unitTestId << "." << component.name << "\" "
-           << "name=\"" << component.name << "\" "
+      fout << "<testsuite id=\"" << xmlEscape(p->unitTestId + "." + component.name) << "\" "
+           << "name=\"" << xmlEscape(component.name) << "\" "
            << "tests=\"" << component.tests.size() << "\" "
            << "failures=\"" << component.failures << "\" "
            << "time=\"" << component.lapse.elapsed() / 1000.0 << "\">\n";
 
       for(auto tcasep: component.tests) {
-         fout << "<testcase id=\"" << p->unitTestId << "." << component.name << "." << tcasep->caseName() << "\" "
-              << "name=\"" << tcasep->caseName() << "\" "
+         fout << "<testcase id=\"" << xmlEscape(p->unitTestId + "." + component.name + "." + tcasep->caseName()) << "\" "
+              << "name=\"" << xmlEscape(tcasep->caseName()) << "\" "
               << "time=\"" << tcasep->elapsedTime() / 1000.0 << "\">\n";
 
          if(!hasPassed(tcasep)) {
-            fout << "<failure message=\"" << tcasep->failDesc() << "\" "
+            fout << "<failure message=\"" << xmlEscape(tcasep->failDesc()) << "\" "
                  << "type=\"" << tcasep->statusDesc() << "\">\n";
-            fout << tcasep->failDesc() << "\n"
-                 << "File: " << tcasep->failFile() << "\n"
+            fout << xmlEscape(tcasep->failDesc()) << "\n"
+                 << "File: " << xmlEscape(tcasep->failFile()) << "\n"
                  << "Line: " << tcasep->failLine() << "\n";
             fout << "</failure>\n";
          }
-- 
2.43.0


From a92176c25ce7d77889f444dd7fd86a5f1e3a9f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 49/57] fix: an XML report that cannot be written completely is
 announced

---
 src/fut/unittest.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 3d017a8..94fe4fb 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -501,6 +501,10 @@ void UnitTest::saveToXML() const
       fout << "</testsuite>\n";
    }
    fout << "</testsuites>\n";
+   fout.close();
+   if(! fout) {
+      std::cerr << "Cannot save XML report to " << p->xmlReport;
+   }
 }
 
 void UnitTest::detectTestName(const char* exeName)
-- 
2.43.0


From 888ac4fbcd68550ca53bafb9f41ef47b898f549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 50/57] fix: the XML report shows no random line for a test
 that failed without a check

---
 src/fut/testcase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 0da8658..7ea7c45 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -45,7 +45,7 @@ public:
    std::ios errfmt{nullptr};
 
    std::string failDesc;
-   int failLine;
+   int failLine{0};
    std::string failFile;
 
    TimeLapse lapse;
-- 
2.43.0


From 59acd050f69e45bcf5d4ffaab40ea6fa49fe6588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:46 +0000
Subject: [PATCH 51/57] fix: the reasons of failures don't outlive the
 execution they belong to

---
 src/fut/testcase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 7ea7c45..344d020 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -176,6 +176,9 @@ void TestCase::TearDown()
 void TestCase::init()
 {
    p->status = NONE;
+   p->failDesc.clear();
+   p->failFile.clear();
+   p->failLine = 0;
 }
 
 void TestCase::destroy()
-- 
2.43.0


From da6afea2a08f712f29a584268643042ac3392c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:31 +0000
Subject: [PATCH 52/57] fix: floating point checks take expressions as operands

---
 src/include/falcon/fut/fut.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/falcon/fut/fut.h b/src/include/falcon/fut/fut.h
index 2cb11ef..9eb9675 100644
--- a/src/include/falcon/fut/fut.h
+++ b/src/include/falcon/fut/fut.h
@@ -86,11 +86,11 @@
 
 
 #define EXPECT_FLOAT_EQ( _EXPECTED_, _ACTUAL_) \
-            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>(_EXPECTED_*10000.0),\
-               ==,static_cast<::falcon::int64>(_ACTUAL_*10000.0))
+            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>((_EXPECTED_)*10000.0),\
+               ==,static_cast<::falcon::int64>((_ACTUAL_)*10000.0))
 #define EXPECT_FLOAT_NE( _EXPECTED_, _ACTUAL_) \
-            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>(_EXPECTED_*10000.0),\
-               !=,static_cast<::falcon::int64>(_ACTUAL_*10000.0))
+            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>((_EXPECTED_)*10000.0),\
+               !=,static_cast<::falcon::int64>((_ACTUAL_)*10000.0))
 
 #define FAIL(_MESSAGE_) \
    this->checkFail( __FILE__, __LINE__, _MESSAGE_, "" );
-- 
2.43.0


From 8347e76dcb784945e84be2e2f82350642442b494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:14 +0000
Subject: [PATCH 53/57] fix: log statements above the compile-time limit don't
 evaluate their operands

---
 src/include/falcon/logger.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index df37d87..8bf5898 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -366,6 +366,12 @@ public:
 	    Logger& obj () const noexcept {return *m_obj;}
 	};
 
+	// Turns a complete statement, whatever its operands, into an expression of no type.
+	struct Statement
+	{
+		void operator&(const AutoEnd&) const noexcept {}
+	};
+
 	class BlockEnd
 	{
 	private:
@@ -450,7 +456,10 @@ inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::ca
 #define LOGGER (::falcon::Logger::instance())
 #define LOG_CATEGORY(__CAT) if(FALCON_MIN_LOG_LEVEL >= LOGGER.level()){LOGGER.setCategory(__CAT);}
 
-#define LOG(__LVL) (::falcon::Logger::AutoEnd(LOGGER, __FILE__, __LINE__, __LVL))
+// A statement above the compile-time limit is not there at all, operands included.
+#define LOG(__LVL) \
+	(FALCON_MIN_LOG_LEVEL < (__LVL)) ? (void)0 : \
+		::falcon::Logger::Statement() & ::falcon::Logger::AutoEnd(LOGGER, __FILE__, __LINE__, (__LVL))
 #define LOG_CRIT LOG(::falcon::LLCRIT)
 #define LOG_ERR  LOG(::falcon::LLERR)
 #define LOG_WARN LOG(::falcon::LLWARN)
-- 
2.43.0


From 19ef8ee0b7debcf9ae24d7e851eb614eb6fc4334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:29 +0000
Subject: [PATCH 54/57] fix: the log category is set whatever the compile-time
 limit

---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 8bf5898..c2841d2 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -454,7 +454,7 @@ inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::ca
 }
 
 #define LOGGER (::falcon::Logger::instance())
-#define LOG_CATEGORY(__CAT) if(FALCON_MIN_LOG_LEVEL >= LOGGER.level()){LOGGER.setCategory(__CAT);}
+#define LOG_CATEGORY(__CAT) if(FALCON_MIN_LOG_LEVEL > ::falcon::LLDISABLE){LOGGER.setCategory(__CAT);}
 
 // A statement above the compile-time limit is not there at all, operands included.
 #define LOG(__LVL) \
-- 
2.43.0


From b022e98ec3d03bba65f40a2cdce3da33cb4702c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:20 +0000
Subject: [PATCH 55/57] fix: log blocks take any expression as their level

---
 src/include/falcon/logger.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index c2841d2..08e3c02 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -469,8 +469,8 @@ inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::ca
 #define LOG_CAT  ::falcon::Logger::msg_cat
 
 #define LOG_BLOCK(lvl) \
-	for( ::falcon::Logger::BlockEnd __ender(LOGGER, __FILE__, __LINE__, lvl); \
-		FALCON_MIN_LOG_LEVEL >= lvl && LOGGER.level() >= lvl && __ender; \
+	for( ::falcon::Logger::BlockEnd __ender(LOGGER, __FILE__, __LINE__, (lvl)); \
+		FALCON_MIN_LOG_LEVEL >= (lvl) && LOGGER.level() >= (lvl) && __ender; \
 		__ender.complete() )
 
 #define LOG_BLOCK_CRIT LOG_BLOCK(::falcon::LLCRIT)
-- 
2.43.0


From 3265d184c5e826b0fe03e5e071475a2d27967811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 56/57] fix: log blocks above the compile-time limit do nothing

---
 src/include/falcon/logger.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 08e3c02..cbcb209 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -469,8 +469,9 @@ inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::ca
 #define LOG_CAT  ::falcon::Logger::msg_cat
 
 #define LOG_BLOCK(lvl) \
+	if(FALCON_MIN_LOG_LEVEL < (lvl)) {} else \
 	for( ::falcon::Logger::BlockEnd __ender(LOGGER, __FILE__, __LINE__, (lvl)); \
-		FALCON_MIN_LOG_LEVEL >= (lvl) && LOGGER.level() >= (lvl) && __ender; \
+		LOGGER.level() >= (lvl) && __ender; \
 		__ender.complete() )
 
 #define LOG_BLOCK_CRIT LOG_BLOCK(::falcon::LLCRIT)
-- 
2.43.0


From 65a05bba61173f7525cb9d117057e404c2162d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:05 +0000
Subject: [PATCH 57/57] fix: output captured in an earlier execution of a test
 is not kept

---
 src/fut/testcase.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 344d020..549a125 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -189,12 +189,16 @@ void TestCase::destroy()
 
 void TestCase::beginTest(bool capture)
 {
+   // nothing is left of an earlier execution, whether it was captured or not
+   p->outCapture.str("");
+   p->errCapture.str("");
+   p->outCaptureStr.clear();
+   p->errCaptureStr.clear();
+
    // saving the standard buffers
    if (capture) {
       p->outbuf = std::cout.rdbuf();
       p->errbuf = std::cerr.rdbuf();
-      p->outCapture.str("");
-      p->errCapture.str("");
       std::cout.rdbuf(p->outCapture.rdbuf());
       std::cerr.rdbuf(p->errCapture.rdbuf());
       p->outfmt.copyfmt(std::cout);
-- 
2.43.0

