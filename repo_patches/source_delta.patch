From b940048041391f4991f7e52f62b683afce3738f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 01/47] fix: LogSystem initialises its termination flag and can
 be started again after stop()

---
 src/engine/logsystem.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index f3e3cc7..531b3f4 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -24,7 +24,8 @@ LogSystem::LogSystem(bool startNow):
 		m_unpooled(0),
 		m_destroyed(0),
 		m_maxMsgQueueSize(0),
-		m_msgReceived(0)
+		m_msgReceived(0),
+		m_isTerminated(false)
 {
 	// prepare the pool
 	for (int i = 0; i < MESSAGE_POOL_THRESHOLD; ++i) {
@@ -56,25 +57,26 @@ LogSystem::~LogSystem()
 void LogSystem::start() {
 	std::lock_guard<std::mutex> guard(m_mtxThread);
 	if(m_logThread == 0) {
+		m_mtxMessage.lock();
+		m_isTerminated = false;
+		m_mtxMessage.unlock();
 		m_logThread = new std::thread(&LogSystem::loggingThread, this);
 	}
 }
 
 
 void LogSystem::stop() noexcept {
+	std::lock_guard<std::mutex> guard(m_mtxThread);
+	if(m_logThread == 0) {
+		return;
+	}
+
 	// send a killer message
 	m_mtxMessage.lock();
 	m_isTerminated = true;
 	m_mtxMessage.unlock();
 	m_cvLogs.notify_all();
 
-	// now
-	std::thread* the_thread = 0;
-	std::lock_guard<std::mutex> guard(m_mtxThread);
-	if(m_logThread == 0) {
-		return;
-	}
-
 	// we join in a lock, but this stop() should hardly be called more than once per program.
 	m_logThread->join();
 	delete m_logThread;
-- 
2.43.0


From 79ed4ae771b980957b514a33419443ac1acdf1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 02/47] fix: do not leak the strings of a pooled log message
 when it is reused

---
 src/engine/logsystem.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 531b3f4..ba06974 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -91,7 +91,12 @@ void LogSystem::log( const std::string& file, int line, LEVEL level, const std::
 		return;
 	}
 
-	Message* msg = new(allocateMsg()) Message(file, line, level, cat, message);
+	Message* msg = allocateMsg();
+	msg->m_file = file;
+	msg->m_line = line;
+	msg->m_level = level;
+	msg->m_category = cat;
+	msg->m_message = message;
 	log(msg);
 }
 
-- 
2.43.0


From 94c7a5952a3d19ddce076dfc26dc25c0bdea7464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 03/47] fix: synchronise LogSystem::getDiags() with the logging
 thread

---
 src/engine/logsystem.cpp       | 14 ++++++++++----
 src/include/falcon/logsystem.h |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index ba06974..7b1d367 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -249,9 +249,15 @@ void LogSystem::disposeMsg(Message* msg) noexcept
 
 void LogSystem::cleanupTerminatedListeners()
 {
+	// the listeners we dismiss are destroyed after the lock is released.
+	ListenerList dismissed;
+	std::lock_guard<std::mutex> guard(m_mtxListeners);
 	m_activeListeners.erase(
 			std::remove_if(m_activeListeners.begin(), m_activeListeners.end(),
-					[](auto& listener) { return listener->isDetached(); }),
+					[&dismissed](auto& listener) {
+						bool detached = listener->isDetached();
+						if(detached) { dismissed.push_back(listener); }
+						return detached; }),
 			m_activeListeners.end());
 
 }
@@ -261,9 +267,6 @@ void LogSystem::getDiags(LogSystem::Diags& diags) noexcept
 {
 	diags.m_msgsCreated = m_unpooled;
 	diags.m_msgsDiscarded = m_destroyed;
-	diags.m_activeListeners = m_activeListeners.size();
-	diags.m_enabledListeners = std::count_if(m_activeListeners.begin(), m_activeListeners.end(),
-				[](const auto& l){return l->isEnabled();});
 	diags.m_msgReceived = m_msgReceived;
 
 	{
@@ -277,6 +280,9 @@ void LogSystem::getDiags(LogSystem::Diags& diags) noexcept
 	{
 		std::lock_guard<std::mutex> guard(m_mtxListeners);
 		diags.m_pendingListeners = m_pendingListeners.size();
+		diags.m_activeListeners = m_activeListeners.size();
+		diags.m_enabledListeners = std::count_if(m_activeListeners.begin(), m_activeListeners.end(),
+				[](const auto& l){return l->isEnabled();});
 	}
 }
 
diff --git a/src/include/falcon/logsystem.h b/src/include/falcon/logsystem.h
index 235bb9a..333e483 100644
--- a/src/include/falcon/logsystem.h
+++ b/src/include/falcon/logsystem.h
@@ -267,7 +267,7 @@ private:
    std::atomic<size_t> m_unpooled;
    std::atomic<size_t> m_destroyed;
    size_t m_maxMsgQueueSize;
-   size_t m_msgReceived;
+   std::atomic<size_t> m_msgReceived;
 
 
    using MessageQueue = std::deque<Message*>;
-- 
2.43.0


From b31d64ceabf97fdc2f0070b52454ee23f554b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 04/47] fix: Listener::category() returns a copy of the filter
 it reads under the lock

---
 src/include/falcon/logsystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logsystem.h b/src/include/falcon/logsystem.h
index 333e483..4efc53d 100644
--- a/src/include/falcon/logsystem.h
+++ b/src/include/falcon/logsystem.h
@@ -135,7 +135,7 @@ public:
       /**
        * Returns the current category filter
        */
-      const std::string& category() const noexcept {
+      std::string category() const noexcept {
     	  std::lock_guard<std::mutex> guard(m_mtxCategory);
     	  return m_category;
       }
-- 
2.43.0


From 01784c9234a0d3b7fc7be39eeb5713634322b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 05/47] fix: a detached log listener receives no further
 message

---
 src/engine/logsystem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 7b1d367..0fddde0 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -197,6 +197,7 @@ void LogSystem::sendMessageToListeners(Message* msg) noexcept
 	m_msgReceived++;
 	for(auto listener: m_activeListeners) {
 		if(listener->isEnabled()
+				&& !listener->isDetached()
 				&& listener->level() >= msg->m_level
 				&& listener->checkCategory(msg->m_category))
 		{
-- 
2.43.0


From 63c43b0ff689982303798a7ed232d25928a9d9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 06/47] fix: checkCategory() does not print debug output on
 std::cout

---
 src/engine/logsystem.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/engine/logsystem.cpp b/src/engine/logsystem.cpp
index 0fddde0..201bd33 100644
--- a/src/engine/logsystem.cpp
+++ b/src/engine/logsystem.cpp
@@ -213,7 +213,6 @@ bool LogSystem::Listener::checkCategory(const std::string& cat) const noexcept
 	  if(m_category == "") {
 		  return true;
 	  }
-	  std::cout << "Category filtering: " << cat <<" vs. "<< m_category << ": " << std::regex_match(cat, m_catRegex)<<  '\n';
 	  return std::regex_match(cat, m_catRegex);
   }
 
-- 
2.43.0


From fdf18ac352875da1cfd7fbd0750f8ec07cdfa405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 07/47] fix: LogStreamListener uses the reentrant localtime

---
 src/engine/logstream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/engine/logstream.cpp b/src/engine/logstream.cpp
index 6db856a..31de36e 100644
--- a/src/engine/logstream.cpp
+++ b/src/engine/logstream.cpp
@@ -24,7 +24,12 @@ void LogStreamListener::onMessage( const falcon::LogSystem::Message& msg )
 {
 	auto now = std::chrono::system_clock::now();
 	time_t tt = std::chrono::system_clock::to_time_t(now);
-	tm local_tm = *localtime(&tt);
+	tm local_tm;
+#ifdef FALCON_SYSTEM_WIN
+	localtime_s(&local_tm, &tt);
+#else
+	localtime_r(&tt, &local_tm);
+#endif
 
 	size_t fpos = msg.m_file.rfind(FALCON_DIR_SEP_CHR);
 	std::string file;
-- 
2.43.0


From ca23382eb3fb383a799595216306e30e466ace86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 08/47] fix: PagedStack::clear() empties the first page too

---
 src/include/falcon/engine/pagedstack.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 168d5d1..4282a01 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -530,6 +530,7 @@ public:
          m_curBase->clear();
          --m_curBase;
       }
+      m_curBase->clear();
    }
 
    /**
-- 
2.43.0


From ed24938093d175687fe4decabd217cf62c082c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 09/47] fix: PagedStack discard to a page boundary clears the
 page it leaves

---
 src/include/falcon/engine/pagedstack.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 4282a01..3692b2a 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -111,13 +111,11 @@ private:
       }
       if(iData == m_curBase->begin())
       {
+         m_curBase->clear();
          if (m_curBase != m_base.begin())
          {
             m_curBase--;
          }
-         else {
-            m_curBase->clear();
-         }
       }
       else {
          m_curBase->resize(iData - m_curBase->begin());
-- 
2.43.0


From 5147c18f5c9f0678b32561a0eb26f6800f1c4a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 10/47] fix: PagedStack reverse iteration stops at the current
 page

---
 src/include/falcon/engine/pagedstack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 3692b2a..7955077 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -564,8 +564,8 @@ public:
    const_iterator end() const noexcept {return const_iterator(m_base.begin(), --m_base.front().begin(), m_base.cbegin()); }
    const_iterator cend() const noexcept {return end(); }
 
-   reverse_iterator rbegin() noexcept {return reverse_iterator(m_base.begin(), m_base.front().begin(), --m_base.end());}
-   const_reverse_iterator rbegin() const noexcept {return const_reverse_iterator(m_base.cbegin(), m_base.front().cbegin(), --m_base.cend());}
+   reverse_iterator rbegin() noexcept {return reverse_iterator(m_base.begin(), m_base.front().begin(), m_curBase);}
+   const_reverse_iterator rbegin() const noexcept {return const_reverse_iterator(m_base.cbegin(), m_base.front().cbegin(), m_curBase);}
    const_reverse_iterator crbegin() const noexcept {return rbegin();}
 
    reverse_iterator rend() noexcept{return reverse_iterator(m_curBase, m_curBase->end(), m_curBase);}
-- 
2.43.0


From 8d677f58464a61024828151e708a6f200ad8e12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 11/47] fix: a push that throws leaves the PagedStack as it was

---
 src/include/falcon/engine/pagedstack.h | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index 7955077..f82d27c 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -86,6 +86,13 @@ private:
       }
    }
 
+   // Steps back from a page that was entered by an advance(), but was not used.
+   void retreat() noexcept {
+      if(m_curBase->empty() && m_curBase != m_base.begin()) {
+         --m_curBase;
+      }
+   }
+
    template<typename... _Args>
    void internal_pop(_T& value, _Args&&... __args) {
       value = m_curBase->back();
@@ -124,13 +131,18 @@ private:
 
    void internal_push(const _T& data) {
       advance();
-      m_curBase->push_back(data);
+      try {
+         m_curBase->push_back(data);
+      }
+      catch(...) {
+         retreat();
+         throw;
+      }
    }
 
    template<typename... _Args>
    void internal_push(const _T& data, _Args&&... __args) {
-      advance();
-      m_curBase->push_back(data);
+      internal_push(data);
       internal_push(std::forward<_Args>(__args)...);
    }
 
@@ -456,7 +468,13 @@ public:
       std::lock_guard<_Mutex> guard(m_mutex);
       advance();
       // vector::emplace writes at the previous iterator.
-      m_curBase->emplace_back(std::forward<_Args>(__args)...);
+      try {
+         m_curBase->emplace_back(std::forward<_Args>(__args)...);
+      }
+      catch(...) {
+         retreat();
+         throw;
+      }
    }
 
    /**
-- 
2.43.0


From a39e1e7e7f3c633f45bfbfa544d6ba98617e3341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 12/47] fix: copies of a PagedStack synchronous iterator are
 accounted for

---
 src/include/falcon/engine/pagedstack.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index f82d27c..e5e8036 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -16,6 +16,7 @@
 #include <list>
 #include <cassert>
 #include <memory>
+#include <utility>
 #include <stdexcept>
 #include <falcon/engine/distribute.h>
 #include <mutex>
@@ -352,6 +353,25 @@ private:
          return *this;
       }
 
+      sync_iterator_base(const sync_iterator_base& other) noexcept:
+            m_iBase(other.m_iBase),
+            m_iData(other.m_iData),
+            m_iBaseBegin(other.m_iBaseBegin),
+            m_owner(other.m_owner)
+      {
+         PagedStack::lock_guard guard(m_owner);
+         m_owner->m_syncIterCount++;
+      }
+
+      sync_iterator_base& operator=(const sync_iterator_base& other) noexcept {
+         sync_iterator_base copy(other);
+         std::swap(m_iBase, copy.m_iBase);
+         std::swap(m_iData, copy.m_iData);
+         std::swap(m_iBaseBegin, copy.m_iBaseBegin);
+         std::swap(m_owner, copy.m_owner);
+         return *this;
+      }
+
       ~sync_iterator_base() {
          m_owner->removeSyncIterator();
       }
-- 
2.43.0


From 227c97825a404e21fcae0983f7984a54894715ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:05 +0000
Subject: [PATCH 13/47] fix: a copied PagedStack does not refer to the pages of
 the original

---
 src/include/falcon/engine/pagedstack.h | 34 ++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index e5e8036..d2fca72 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -461,6 +461,40 @@ public:
       m_curBase = m_base.begin();
    }
 
+   PagedStack(const PagedStack& other):
+            m_pageSize(other.m_pageSize),
+            m_allocSize(other.m_allocSize),
+            m_base(page_allocator_type(other.m_dataAllocator)),
+            m_dataAllocator(other.m_dataAllocator)
+   {
+      growBase();
+      m_curBase = m_base.begin();
+
+      std::lock_guard<_Mutex> guard(other.m_mutex);
+      typename base_type::const_iterator iter = other.m_base.begin();
+      while(true) {
+         for(const _T& value: *iter) {
+            internal_push(value);
+         }
+         if(iter == other.m_curBase) {
+            break;
+         }
+         ++iter;
+      }
+   }
+
+   PagedStack& operator=(const PagedStack& other) {
+      if(this != &other) {
+         PagedStack copy(other);
+         std::lock_guard<_Mutex> guard(m_mutex);
+         m_pageSize = copy.m_pageSize;
+         m_allocSize = copy.m_allocSize;
+         m_base.swap(copy.m_base);
+         m_curBase = std::exchange(copy.m_curBase, m_curBase);
+      }
+      return *this;
+   }
+
    void top(const _T& value) noexcept { std::lock_guard<_Mutex> guard(m_mutex); m_curBase->back() = value; }
    const _T& top() const noexcept { std::lock_guard<_Mutex> guard(m_mutex); return m_curBase->back(); }
 
-- 
2.43.0


From 96110c3a136cf7c9425cbb54f6fe42536e6e3376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 14/47] fix: Futex yields every spinCount contended attempts,
 not only once

---
 src/include/falcon/futex.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 23708c9..228e037 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -57,6 +57,7 @@ public:
 
          if(spinCount && --sc == 0) {
             std::this_thread::yield();
+            sc = spinCount;
          }
       }
    }
-- 
2.43.0


From 77d52a6adc7af782930a0edcdb1a8d1d3f67590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 15/47] fix: RFutex::lock() returns once the futex is owned by
 the calling thread

---
 src/include/falcon/futex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 228e037..40a15a4 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -95,7 +95,7 @@ public:
       while(!m_owner.compare_exchange_strong(
             free, thread_id,
             std::memory_order_seq_cst,
-            std::memory_order_seq_cst) || free != thread_id) {
+            std::memory_order_seq_cst) && free != thread_id) {
          free = 0;
       }
       ++m_count;
-- 
2.43.0


From cd651e2c3bde6cd3236c95f069a95fb6cfbaa9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 16/47] fix: a thread that never locked an RFutex does not own
 a free one

---
 src/include/falcon/futex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/futex.h b/src/include/falcon/futex.h
index 40a15a4..4bf4c35 100644
--- a/src/include/falcon/futex.h
+++ b/src/include/falcon/futex.h
@@ -112,7 +112,7 @@ public:
    }
 
    bool isOwner() noexcept {
-      return m_owner.load(std::memory_order_seq_cst) == s_thread_id;
+      return s_thread_id != 0 && m_owner.load(std::memory_order_seq_cst) == s_thread_id;
    }
 };
 
-- 
2.43.0


From c018cc6df31d7e74427f881c658d1ea4923302b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 17/47] fix: ItemData stores the pointer it is given, not the
 address of a temporary

---
 src/include/falcon/engine/itemdata.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/falcon/engine/itemdata.h b/src/include/falcon/engine/itemdata.h
index 4eee6de..3390785 100644
--- a/src/include/falcon/engine/itemdata.h
+++ b/src/include/falcon/engine/itemdata.h
@@ -17,6 +17,7 @@
 #define _FALCON_ITEMDATA_H_
 
 #include "falcon/types.h"
+#include <type_traits>
 
 namespace falcon {
 
@@ -45,6 +46,10 @@ union ItemData {
             uint64Value = value;
         } else if constexpr (std::is_same_v<T, numeric>) {
             numericValue = value;
+        } else if constexpr (std::is_null_pointer_v<T>) {
+            ptrValue = nullptr;
+        } else if constexpr (std::is_pointer_v<T>) {
+            ptrValue = const_cast<void*>(static_cast<const void*>(value));
         } else {
             ptrValue = static_cast<void*>(const_cast<T*>(&value));
         }
-- 
2.43.0


From 785e4688620fd994001542d9695bfa681ccc3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 18/47] fix: copies of an Item do not share the payload of the
 original

---
 src/include/falcon/engine/deephandler.h |  1 +
 src/include/falcon/engine/flathandler.h |  1 +
 src/include/falcon/engine/handler.h     |  1 +
 src/include/falcon/engine/item.h        | 11 +++++++++++
 4 files changed, 14 insertions(+)

diff --git a/src/include/falcon/engine/deephandler.h b/src/include/falcon/engine/deephandler.h
index 0efe981..bb8a5cc 100644
--- a/src/include/falcon/engine/deephandler.h
+++ b/src/include/falcon/engine/deephandler.h
@@ -26,6 +26,7 @@ struct DeepHandler: public Handler {
 
     ItemData allocate() const override {return new T;}
     void destroy(ItemData data) const noexcept override { delete reinterpret_cast<T *>(data.ptrValue);}
+    ItemData clone(ItemData data) const override { return new T(*reinterpret_cast<T *>(data.ptrValue));}
 
     bool isFlat() const noexcept override { return false; }
     bool isCopyFlat() const noexcept override { return false; }
diff --git a/src/include/falcon/engine/flathandler.h b/src/include/falcon/engine/flathandler.h
index 8e379f0..1a9eb96 100644
--- a/src/include/falcon/engine/flathandler.h
+++ b/src/include/falcon/engine/flathandler.h
@@ -24,6 +24,7 @@ struct FlatHandler: public Handler {
 
     ItemData allocate() const override { return ItemData(false); }
     void destroy(ItemData) const noexcept override {}
+    ItemData clone(ItemData data) const override { return data; }
     
     bool isFlat() const noexcept override{ return true; }
     bool isCopyFlat() const noexcept override{ return true; }
diff --git a/src/include/falcon/engine/handler.h b/src/include/falcon/engine/handler.h
index df54df1..b97aca8 100644
--- a/src/include/falcon/engine/handler.h
+++ b/src/include/falcon/engine/handler.h
@@ -31,6 +31,7 @@ struct Handler {
 
     virtual ItemData allocate() const =0;
     virtual void destroy(ItemData data) const noexcept =0;
+    virtual ItemData clone(ItemData data) const =0;
 
     virtual String typeName() const noexcept = 0;
     virtual String toString(ItemData data) const noexcept = 0;
diff --git a/src/include/falcon/engine/item.h b/src/include/falcon/engine/item.h
index ede1a6e..d07ba39 100644
--- a/src/include/falcon/engine/item.h
+++ b/src/include/falcon/engine/item.h
@@ -18,6 +18,8 @@
 
 #include "falcon/types.h"
 #include "falcon/engine/handlerfactory.h"
+#include <stdexcept>
+#include <utility>
 
 namespace falcon {
 
@@ -69,6 +71,15 @@ public:
         }
     }
 
+    Item(const Item& other) : data(other.handler->clone(other.data)), handler(other.handler) {}
+
+    Item& operator=(const Item& other) {
+        Item copy(other);
+        std::swap(data, copy.data);
+        std::swap(handler, copy.handler);
+        return *this;
+    }
+
     ~Item() {
         handler->destroy(data);
     }
-- 
2.43.0


From 56bce40f5222ddc821f8ee1cccddfe18b561c861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 19/47] fix: the integer value of a non-numeric string item
 does not terminate the program

---
 src/include/falcon/engine/stringhandler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/stringhandler.h b/src/include/falcon/engine/stringhandler.h
index 4116e84..1936a79 100644
--- a/src/include/falcon/engine/stringhandler.h
+++ b/src/include/falcon/engine/stringhandler.h
@@ -16,6 +16,7 @@
 #define _FALCON_STRINGHANDLER_H_
 
 #include "falcon/engine/deepflatcopyhandler.h"
+#include <cstdlib>
 
 
 namespace falcon {
@@ -27,7 +28,7 @@ struct StringHandler: public DeepFlatCopyHandler<String> {
     String toString(ItemData data) const noexcept override { return *reinterpret_cast<String *>(data.ptrValue); }
 
     bool toBool(ItemData data) const noexcept override { return !reinterpret_cast<String *>(data.ptrValue)->empty(); }
-    int64 toInt(ItemData data) const noexcept override { return std::stoll(*reinterpret_cast<String *>(data.ptrValue)); }
+    int64 toInt(ItemData data) const noexcept override { return std::strtoll(reinterpret_cast<String *>(data.ptrValue)->c_str(), nullptr, 10); }
 };
 
 }
-- 
2.43.0


From 66351e7d1871277d34dc78c8ced51b6a48f6127d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 20/47] fix: Item::get() compiles when it is used

---
 src/include/falcon/engine/item.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/falcon/engine/item.h b/src/include/falcon/engine/item.h
index d07ba39..e3c736f 100644
--- a/src/include/falcon/engine/item.h
+++ b/src/include/falcon/engine/item.h
@@ -102,8 +102,6 @@ public:
         } else {
             throw std::invalid_argument("Not a valid item type");
         }
-
-        return *static_cast<T*>(data);
     }
 
     String toString() const noexcept {return handler->toString(data);}
-- 
2.43.0


From f2ae34482da0a158249384aa47d2bc1b26bb850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 21/47] fix: a Code instance owns a buffer that is large enough
 for its source

---
 src/engine/code.cpp              | 16 +++++++++++++---
 src/include/falcon/engine/code.h |  2 +-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/engine/code.cpp b/src/engine/code.cpp
index 823a381..8ce907d 100644
--- a/src/engine/code.cpp
+++ b/src/engine/code.cpp
@@ -15,18 +15,19 @@
 
 #include <falcon/engine/code.h>
 #include <algorithm>
+#include <utility>
 
 namespace falcon {
 
 Code::Code(const std::string& source, int line) noexcept :
-		m_source(source), m_line(line), m_data(new char[1000])
+		m_source(source), m_line(line), m_data(new char[source.size()+1])
 {
 	std::copy(m_source.data(), m_source.data() + m_source.size(), m_data);
 	m_data[m_source.size()] = 0;
 }
 
 Code::Code(const Code& other) noexcept:
-		m_source(other.m_source), m_line(other.m_line), m_data(other.m_data)
+		Code(other.m_source, other.m_line)
 {}
 
 Code::Code(Code&& other) noexcept:
@@ -36,13 +37,22 @@ Code::Code(Code&& other) noexcept:
 	other.m_data = nullptr;
 }
 
+Code& Code::operator=(const Code& other)
+{
+	Code copy(other);
+	std::swap(m_source, copy.m_source);
+	std::swap(m_line, copy.m_line);
+	std::swap(m_data, copy.m_data);
+	return *this;
+}
+
 Code::~Code()
 {
 	delete[] m_data;
 }
 
 std::string Code::toString() const noexcept {
-	return std::string(m_data);
+	return m_data ? std::string(m_data) : std::string();
 }
 
 }
diff --git a/src/include/falcon/engine/code.h b/src/include/falcon/engine/code.h
index 11042cf..3eafc76 100644
--- a/src/include/falcon/engine/code.h
+++ b/src/include/falcon/engine/code.h
@@ -24,7 +24,7 @@ public:
 	Code(const std::string& source="", int m_line=0) noexcept;
 	Code(const Code& other) noexcept;
 	Code(Code&& other) noexcept;
-	Code& operator=(const Code& other) = default;
+	Code& operator=(const Code& other);
 	~Code();
 
 	std::string toString() const noexcept;
-- 
2.43.0


From d6610a19eb5a905329ebd0e61e6e09966cc89f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 22/47] fix: logger.h can be included by more than one
 translation unit

---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index f565360..1ae380c 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -399,7 +399,7 @@ const Logger::AutoEnd& operator << (const Logger::AutoEnd& aes, T&& arg)
     return aes;
 }
 
-const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::category_manipulator&& cat)
+inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::category_manipulator&& cat)
 {
     if(aes.doLog()) {
     	aes.obj().setTempCategory(cat.m_cat);
-- 
2.43.0


From 8410df926c04c751982c51246746e9cb5af065c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 23/47] fix: the default mutex of PagedStack is the same type
 in every translation unit

---
 src/include/falcon/engine/pagedstack.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index d2fca72..cb54416 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -30,13 +30,11 @@ namespace falcon {
  *
  */
 
-namespace{
 class dummy_mutex {
 public:
 	void lock() const volatile noexcept {};
 	void unlock() const volatile noexcept {};
 };
-}
 
 template<typename _T,
 	template<typename> typename _Allocator=std::allocator, typename _Mutex=dummy_mutex>
-- 
2.43.0


From dba39924bf39ddc5746ca11948ef37aa4bebbfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 24/47] fix: distribute.h includes what it uses

---
 src/include/falcon/engine/distribute.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/falcon/engine/distribute.h b/src/include/falcon/engine/distribute.h
index 1522267..11c5b41 100644
--- a/src/include/falcon/engine/distribute.h
+++ b/src/include/falcon/engine/distribute.h
@@ -16,6 +16,8 @@
 #ifndef _FALCON_DISTRIBUTE_H_
 #define _FALCON_DISTRIBUTE_H_
 
+#include <utility>
+
 namespace falcon {
 
 template<typename _iterator, typename _tgt>
-- 
2.43.0


From 2201ce8d282b881ad5f72f01142373f49417832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 25/47] fix: LOG_CATEGORY sets the category whenever any log is
 compiled

---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 1ae380c..87843df 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -408,7 +408,7 @@ inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::ca
 }
 
 #define LOGGER (::falcon::Logger::instance())
-#define LOG_CATEGORY(__CAT) if(FALCON_MIN_LOG_LEVEL >= LOGGER.level()){LOGGER.setCategory(__CAT);}
+#define LOG_CATEGORY(__CAT) do {if(FALCON_MIN_LOG_LEVEL > ::falcon::LLDISABLE){LOGGER.setCategory(__CAT);}} while(0)
 
 #define LOG(__LVL) (::falcon::Logger::AutoEnd(LOGGER, __FILE__, __LINE__, __LVL))
 #define LOG_CRIT LOG(::falcon::LLCRIT)
-- 
2.43.0


From 350dccc44cdfd654b6ebed397982d52c4e597c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 26/47] fix: the text of an abandoned log block does not end up
 in the next message

---
 src/include/falcon/logger.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 87843df..ce4de18 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -340,7 +340,9 @@ public:
 	    		m_obj = &obj;
 	    	}
 	    }
-	    void complete() {m_obj->commit(); m_obj = nullptr;}
+	    ~BlockEnd () {if(m_obj){m_obj->m_tempCategory.clear(); m_obj->readyStream();}}
+	    BlockEnd(const BlockEnd&) = delete;
+	    void complete() {Logger* obj = m_obj; m_obj = nullptr; obj->commit();}
 	    operator bool() const noexcept {return m_obj != nullptr;}
 	};
 
-- 
2.43.0


From 87c660a70613b7c9beaccefb4d11eb5156639022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 27/47] fix: stream format set by a log message does not
 persist in the next one

---
 src/include/falcon/logger.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index ce4de18..718eb56 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -388,6 +388,7 @@ private:
 	void readyStream() noexcept {
 		m_composer.clear();
 		m_composer.str("");
+		m_composer.copyfmt(std::ios(nullptr));
 	}
 };
 
-- 
2.43.0


From 23a927fa26b71956d4540bfda987af556b65a006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:45 +0000
Subject: [PATCH 28/47] fix: the category filter helper restores the state
 preceding the filter

---
 src/engine/logger.cpp       | 25 +++++++++++++++++--------
 src/include/falcon/logger.h |  1 +
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/engine/logger.cpp b/src/engine/logger.cpp
index 3c8e365..d57ecf1 100644
--- a/src/engine/logger.cpp
+++ b/src/engine/logger.cpp
@@ -32,23 +32,32 @@ Logger::Logger()
 
 
 void Logger::categoryFilter(const std::string& category, LOGLEVEL l) {
-	if (m_proxy.get()) {
-		m_proxy->detach();
-	}
+	// might throw if the category is invalid.
+	auto proxy = std::make_shared<LogProxyListener>(m_dflt);
+	proxy->category(category);
+	proxy->level(l);
+
+	clearFilter();
+	m_proxy = proxy;
 	m_proxyBaseLevel = level();
+	m_dfltBaseLevel = m_dflt->level();
 	if(l > m_proxyBaseLevel) {
+		if(m_dfltBaseLevel > m_proxyBaseLevel) {
+			m_dflt->level(m_proxyBaseLevel);
+		}
 		level(l);
 	}
-	m_proxy = std::make_shared<LogProxyListener>(m_dflt);
-	m_proxy->category(category);
-	m_proxy->level(l);
 	addListener(m_proxy);
 }
 
 
 void Logger::clearFilter() {
-	m_proxy->detach();
-	level(m_proxyBaseLevel);
+	if (m_proxy.get()) {
+		m_proxy->detach();
+		m_proxy.reset();
+		level(m_proxyBaseLevel);
+		m_dflt->level(m_dfltBaseLevel);
+	}
 }
 
 }
diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index 718eb56..abeaf44 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -377,6 +377,7 @@ private:
 	std::shared_ptr<LogStreamListener> m_dflt;
 	std::shared_ptr<LogProxyListener> m_proxy;
 	LOGLEVEL m_proxyBaseLevel{LLTRACE};
+	LOGLEVEL m_dfltBaseLevel{LLTRACE};
 
 	static thread_local std::ostringstream m_composer;
 	static thread_local std::string m_category;
-- 
2.43.0


From 5a9aee6ae6d1053224038e75f2f609c8e46a0a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:24 +0000
Subject: [PATCH 29/47] fix: TearDown() is called also when the test throws

---
 src/fut/testcase.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index d76bb4c..6d68e61 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -213,7 +213,15 @@ void TestCase::run()
       SetUp();
 
       p->lapse.markBegin();
-      test();
+      try {
+         test();
+      }
+      catch(...) {
+         p->lapse.markEnd();
+         // the test has been set up: tear it down, but report its own error.
+         try { TearDown(); } catch(...) {}
+         throw;
+      }
       p->lapse.markEnd();
 
       if(p->status == NONE) {
@@ -222,12 +230,10 @@ void TestCase::run()
       TearDown();
    }
    catch(std::exception& e) {
-      p->lapse.markEnd();
       p->status = ERROR;
       p->failDesc = e.what();
    }
    catch(...) {
-      p->lapse.markEnd();
       p->status = ERROR;
       p->failDesc = "Unknown error caught by falcon::testing framework";
    }
-- 
2.43.0


From 47023d245525f048718a5a7f99a1809cc7c80266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 30/47] fix: output captured by a previous run of a test is
 discarded

---
 src/fut/testcase.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 6d68e61..5e0aa86 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -183,6 +183,11 @@ void TestCase::destroy()
 
 void TestCase::beginTest(bool capture)
 {
+   p->outCapture.str("");
+   p->errCapture.str("");
+   p->outCaptureStr.clear();
+   p->errCaptureStr.clear();
+
    // saving the standard buffers
    if (capture) {
       p->outbuf = std::cout.rdbuf();
-- 
2.43.0


From 2a990f5f7e0c45d1ee7531570276fe487b909b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 31/47] fix: initialise all the members of the unit test
 framework

---
 src/fut/testcase.cpp | 8 ++++----
 src/fut/unittest.cpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 5e0aa86..11be2c3 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -32,17 +32,17 @@ public:
    std::string componentName;
    std::string caseName;
 
-   TestCase::t_status status;
+   TestCase::t_status status{TestCase::NONE};
    std::ostringstream outCapture;
    std::ostringstream errCapture;
    std::string outCaptureStr;
    std::string errCaptureStr;
 
-   std::streambuf *outbuf;
-   std::streambuf *errbuf;
+   std::streambuf *outbuf{nullptr};
+   std::streambuf *errbuf{nullptr};
 
    std::string failDesc;
-   int failLine;
+   int failLine{0};
    std::string failFile;
 
    TimeLapse lapse;
diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index c9424cd..9f03add 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -67,7 +67,7 @@ public:
 
    int status;
    int screenWidth;
-   int failedCount;
+   int failedCount{0};
    bool m_capture{true};
 
    bool opt_erroutIsFail;
-- 
2.43.0


From 129685ea187268ea5ce161f5318de0cf01994e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 32/47] fix: the final report lists performed tests only

---
 src/fut/unittest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 9f03add..8e70807 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -223,7 +223,7 @@ void UnitTest::report()
    if(p->verbosity > SILENT) {
       if (p->status != 0) {
          bool first = true;
-         for(auto tcase: p->tests ) {
+         for(auto tcase: p->testsToPerofm ) {
             if (!hasPassed(tcase))
             {
                if(first) {
-- 
2.43.0


From 40ce2a2de5a647803251542a7b30bd0b2483989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 33/47] fix: a non-numeric verbosity level is an invalid option

---
 src/fut/unittest.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 8e70807..4521dfd 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -350,8 +350,7 @@ int UnitTest::parseParams(int argc, char* argv[])
       else if(opt == "-v" && ++i < argc) {
          std::istringstream is(argv[i]);
          int level;
-         is >> level;
-         if(level >= SILENT && level <= REPORT_STDOUT) {
+         if(is >> level && level >= SILENT && level <= REPORT_STDOUT) {
             setVerbosity(static_cast<t_verbosity>(level));
             continue;
          }
-- 
2.43.0


From 452bb3801a00ecd9f48108c2446f43c840a02a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 34/47] fix: EXPECT_FLOAT_EQ and EXPECT_FLOAT_NE accept
 expressions

---
 src/include/falcon/fut/fut.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/include/falcon/fut/fut.h b/src/include/falcon/fut/fut.h
index 2cb11ef..9eb9675 100644
--- a/src/include/falcon/fut/fut.h
+++ b/src/include/falcon/fut/fut.h
@@ -86,11 +86,11 @@
 
 
 #define EXPECT_FLOAT_EQ( _EXPECTED_, _ACTUAL_) \
-            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>(_EXPECTED_*10000.0),\
-               ==,static_cast<::falcon::int64>(_ACTUAL_*10000.0))
+            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>((_EXPECTED_)*10000.0),\
+               ==,static_cast<::falcon::int64>((_ACTUAL_)*10000.0))
 #define EXPECT_FLOAT_NE( _EXPECTED_, _ACTUAL_) \
-            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>(_EXPECTED_*10000.0),\
-               !=,static_cast<::falcon::int64>(_ACTUAL_*10000.0))
+            FALCON_TEST_CHECK_LOGIC(static_cast<::falcon::int64>((_EXPECTED_)*10000.0),\
+               !=,static_cast<::falcon::int64>((_ACTUAL_)*10000.0))
 
 #define FAIL(_MESSAGE_) \
    this->checkFail( __FILE__, __LINE__, _MESSAGE_, "" );
-- 
2.43.0


From d64b74e8a64cd2c35e692b0731912671a575e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:51 +0000
Subject: [PATCH 35/47] fix: the XML report escapes the text it includes

---
 src/fut/unittest.cpp | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 4521dfd..3f780da 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -409,8 +409,34 @@ void UnitTest::usage() {
 }
 
 
+static std::string xmlEscape(const std::string& text)
+{
+   std::string result;
+   for(char chr: text) {
+      switch(chr) {
+      case '&': result += "&amp;"; break;
+      case '<': result += "&lt;"; break;
+      case '>': result += "&gt;"; break;
+      case '"': result += "&quot;"; break;
+      default:
+         // other control characters are not valid in XML
+         if(static_cast<unsigned char>(chr) >= 0x20 || chr == '\n' || chr == '\t' || chr == '\r') {
+            result += chr;
+         }
+         else {
+            result += '?';
+         }
+      }
+   }
+   return result;
+}
+
+
 void UnitTest::saveToXML() const
 {
+   const std::string unitTestId = xmlEscape(p->unitTestId);
+   const std::string unitTestName = xmlEscape(p->unitTestName);
+
    std::ofstream fout(p->xmlReport);
    if(! fout) {
       std::cerr << "Cannot save XML report to " << p->xmlReport;
@@ -419,29 +445,30 @@ void UnitTest::saveToXML() const
 
    fout << "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
 
-   fout << "<testsuites id=\""<< p->unitTestId << "\" name=\"" << p->unitTestName
+   fout << "<testsuites id=\""<< unitTestId << "\" name=\"" << unitTestName
             << "\" tests=\"" << p->testsToPerofm.size() << "\" "
             << "failures=\"" << p->failedCount << "\" "
             << "time=\""<< p->lapse.elapsed() / 1000.0 << "\">\n";
    for(auto& icat: p->componentToPerform) {
       auto& component = icat.second;
+      const std::string componentName = xmlEscape(component.name);
 
-      fout << "<testsuite id=\"" << p->unitTestId << "." << component.name << "\" "
-           << "name=\"" << component.name << "\" "
+      fout << "<testsuite id=\"" << unitTestId << "." << componentName << "\" "
+           << "name=\"" << componentName << "\" "
            << "tests=\"" << component.tests.size() << "\" "
            << "failures=\"" << component.failures << "\" "
            << "time=\"" << component.lapse.elapsed() / 1000.0 << "\">\n";
 
       for(auto tcasep: component.tests) {
-         fout << "<testcase id=\"" << p->unitTestId << "." << component.name << "." << tcasep->caseName() << "\" "
-              << "name=\"" << tcasep->caseName() << "\" "
+         fout << "<testcase id=\"" << unitTestId << "." << componentName << "." << xmlEscape(tcasep->caseName()) << "\" "
+              << "name=\"" << xmlEscape(tcasep->caseName()) << "\" "
               << "time=\"" << tcasep->elapsedTime() / 1000.0 << "\">\n";
 
          if(!hasPassed(tcasep)) {
-            fout << "<failure message=\"" << tcasep->failDesc() << "\" "
+            fout << "<failure message=\"" << xmlEscape(tcasep->failDesc()) << "\" "
                  << "type=\"" << tcasep->statusDesc() << "\">\n";
-            fout << tcasep->failDesc() << "\n"
-                 << "File: " << tcasep->failFile() << "\n"
+            fout << xmlEscape(tcasep->failDesc()) << "\n"
+                 << "File: " << xmlEscape(tcasep->failFile()) << "\n"
                  << "Line: " << tcasep->failLine() << "\n";
             fout << "</failure>\n";
          }
-- 
2.43.0


From 6bacd103c67274f5d2ededb627ccdb3496357d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 36/47] fix: the constant synchronised iterators of PagedStack
 can read the element

---
 src/include/falcon/engine/pagedstack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index cb54416..b14d14b 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -312,7 +312,7 @@ private:
    class sync_iterator_base {
    public:
 
-      void get(_TT& value) {
+      void get(_T& value) {
          PagedStack::lock_guard guard(m_owner);
          synchronize();
          value = *m_iData;
-- 
2.43.0


From eb0157a308f1f470bea591d53804304f6729207c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 37/47] fix: copying a PagedStack reads all of it under its
 lock

---
 src/include/falcon/engine/pagedstack.h | 44 ++++++++++++++------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index b14d14b..ce7b36b 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -460,26 +460,8 @@ public:
    }
 
    PagedStack(const PagedStack& other):
-            m_pageSize(other.m_pageSize),
-            m_allocSize(other.m_allocSize),
-            m_base(page_allocator_type(other.m_dataAllocator)),
-            m_dataAllocator(other.m_dataAllocator)
-   {
-      growBase();
-      m_curBase = m_base.begin();
-
-      std::lock_guard<_Mutex> guard(other.m_mutex);
-      typename base_type::const_iterator iter = other.m_base.begin();
-      while(true) {
-         for(const _T& value: *iter) {
-            internal_push(value);
-         }
-         if(iter == other.m_curBase) {
-            break;
-         }
-         ++iter;
-      }
-   }
+            PagedStack(other, std::lock_guard<_Mutex>(other.m_mutex))
+   {}
 
    PagedStack& operator=(const PagedStack& other) {
       if(this != &other) {
@@ -651,6 +633,28 @@ public:
 
 private:
 
+   // Copies a stack that the caller has locked.
+   PagedStack(const PagedStack& other, const std::lock_guard<_Mutex>&):
+            m_pageSize(other.m_pageSize),
+            m_allocSize(other.m_allocSize),
+            m_base(page_allocator_type(other.m_dataAllocator)),
+            m_dataAllocator(other.m_dataAllocator)
+   {
+      growBase();
+      m_curBase = m_base.begin();
+
+      typename base_type::const_iterator iter = other.m_base.begin();
+      while(true) {
+         for(const _T& value: *iter) {
+            internal_push(value);
+         }
+         if(iter == other.m_curBase) {
+            break;
+         }
+         ++iter;
+      }
+   }
+
    reverse_iterator internal_from_top(size_t depth) noexcept {
       typename base_type::iterator iBase = m_curBase;
       while(depth > iBase->size()) {
-- 
2.43.0


From 982d41fe18650b86de0e25ca9b5581c26a41d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:55 +0000
Subject: [PATCH 38/47] fix: a page enters a PagedStack only with its space
 reserved

---
 src/include/falcon/engine/pagedstack.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/falcon/engine/pagedstack.h b/src/include/falcon/engine/pagedstack.h
index ce7b36b..4908301 100644
--- a/src/include/falcon/engine/pagedstack.h
+++ b/src/include/falcon/engine/pagedstack.h
@@ -68,8 +68,9 @@ private:
    void growBase() {
       size_t count = m_allocSize;
       while(count) {
-         m_base.emplace_back(m_dataAllocator);
-         m_base.back().reserve(m_pageSize);
+         page_type page(m_dataAllocator);
+         page.reserve(m_pageSize);
+         m_base.push_back(std::move(page));
          --count;
       }
    }
-- 
2.43.0


From ce963a54c6eea1e9f3cf8e42b987bab3ebe03717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:08 +0000
Subject: [PATCH 39/47] fix: a test case that runs again does not keep the
 description of an earlier failure

---
 src/fut/testcase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index 11be2c3..b18d69e 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -187,6 +187,9 @@ void TestCase::beginTest(bool capture)
    p->errCapture.str("");
    p->outCaptureStr.clear();
    p->errCaptureStr.clear();
+   p->failDesc.clear();
+   p->failFile.clear();
+   p->failLine = 0;
 
    // saving the standard buffers
    if (capture) {
-- 
2.43.0


From 6fec01faec7386b6f61597ddf280e03deda935b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:22 +0000
Subject: [PATCH 40/47] fix: waitTime() waits for the whole time requested

usleep() takes an unsigned int of microseconds, so a wait of more than
about 71 minutes was cut short, and it may refuse a second or more and
is interrupted by signals.
---
 src/fut/marktime-unix.c++ | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fut/marktime-unix.c++ b/src/fut/marktime-unix.c++
index efac12f..846e8b7 100644
--- a/src/fut/marktime-unix.c++
+++ b/src/fut/marktime-unix.c++
@@ -14,9 +14,10 @@
 ******************************************************************************/
 
 #include <falcon/fut/marktime.h>
-#include <unistd.h>
 #include <sys/time.h>
+#include <chrono>
 #include <stdexcept>
+#include <thread>
 
 namespace falcon {
 namespace testing {
@@ -32,7 +33,7 @@ void markTime(int64& currentMillisecs)
 }
 
 void waitTime(int64 mseconds) {
-	usleep(mseconds * 1000);
+	std::this_thread::sleep_for(std::chrono::milliseconds(mseconds));
 }
 
 }
-- 
2.43.0


From 6cb1554e145ae7035a46af23fb72540faf607ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:10 +0000
Subject: [PATCH 41/47] fix: UnitTest::elapsedTime() is defined

---
 src/fut/unittest.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 3f780da..d8f58bd 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -496,6 +496,12 @@ void UnitTest::detectTestName(const char* exeName)
 }
 
 
+int64 UnitTest::elapsedTime() const
+{
+   return p->lapse.elapsed();
+}
+
+
 int UnitTest::main(int argc, char* argv[])
 {
    int status = 0;
-- 
2.43.0


From 4fd9352e87f982f8febd9ea5e4e76ebab562182c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:10 +0000
Subject: [PATCH 42/47] fix: LOG_BLOCK() accepts an expression as level

With a conditional expression the level bound to the comparison, so the
loop went on for ever, and completed a block that was already sent.
---
 src/include/falcon/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index abeaf44..c94cb7f 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -425,7 +425,7 @@ inline const Logger::AutoEnd& operator<<(const Logger::AutoEnd&& aes, Logger::ca
 
 #define LOG_BLOCK(lvl) \
 	for( ::falcon::Logger::BlockEnd __ender(LOGGER, __FILE__, __LINE__, lvl); \
-		FALCON_MIN_LOG_LEVEL >= lvl && LOGGER.level() >= lvl && __ender; \
+		FALCON_MIN_LOG_LEVEL >= (lvl) && LOGGER.level() >= (lvl) && __ender; \
 		__ender.complete() )
 
 #define LOG_BLOCK_CRIT LOG_BLOCK(::falcon::LLCRIT)
-- 
2.43.0


From c390e6f6763afe67aa15340b71cf9ec469025613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:19 +0000
Subject: [PATCH 43/47] fix: the test cases of a component did not run in the
 order of their names, as documented

---
 src/fut/unittest.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index d8f58bd..1db4a3b 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -122,7 +122,12 @@ void UnitTest::runAllTests()
       else {
          component = &catIter->second;
       }
-      component->tests.push_back(tcase);
+      // the tests of a component are performed in the order of their names
+      auto& tests = component->tests;
+      tests.insert(std::upper_bound(tests.begin(), tests.end(), tcase,
+            [](const TestCase* first, const TestCase* second) {
+               return std::string(first->caseName()) < second->caseName(); }),
+         tcase);
    }
 
    p->lapse.markBegin();
-- 
2.43.0


From 7f8795f4637101e4e91b7f3f2da4098f1c849d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:09 +0000
Subject: [PATCH 44/47] fix: a unit test performed again ran its test cases
 once more for each earlier run, and none added meanwhile

---
 src/fut/unittest.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 1db4a3b..83f702c 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -101,6 +101,7 @@ void UnitTest::init()
 {
    p->status = 0;
    p->failedCount = 0;
+   p->componentToPerform.clear();
    for(auto testIter: p->tests ) {
       testIter->init();
    }
@@ -287,7 +288,8 @@ int UnitTest::performUnitTests()
    init();
    // fill the test to perform with all the tests, if none was explicitly given.
    auto& testsToPerform = p->testsToPerofm;
-   if(testsToPerform.empty()) {
+   const bool performAll = testsToPerform.empty();
+   if(performAll) {
       testsToPerform = p->tests;
    }
 
@@ -296,6 +298,10 @@ int UnitTest::performUnitTests()
    if(!p->xmlReport.empty()) {
       saveToXML();
    }
+   // all the tests are not a selection: the next run performs those added meanwhile, too.
+   if(performAll) {
+      testsToPerform.clear();
+   }
    return p->status;
 }
 
-- 
2.43.0


From 96767b5ac226ad673d0660d294093f191330029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:25 +0000
Subject: [PATCH 45/47] fix: log statements, unit tests and test cases could be
 copied, releasing or sending what they own twice

---
 src/include/falcon/fut/testcase.h | 2 ++
 src/include/falcon/fut/unittest.h | 2 ++
 src/include/falcon/logger.h       | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/src/include/falcon/fut/testcase.h b/src/include/falcon/fut/testcase.h
index 6ba26b6..be9f242 100644
--- a/src/include/falcon/fut/testcase.h
+++ b/src/include/falcon/fut/testcase.h
@@ -32,6 +32,8 @@ class UnitTest;
 class FALCON_API_ TestCase
 {
 public:
+   TestCase(const TestCase&) = delete;
+   TestCase& operator=(const TestCase&) = delete;
    virtual ~TestCase();
 
    typedef enum {
diff --git a/src/include/falcon/fut/unittest.h b/src/include/falcon/fut/unittest.h
index 6e382a2..797b3c7 100644
--- a/src/include/falcon/fut/unittest.h
+++ b/src/include/falcon/fut/unittest.h
@@ -43,6 +43,8 @@ public:
    t_verbosity;
 
    UnitTest();
+   UnitTest(const UnitTest&) = delete;
+   UnitTest& operator=(const UnitTest&) = delete;
    ~UnitTest();
    /** Return (and eventually create) the unit test singleton */
    static UnitTest* singleton();
diff --git a/src/include/falcon/logger.h b/src/include/falcon/logger.h
index c94cb7f..f1feb1a 100644
--- a/src/include/falcon/logger.h
+++ b/src/include/falcon/logger.h
@@ -320,6 +320,8 @@ public:
 	    }
 
 	    ~AutoEnd () {if(m_obj){m_obj->commit();}}
+	    AutoEnd(const AutoEnd&) = delete;
+	    AutoEnd& operator=(const AutoEnd&) = delete;
 	    bool doLog() const noexcept {return m_obj != nullptr;}
 	    Logger& obj () const noexcept {return *m_obj;}
 	};
@@ -342,6 +344,7 @@ public:
 	    }
 	    ~BlockEnd () {if(m_obj){m_obj->m_tempCategory.clear(); m_obj->readyStream();}}
 	    BlockEnd(const BlockEnd&) = delete;
+	    BlockEnd& operator=(const BlockEnd&) = delete;
 	    void complete() {Logger* obj = m_obj; m_obj = nullptr; obj->commit();}
 	    operator bool() const noexcept {return m_obj != nullptr;}
 	};
-- 
2.43.0


From 80dd2fe51837827382ed4d2fbf401f3c50ef967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:19 +0000
Subject: [PATCH 46/47] fix: what a test case does to the format and the state
 of the standard streams affects the report and the next test cases

Only the buffers of the standard streams were restored after a test case.
A case that ends with std::hex set had its line number reported in hex, and
so had all that follows; a case that left an error state on std::cout (not
captured) silenced the whole report. Save and restore format and state.
---
 src/fut/testcase.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/fut/testcase.cpp b/src/fut/testcase.cpp
index b18d69e..7a9ea78 100644
--- a/src/fut/testcase.cpp
+++ b/src/fut/testcase.cpp
@@ -41,6 +41,10 @@ public:
    std::streambuf *outbuf{nullptr};
    std::streambuf *errbuf{nullptr};
 
+   // format of the standard streams before the test
+   std::ios outFormat{nullptr};
+   std::ios errFormat{nullptr};
+
    std::string failDesc;
    int failLine{0};
    std::string failFile;
@@ -191,6 +195,9 @@ void TestCase::beginTest(bool capture)
    p->failFile.clear();
    p->failLine = 0;
 
+   p->outFormat.copyfmt(std::cout);
+   p->errFormat.copyfmt(std::cerr);
+
    // saving the standard buffers
    if (capture) {
       p->outbuf = std::cout.rdbuf();
@@ -212,6 +219,12 @@ void TestCase::endTest(bool capture)
       p->outCaptureStr = p->outCapture.str();
       p->errCaptureStr = p->errCapture.str();
    }
+
+   // what the test did to the streams doesn't affect the report and the next tests
+   std::cout.clear();
+   std::cout.copyfmt(p->outFormat);
+   std::cerr.clear();
+   std::cerr.copyfmt(p->errFormat);
 }
 
 void TestCase::run()
-- 
2.43.0


From 80ebc06540cfbf0701263b3a38ef08169c79b604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:05 +0000
Subject: [PATCH 47/47] fix: texts that are no UTF-8 made the XML report
 ill-formed, and line ends and tabs of descriptions were lost

---
 src/fut/unittest.cpp | 53 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/fut/unittest.cpp b/src/fut/unittest.cpp
index 83f702c..fa48a33 100644
--- a/src/fut/unittest.cpp
+++ b/src/fut/unittest.cpp
@@ -420,24 +420,57 @@ void UnitTest::usage() {
 }
 
 
+/* Number of bytes of the character at pos, or zero if it's not a UTF-8 character known to XML. */
+static std::string::size_type xmlCharSize(const std::string& text, std::string::size_type pos)
+{
+   const unsigned int first = static_cast<unsigned char>(text[pos]);
+   if(first < 0x80) {
+      return first >= 0x20 || first == '\n' || first == '\t' || first == '\r' ? 1 : 0;
+   }
+
+   const std::string::size_type size = first >= 0xF0 ? 4 : first >= 0xE0 ? 3 : 2;
+   if(first < 0xC2 || first > 0xF4 || size > text.size() - pos) {
+      return 0;
+   }
+
+   unsigned int code = first & (0xFF >> (size + 1));
+   for(std::string::size_type i = 1; i < size; ++i) {
+      const unsigned int next = static_cast<unsigned char>(text[pos + i]);
+      if((next & 0xC0) != 0x80) {
+         return 0;
+      }
+      code = (code << 6) | (next & 0x3F);
+   }
+
+   const bool isLong = (size == 3 && code < 0x800) || (size == 4 && code < 0x10000);
+   const bool isSurrogate = code >= 0xD800 && code <= 0xDFFF;
+   return isLong || isSurrogate || code == 0xFFFE || code == 0xFFFF || code > 0x10FFFF ? 0 : size;
+}
+
 static std::string xmlEscape(const std::string& text)
 {
    std::string result;
-   for(char chr: text) {
-      switch(chr) {
+   for(std::string::size_type pos = 0; pos < text.size();) {
+      const std::string::size_type size = xmlCharSize(text, pos);
+      if(size == 0) {
+         // not valid in XML
+         result += '?';
+         ++pos;
+         continue;
+      }
+
+      switch(text[pos]) {
       case '&': result += "&amp;"; break;
       case '<': result += "&lt;"; break;
       case '>': result += "&gt;"; break;
       case '"': result += "&quot;"; break;
-      default:
-         // other control characters are not valid in XML
-         if(static_cast<unsigned char>(chr) >= 0x20 || chr == '\n' || chr == '\t' || chr == '\r') {
-            result += chr;
-         }
-         else {
-            result += '?';
-         }
+      // the white space that the readers of XML would replace
+      case '\n': result += "&#10;"; break;
+      case '\t': result += "&#9;"; break;
+      case '\r': result += "&#13;"; break;
+      default: result.append(text, pos, size);
       }
+      pos += size;
    }
    return result;
 }
-- 
2.43.0

