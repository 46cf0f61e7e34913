From 6a748cc551b485b5e35ca369ae929261a1cb52d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 01/33] fix: VirtualRefcountedThreadsafe never destroyed its
 object

fetch_sub returns the previous value, so the last Release() sees 1, not 0.
---
 amtl/am-refcounting-threadsafe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-refcounting-threadsafe.h b/amtl/am-refcounting-threadsafe.h
index adb2e5d..7641dbb 100644
--- a/amtl/am-refcounting-threadsafe.h
+++ b/amtl/am-refcounting-threadsafe.h
@@ -95,7 +95,7 @@ class VirtualRefcountedThreadsafe : public IRefcounted
         refcount_ += 1;
     }
     void Release() override {
-        if (refcount_.fetch_sub(1) == 0) {
+        if (refcount_.fetch_sub(1) == 1) {
             assert(refcount_.load() == 0);
 #if !defined(NDEBUG)
             destroying_ = true;
-- 
2.43.0


From 8de2550c60a0472ffb9225aa2a4951fc94193d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 02/33] fix: RefPtr assignment released the old value before
 taking the new one

Self-assignment, assigning a pointer kept alive only by the old value
(p = p->next) and destructors that get back to the RefPtr used freed memory.
---
 amtl/am-refcounting.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/amtl/am-refcounting.h b/amtl/am-refcounting.h
index b44a3d2..9fb9b09 100644
--- a/amtl/am-refcounting.h
+++ b/amtl/am-refcounting.h
@@ -230,7 +230,7 @@ class RefPtr
      : thing_(other.take())
     {}
     ~RefPtr() {
-        Release();
+        Release(thing_);
     }
 
     T* operator ->() const {
@@ -264,30 +264,36 @@ class RefPtr
 
     template <typename S>
     RefPtr& operator =(S* thing) {
-        Release();
+        T* old = thing_;
         thing_ = thing;
         AddRef();
+        Release(old);
         return *this;
     }
 
     template <typename S>
     RefPtr& operator =(const AlreadyRefed<S>& other) {
-        Release();
+        T* old = thing_;
         thing_ = other.take();
+        Release(old);
         return *this;
     }
 
     RefPtr& operator =(const RefPtr& other) {
-        Release();
+        T* old = thing_;
         thing_ = other.thing_;
         AddRef();
+        Release(old);
         return *this;
     }
 
     RefPtr& operator =(RefPtr&& other) {
-        Release();
+        if (this == &other)
+            return *this;
+        T* old = thing_;
         thing_ = other.thing_;
         other.thing_ = nullptr;
+        Release(old);
         return *this;
     }
 
@@ -309,9 +315,12 @@ class RefPtr
         if (thing_)
             thing_->AddRef();
     }
-    void Release() {
-        if (thing_)
-            thing_->Release();
+    // Assignment must not drop the old value until the new one is held: the old
+    // value may own the new one (p = p->next), and its destructor may get back
+    // to this very pointer.
+    static void Release(T* thing) {
+        if (thing)
+            thing->Release();
     }
 
   protected:
-- 
2.43.0


From de65d19b3c6cc5297c573ef903fcb1f7442bf394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 03/33] fix: AtomicRef acquired its lock with release ordering

Taking the lock must order what follows after the previous holder's unlock.
---
 amtl/am-refcounting-threadsafe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-refcounting-threadsafe.h b/amtl/am-refcounting-threadsafe.h
index 7641dbb..475c8fb 100644
--- a/amtl/am-refcounting-threadsafe.h
+++ b/amtl/am-refcounting-threadsafe.h
@@ -181,7 +181,7 @@ class AtomicRef
         // indefinitely waiting for it to become unlocked. So we must have a
         // strong guarantee on failure.
         void* oldval = untagged(thing_);
-        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_release,
+        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_acquire,
                                                std::memory_order_relaxed))
         {
             std::this_thread::yield();
-- 
2.43.0


From 315a1072a2e619fbf1558ede6fb02b29bbfccd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 04/33] fix: Mutex::try_lock did not record the owner

AssertCurrentThreadOwns() failed for a thread that got the lock with
try_lock(), directly or through std::unique_lock.
---
 amtl/am-mutex.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amtl/am-mutex.h b/amtl/am-mutex.h
index 38d5940..066cfe9 100644
--- a/amtl/am-mutex.h
+++ b/amtl/am-mutex.h
@@ -48,6 +48,13 @@ class Mutex : public std::mutex
        owner_ = std::this_thread::get_id();
     };
 
+    bool try_lock() {
+       if (!std::mutex::try_lock())
+           return false;
+       owner_ = std::this_thread::get_id();
+       return true;
+    }
+
     void unlock() {
        owner_ = {};
        std::mutex::unlock();
-- 
2.43.0


From 92f7821ad4658d309adead2d9a6567b8df6564be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 05/33] fix: ThreadLocal used its slot before, or without,
 allocating it

A thread that lost the race to allocate used key_ before it was created, and
after a failed allocation every later access (and the destructor) used
whatever slot an uninitialised key_ names, with allocate() returning true.
---
 amtl/am-threadlocal.h | 61 +++++++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/amtl/am-threadlocal.h b/amtl/am-threadlocal.h
index 9634d55..36af22a 100644
--- a/amtl/am-threadlocal.h
+++ b/amtl/am-threadlocal.h
@@ -36,6 +36,9 @@
 #include <stdio.h>
 #include <stdlib.h>
 
+#include <atomic>
+#include <thread>
+
 #ifdef _WIN32
 # include <windows.h>
 #else
@@ -92,29 +95,54 @@ class ThreadLocal
 
 #if !defined(KE_SINGLE_THREADED)
   private:
-    volatile int allocated_;
+    // |key_| must not be used before |allocated_| says that it is there.
+    enum State { kNone, kAllocating, kAllocated };
+    std::atomic<int> allocated_;
+
+    bool ready() const {
+        return allocated_.load(std::memory_order_acquire) == kAllocated;
+    }
 
   public:
     ThreadLocal() {
-        allocated_ = 0;
+        allocated_ = kNone;
     }
 
     T get() const {
-        if (!allocated_)
+        if (!ready())
             return T();
         return internalGet();
     }
     void set(const T& t) {
-        if (!allocated_ && !allocate()) {
+        if (!ready() && !allocate()) {
             fprintf(stderr, "could not allocate thread-local storage\n");
             abort();
         }
-        internalSet(t);
+        if (!internalSet(t)) {
+            fprintf(stderr, "could not set thread-local storage\n");
+            abort();
+        }
+    }
+
+    // Returns false if there is no slot to be had; it may be called again.
+    bool allocate() {
+        for (;;) {
+            int state = kNone;
+            if (allocated_.compare_exchange_strong(state, kAllocating, std::memory_order_acquire))
+                break;
+            if (state == kAllocated)
+                return true;
+            // Another thread is at it.
+            std::this_thread::yield();
+        }
+        bool ok = internalAllocate();
+        allocated_.store(ok ? kAllocated : kNone, std::memory_order_release);
+        return ok;
     }
 
 #    if defined(_MSC_VER)
     ~ThreadLocal() {
-        if (allocated_)
+        if (ready())
             TlsFree(key_);
     }
 
@@ -122,12 +150,10 @@ class ThreadLocal
     T internalGet() const {
         return (T)reinterpret_cast<uintptr_t>(TlsGetValue(key_));
     }
-    void internalSet(const T& t) {
-        TlsSetValue(key_, cast_to_pointer<T>::cast(t));
+    bool internalSet(const T& t) {
+        return !!TlsSetValue(key_, cast_to_pointer<T>::cast(t));
     }
-    bool allocate() {
-        if (InterlockedCompareExchange((volatile LONG*)&allocated_, 1, 0) == 1)
-            return true;
+    bool internalAllocate() {
         key_ = TlsAlloc();
         return key_ != TLS_OUT_OF_INDEXES;
     }
@@ -137,22 +163,19 @@ class ThreadLocal
 #    else
   public:
     ~ThreadLocal() {
-        if (allocated_)
+        if (ready())
             pthread_key_delete(key_);
     }
 
-    bool allocate() {
-        if (!__sync_bool_compare_and_swap(&allocated_, 0, 1))
-            return true;
+  private:
+    bool internalAllocate() {
         return pthread_key_create(&key_, nullptr) == 0;
     }
-
-  private:
     T internalGet() const {
         return (T) reinterpret_cast<uintptr_t>(pthread_getspecific(key_));
     }
-    void internalSet(const T& t) {
-        pthread_setspecific(key_, reinterpret_cast<void*>(t));
+    bool internalSet(const T& t) {
+        return pthread_setspecific(key_, reinterpret_cast<void*>(t)) == 0;
     }
 
     pthread_key_t key_;
-- 
2.43.0


From 173e06c7a23b0d92b759c701bb3d86e9427f6b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 06/33] fix: HashTable with a failed or oversized table

After a failed init() the destructor walked a table that was never allocated,
and growing past the maximum capacity was not reported as an overflow.
---
 amtl/am-hashtable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index 51a384b..3f3cb26 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -245,7 +245,7 @@ class HashTable : private AllocPolicy
     }
 
     bool grow() {
-        if (capacity_ >= kMaxCapacity) {
+        if (capacity_ > kMaxCapacity / 2) {
             this->reportAllocationOverflow();
             return false;
         }
@@ -417,12 +417,12 @@ class HashTable : private AllocPolicy
         minCapacity_ = uint32_t(capacity);
 
         assert(IsPowerOfTwo(capacity));
-        capacity_ = uint32_t(capacity);
 
-        table_ = createTable(capacity_);
+        table_ = createTable(uint32_t(capacity));
         if (!table_)
             return false;
 
+        capacity_ = uint32_t(capacity);
         return true;
     }
 
-- 
2.43.0


From 4bcca0aa9a54678c55dd0cdd6f54649a3bd84dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:47 +0000
Subject: [PATCH 07/33] fix: HashMap and HashSet returned an allocation policy
 nothing uses

---
 amtl/am-hashmap.h | 4 ++--
 amtl/am-hashset.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/amtl/am-hashmap.h b/amtl/am-hashmap.h
index 2f705bb..1d35201 100644
--- a/amtl/am-hashmap.h
+++ b/amtl/am-hashmap.h
@@ -163,10 +163,10 @@ class HashMap : private AllocPolicy
     }
 
     AllocPolicy& allocPolicy() {
-        return *this;
+        return table_.allocPolicy();
     }
     const AllocPolicy& allocPolicy() const {
-        return *this;
+        return table_.allocPolicy();
     }
 
   private:
diff --git a/amtl/am-hashset.h b/amtl/am-hashset.h
index cbc90fc..ea046dd 100644
--- a/amtl/am-hashset.h
+++ b/amtl/am-hashset.h
@@ -146,10 +146,10 @@ class HashSet : private AllocPolicy
     }
 
     AllocPolicy& allocPolicy() {
-        return *this;
+        return table_.allocPolicy();
     }
     const AllocPolicy& allocPolicy() const {
-        return *this;
+        return table_.allocPolicy();
     }
 
   private:
-- 
2.43.0


From dc9b269325b19a10d44cd2c4ec57903e49305d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 08/33] fix: FixedArray with failed allocations, assignment and
 its policy

A failed allocation was destructed as if it had elements, and could not be
retried with the same size; huge sizes wrapped around; self-assignment used
destructed elements; move-assignment leaked the old ones; and the policy given
to the constructor was dropped, so memory went to an unrelated instance.
---
 amtl/am-fixedarray.h | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index 85df0b5..28f8703 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -30,7 +30,9 @@
 #define _include_amtl_fixedarray_h_
 
 #include <assert.h>
+#include <stdint.h>
 
+#include <utility>
 #include <vector>
 
 #include <amtl/am-allocator-policies.h>
@@ -43,20 +45,20 @@ class FixedArray : private AllocPolicy
   public:
     FixedArray() : size_(0), data_(nullptr)
     {}
-    FixedArray(size_t size, AllocPolicy = AllocPolicy()) {
+    FixedArray(size_t size, AllocPolicy ap = AllocPolicy()) : AllocPolicy(ap) {
         if (!allocate(size))
             return;
         for (size_t i = 0; i < size_; i++)
             new (&data_[i]) T();
     }
-    FixedArray(const FixedArray& other) {
+    FixedArray(const FixedArray& other) : AllocPolicy(other) {
         if (!allocate(other.size()))
             return;
         for (size_t i = 0; i < size_; i++)
             new (&data_[i]) T(other[i]);
     }
 
-    FixedArray(FixedArray&& other) {
+    FixedArray(FixedArray&& other) : AllocPolicy(std::move(other)) {
         size_ = other.size_;
         data_ = other.data_;
         other.size_ = 0;
@@ -124,8 +126,10 @@ class FixedArray : private AllocPolicy
     T* buffer() const { return data_; }
 
     FixedArray& operator =(const FixedArray& other) {
+        if (this == &other)
+            return *this;
         destruct();
-        if (size_ != other.size()) {
+        if (!data_ || size_ != other.size()) {
             deallocate();
             if (!allocate(other.size()))
                 return *this;
@@ -135,6 +139,12 @@ class FixedArray : private AllocPolicy
         return *this;
     }
     FixedArray& operator =(FixedArray&& other) {
+        if (this == &other)
+            return *this;
+        destruct();
+        deallocate();
+        // The memory goes back to the policy it came from.
+        static_cast<AllocPolicy&>(*this) = std::move(static_cast<AllocPolicy&>(other));
         size_ = other.size_;
         data_ = other.data_;
         other.size_ = 0;
@@ -158,10 +168,18 @@ class FixedArray : private AllocPolicy
   private:
     bool allocate(size_t size) {
         size_ = size;
+        data_ = nullptr;
+        if (size_ > SIZE_MAX / sizeof(T)) {
+            this->reportAllocationOverflow();
+            return false;
+        }
         data_ = (T*)this->am_malloc(sizeof(T) * size_);
         return !!data_;
     }
     void destruct() {
+        // Nothing was constructed if the allocation failed.
+        if (!data_)
+            return;
         for (size_t i = 0; i < size_; i++)
             data_[i].~T();
     }
-- 
2.43.0


From e88f748f6e29d3ca906f20656191d028ca61abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 09/33] fix: SafeVsprintf returned garbage when vsnprintf
 failed

The error return was taken for a length, so the whole buffer, whatever was in
it, was reported as formatted text.
---
 amtl/am-string.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index d5d2178..699a9e4 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -120,8 +120,10 @@ SprintfArgsImpl(size_t* out_len, const char* fmt, va_list ap)
     }
 
     int new_len = KE_VSNPRINTF(buffer.get(), len + 1, fmt, argv);
-    if (new_len < 0)
+    if (new_len < 0) {
+        va_end(argv);
         return std::unique_ptr<char[]>();
+    }
     assert(len == new_len);
 
     *out_len = new_len;
@@ -155,8 +157,17 @@ SafeVsprintf(char* buffer, size_t maxlength, const char* fmt, va_list ap)
     if (!maxlength)
         return 0;
 
-    size_t len = KE_VSNPRINTF(buffer, maxlength, fmt, ap);
+    int result = KE_VSNPRINTF(buffer, maxlength, fmt, ap);
+#if !defined(_MSC_VER)
+    // The output could not be formatted (_vsnprintf says the same if it was
+    // merely truncated), and |buffer| may hold anything.
+    if (result < 0) {
+        buffer[0] = '\0';
+        return 0;
+    }
+#endif
 
+    size_t len = result;
     if (len >= maxlength) {
         buffer[maxlength - 1] = '\0';
         return maxlength - 1;
-- 
2.43.0


From 2eccf3b897cd25e54968b832353107269bb290f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:56 +0000
Subject: [PATCH 10/33] fix: stop SafeStrcpyN at the end of the source string

It kept copying, past the terminator, whatever followed the source until
n characters were copied, and returned a length that counted those.
---
 amtl/am-string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index 699a9e4..d3ea08d 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -246,7 +246,7 @@ SafeStrcpyN(char* dest, size_t maxlength, const char* src, size_t n)
 
     char* iter = dest;
     size_t count = maxlength;
-    while (--count && n--)
+    while (--count && n-- && *src)
         *iter++ = *src++;
     *iter = '\0';
 
-- 
2.43.0


From 57ecc98770b541e11b5df381c18557be09d360f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:56 +0000
Subject: [PATCH 11/33] fix: terminate the buffer when SafeStrcpyN copies
 nothing

With n == 0 it returned length 0 but left the buffer as it was, possibly
without any terminator.
---
 amtl/am-string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index d3ea08d..e1ec3fd 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -241,7 +241,7 @@ SafeStrcat(char* dest, size_t maxlength, const char* src)
 static inline size_t
 SafeStrcpyN(char* dest, size_t maxlength, const char* src, size_t n)
 {
-    if (!dest || !maxlength || !n)
+    if (!dest || !maxlength)
         return 0;
 
     char* iter = dest;
-- 
2.43.0


From d17b8f9044300276b3628874a80643198c055f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 12/33] fix: ke::Function kept a destroyed callable when
 assignment failed

Assignment destroys the current callable first. If copying or allocating
the new one then threw, the function still pointed to the old one (or to
storage in which nothing had been constructed), and destroyed it again
later. Assigning a function to itself copied the callable it had just
destroyed.
---
 amtl/am-function.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 6b26677..662f54b 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -121,24 +121,27 @@ class Function<ReturnType(ArgTypes...)>
     }
 
     Function& operator =(decltype(nullptr)) {
-        destroy();
-        impl_ = nullptr;
+        zap();
         return *this;
     }
     Function& operator =(const Function& other) {
-        destroy();
+        if (this == &other)
+            return *this;
+        zap();
         assign(other);
         return *this;
     }
     Function& operator =(Function&& other) {
-        destroy();
+        if (this == &other)
+            return *this;
+        zap();
         move(std::move(other));
         return *this;
     }
 
     template <typename T>
     Function& operator =(T&& other) {
-        destroy();
+        zap();
         assign(other);
         return *this;
     }
@@ -202,8 +205,7 @@ class Function<ReturnType(ArgTypes...)>
         typedef impl::FunctionHolder<CallableType, ReturnType, ArgTypes...> ImplType;
 
         if (sizeof(ImplType) <= sizeof(buffer_)) {
-            impl_ = reinterpret_cast<ImplType*>(inline_buffer());
-            new (inline_buffer()) ImplType(std::forward<T>(obj));
+            impl_ = new (inline_buffer()) ImplType(std::forward<T>(obj));
         } else {
             impl_ = new ImplType(std::forward<T>(obj));
         }
-- 
2.43.0


From fd64a5b2b4c017594614d75cb68349959534900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 13/33] fix: copying an empty, non-const ke::Function gave a
 non-empty one

Such copies and assignments selected the template for arbitrary callables,
which wrapped the function object; calling the copy then failed in the
wrapped function, and assigning it to itself used a destroyed callable.
---
 amtl/am-function.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 662f54b..65f3c7e 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -107,6 +107,9 @@ class Function<ReturnType(ArgTypes...)>
     Function(const Function& other) {
         assign(other);
     }
+    Function(Function& other) {
+        assign(other);
+    }
     Function(Function&& other) {
         move(std::forward<Function>(other));
     }
@@ -131,6 +134,9 @@ class Function<ReturnType(ArgTypes...)>
         assign(other);
         return *this;
     }
+    Function& operator =(Function& other) {
+        return *this = const_cast<const Function&>(other);
+    }
     Function& operator =(Function&& other) {
         if (this == &other)
             return *this;
@@ -187,6 +193,12 @@ class Function<ReturnType(ArgTypes...)>
             impl_ = other.impl_->clone(nullptr);
     }
 
+    // Without this, a non-const function would be wrapped like any callable, so
+    // that a copy of an empty one would not be empty.
+    void assign(Function& other) {
+        impl_ = other ? other.impl_->clone(nullptr) : nullptr;
+    }
+
     void move(Function&& other) {
         if (!other) {
             impl_ = nullptr;
-- 
2.43.0


From e0d754faba32da83e91ba931cb2c1ec6215a511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:29 +0000
Subject: [PATCH 14/33] fix: Maybe leaked or double-destroyed values when
 assigned, moved from, or when init failed

---
 amtl/am-maybe.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 159b27d..4646f39 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -62,14 +62,12 @@ class Maybe
     {}
 
     ~Maybe() {
-        if (isValid())
-            t_.address()->~T();
+        reset();
     }
 
     template <typename... ArgTypes>
     void init(ArgTypes&&... argv) {
-        if (isValid())
-            t_.address()->~T();
+        reset();
 
         new (t_.address()) T(std::forward<ArgTypes>(argv)...);
         initialized_ = true;
@@ -109,17 +107,27 @@ class Maybe
     }
 
     Maybe& operator =(const Maybe& other) {
-        initialized_ = false;
+        if (this == &other)
+            return *this;
+        reset();
         copyFrom(other);
         return *this;
     }
     Maybe& operator =(Maybe&& other) {
-        initialized_ = false;
+        if (this == &other)
+            return *this;
+        reset();
         moveFrom(std::move(other));
         return *this;
     }
 
   private:
+    void reset() {
+        if (!initialized_)
+            return;
+        initialized_ = false;
+        t_.address()->~T();
+    }
     void copyFrom(const Maybe& other) {
         if (other.initialized_) {
             init(*other.t_.address());
@@ -128,7 +136,7 @@ class Maybe
     void moveFrom(Maybe&& other) {
         if (other.initialized_) {
             init(std::move(*other.t_.address()));
-            other.initialized_ = false;
+            other.reset();
         }
     }
 
-- 
2.43.0


From 2118af5d1b42bc4a7e86dd557c462f0aef5acb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 15/33] fix: nodes removed from an InlineList still claimed to
 be in it in release builds

---
 amtl/am-inlinelist.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/amtl/am-inlinelist.h b/amtl/am-inlinelist.h
index 5226cd5..79c2280 100644
--- a/amtl/am-inlinelist.h
+++ b/amtl/am-inlinelist.h
@@ -212,10 +212,8 @@ class InlineList
         t->next_->prev_ = t->prev_;
         length_--;
 
-#if !defined(NDEBUG)
         t->next_ = nullptr;
         t->prev_ = nullptr;
-#endif
     }
 
     void append(Node* t) {
-- 
2.43.0


From ead62b3d177e037bb74ee594f4b6c5f634dd060b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:47 +0000
Subject: [PATCH 16/33] fix: an unknown option starting with --no- crashed the
 argument parser

---
 amtl/experimental/am-argparser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 43a3e32..271cbf8 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -671,7 +671,7 @@ Parser::parse_impl(const std::vector<const char*>& args)
 
             if (!option && strncmp(arg, "--no-", 5) == 0) {
                 option = find_long(&arg[5], len - 5);
-                if (option->canPrefixWithNo())
+                if (option && option->canPrefixWithNo())
                     value_ptr = "false";
                 else
                     option = nullptr;
-- 
2.43.0


From c5046ca92b3e1900d319bbf68a532c58865c95c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:47 +0000
Subject: [PATCH 17/33] fix: Parser::reset kept extra and passthrough arguments
 and the last error

---
 amtl/experimental/am-argparser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 271cbf8..4cc3f4e 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -1039,6 +1039,10 @@ Parser::reset()
         option->reset();
     if (help_option_)
         help_option_->reset();
+    error_.clear();
+    extra_args_.clear();
+    passthrough_args_.clear();
+    has_passthrough_args_ = false;
 }
 
 } // namespace args
-- 
2.43.0


From 2ed4c8520a463b078fd8c8f749aa4c23776b2d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:47 +0000
Subject: [PATCH 18/33] fix: a second -- was dropped instead of passed through

---
 amtl/experimental/am-argparser.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 4cc3f4e..2a60849 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -628,14 +628,14 @@ Parser::parse_impl(const std::vector<const char*>& args)
         const char* arg = args[i];
         IOption* option = nullptr;
 
-        if (allow_passthrough_args_ && !strcmp(arg, "--")) {
-            has_passthrough_args_ = true;
-            continue;
-        }
         if (has_passthrough_args_) {
             passthrough_args_.emplace_back(arg);
             continue;
         }
+        if (allow_passthrough_args_ && !strcmp(arg, "--")) {
+            has_passthrough_args_ = true;
+            continue;
+        }
 
         const char* value_ptr = nullptr;
         if (arg[0] == '-' || (allow_slashes_ && arg[0] == '/')) {
-- 
2.43.0


From 78f870c2e84cd296be2bcec65e7a7af7a3613a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:47 +0000
Subject: [PATCH 19/33] fix: an option whose value may be omitted was ignored
 before another argument

---
 amtl/experimental/am-argparser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 2a60849..083e86d 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -716,10 +716,10 @@ Parser::parse_impl(const std::vector<const char*>& args)
         }
 
         if (!option->consumeValue(value_ptr)) {
-            if (!option->canOmitValue())
+            // If the next argument is not its value, the option has none.
+            if (!took_next_arg || !option->canOmitValue() || !option->consumeValue(nullptr))
                 return option_invalid_value(option, value_ptr);
-            if (took_next_arg)
-                i--;
+            i--;
         }
 
         if (option->haltOnValue()) {
-- 
2.43.0


From 61e3dfc8d88a1f0e19e9d1f976e506a469cc10d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:47 +0000
Subject: [PATCH 20/33] fix: IntOption took values that do not fit into an int

---
 amtl/experimental/am-argparser.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 083e86d..5d8f7cd 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -30,7 +30,12 @@
 #define _include_amtl_am_argparser_h_
 
 #include <assert.h>
+#include <errno.h>
+#include <limits.h>
+#include <stdarg.h>
 #include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
 
 #include <algorithm>
 #include <memory>
@@ -538,9 +543,13 @@ template <>
 struct ValuePolicy<int> : public BaseValuePolicy {
     static bool consumeValue(const char* arg, int* out) {
         char* endptr = nullptr;
-        *out = strtol(arg, &endptr, 10);
+        errno = 0;
+        long value = strtol(arg, &endptr, 10);
         if (endptr == arg || *endptr != '\0')
             return false;
+        if (errno == ERANGE || value < INT_MIN || value > INT_MAX)
+            return false;
+        *out = (int)value;
         return true;
     }
 };
-- 
2.43.0


From 1cd806a2e59449b73988defee36c3c3c0b81cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:58 +0000
Subject: [PATCH 21/33] fix: FormatTime returned a truncated text when memory
 ran out

---
 amtl/am-time.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amtl/am-time.h b/amtl/am-time.h
index 35fd496..59d054f 100644
--- a/amtl/am-time.h
+++ b/amtl/am-time.h
@@ -61,6 +61,8 @@ TimespecToTimePoint(timespec ts)
 static inline std::string FormatTime(const struct tm& tm, const char* fmt)
 {
     std::ostringstream ss;
+    // Without this, the text would end where memory ran out.
+    ss.exceptions(std::ios_base::badbit);
     ss << std::put_time(&tm, fmt);
     return ss.str();
 }
-- 
2.43.0


From d2bed4faf108a58af099fa17863054aff8311f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:03 +0000
Subject: [PATCH 22/33] fix: HashTable counted an element whose construction
 threw

---
 amtl/am-hashtable.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index 3f3cb26..ffdc838 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -336,13 +336,12 @@ class HashTable : private AllocPolicy
         return Insert(e, hash);
     }
 
-    bool internalAdd(Insert& i) {
+    // Finds room for a new element, which is not in the table until commitAdd().
+    bool prepareAdd(Insert& i) {
         assert(!i.found());
 
         // If the entry is deleted, just re-use the slot.
-        if (i.entry().removed()) {
-            ndeleted_--;
-        } else {
+        if (!i.entry().removed()) {
             // Otherwise, see if we're at max capacity.
             if (nelements_ == kMaxCapacity) {
                 this->reportAllocationOverflow();
@@ -363,9 +362,15 @@ class HashTable : private AllocPolicy
                 i = insertUnique(i.hash());
         }
 
+        return true;
+    }
+
+    // The element has been constructed (its constructor did not throw).
+    void commitAdd(Insert& i) {
+        if (i.entry().removed())
+            ndeleted_--;
         nelements_++;
         i.entry().setHash(i.hash());
-        return true;
     }
 
     void removeEntry(Entry& e) {
@@ -455,15 +460,17 @@ class HashTable : private AllocPolicy
     // The Insert object is still valid after add() returns, however.
     template <typename U>
     bool add(Insert& i, U&& payload) {
-        if (!internalAdd(i))
+        if (!prepareAdd(i))
             return false;
         i.entry().construct(std::forward<U>(payload));
+        commitAdd(i);
         return true;
     }
     bool add(Insert& i) {
-        if (!internalAdd(i))
+        if (!prepareAdd(i))
             return false;
         i.entry().construct();
+        commitAdd(i);
         return true;
     }
 
-- 
2.43.0


From ee1e0f8b9300bf12d2f3a88add6fdfdf9dca34b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:36 +0000
Subject: [PATCH 23/33] fix: FixedArray leaked its block, or destroyed garbage,
 when constructing an element threw

---
 amtl/am-fixedarray.h | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index 28f8703..953eb33 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -45,17 +45,16 @@ class FixedArray : private AllocPolicy
   public:
     FixedArray() : size_(0), data_(nullptr)
     {}
-    FixedArray(size_t size, AllocPolicy ap = AllocPolicy()) : AllocPolicy(ap) {
+    FixedArray(size_t size, AllocPolicy ap = AllocPolicy()) : FixedArray(Empty(), ap) {
         if (!allocate(size))
             return;
-        for (size_t i = 0; i < size_; i++)
-            new (&data_[i]) T();
+        for (size_ = 0; size_ < size; size_++)
+            new (&data_[size_]) T();
     }
-    FixedArray(const FixedArray& other) : AllocPolicy(other) {
+    FixedArray(const FixedArray& other) : FixedArray(Empty(), other) {
         if (!allocate(other.size()))
             return;
-        for (size_t i = 0; i < size_; i++)
-            new (&data_[i]) T(other[i]);
+        copyFrom(other);
     }
 
     FixedArray(FixedArray&& other) : AllocPolicy(std::move(other)) {
@@ -66,21 +65,18 @@ class FixedArray : private AllocPolicy
     }
 
     template <typename U = std::allocator<T>>
-    explicit FixedArray(const std::vector<T, U>& other) {
+    explicit FixedArray(const std::vector<T, U>& other) : FixedArray() {
         if (!allocate(other.size()))
             return;
-
-        for (size_t i = 0; i < size_; i++)
-            new (&data_[i]) T(other[i]);
+        copyFrom(other);
     }
 
     template <typename U = std::allocator<T>>
-    explicit FixedArray(std::vector<T, U>&& other) {
+    explicit FixedArray(std::vector<T, U>&& other) : FixedArray() {
         if (!allocate(other.size()))
             return;
-
-        for (size_t i = 0; i < size_; i++)
-            new (&data_[i]) T(std::move(other[i]));
+        for (size_ = 0; size_ < other.size(); size_++)
+            new (&data_[size_]) T(std::move(other[size_]));
     }
 
     ~FixedArray() {
@@ -134,8 +130,7 @@ class FixedArray : private AllocPolicy
             if (!allocate(other.size()))
                 return *this;
         }
-        for (size_t i = 0; i < size_; i++)
-            new (&data_[i]) T(other[i]);
+        copyFrom(other);
         return *this;
     }
     FixedArray& operator =(FixedArray&& other) {
@@ -166,6 +161,17 @@ class FixedArray : private AllocPolicy
     }
 
   private:
+    // The other constructors delegate to one that is done, so that the destructor runs if
+    // constructing an element throws. That is also why size_ counts the elements as they are made.
+    struct Empty {};
+    FixedArray(Empty, const AllocPolicy& ap) : AllocPolicy(ap), size_(0), data_(nullptr)
+    {}
+
+    template <typename U>
+    void copyFrom(const U& other) {
+        for (size_ = 0; size_ < other.size(); size_++)
+            new (&data_[size_]) T(other[size_]);
+    }
     bool allocate(size_t size) {
         size_ = size;
         data_ = nullptr;
-- 
2.43.0


From 37ebb7318d420d787ec48f015ecd83285fa06d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:51 +0000
Subject: [PATCH 24/33] fix: assigning to a ke::Function what its own callable
 owns used freed memory

f = f-callable.inner destroyed the callable, and with it the inner function,
before copying or moving the latter.
---
 amtl/am-function.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 65f3c7e..a1e1a5b 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -130,8 +130,10 @@ class Function<ReturnType(ArgTypes...)>
     Function& operator =(const Function& other) {
         if (this == &other)
             return *this;
+        // Note: |other| may be owned by our own callable.
+        Function temp(other);
         zap();
-        assign(other);
+        move(std::move(temp));
         return *this;
     }
     Function& operator =(Function& other) {
@@ -140,15 +142,18 @@ class Function<ReturnType(ArgTypes...)>
     Function& operator =(Function&& other) {
         if (this == &other)
             return *this;
-        zap();
+        // Note: |other| may be owned by our own callable.
+        Function old(std::move(*this));
         move(std::move(other));
         return *this;
     }
 
     template <typename T>
     Function& operator =(T&& other) {
+        // Note: |other| may be owned by our own callable.
+        Function temp(other);
         zap();
-        assign(other);
+        move(std::move(temp));
         return *this;
     }
 
-- 
2.43.0


From 917a056b5d0aeee5792cb0f2b271c9624b9e8960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:51 +0000
Subject: [PATCH 25/33] fix: copying a Refcounted or VirtualRefcounted object
 copied its references

A copy has no references yet, and an object assigned to keeps its own.
Both leaked, or were destroyed early.
---
 amtl/am-refcounting.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/amtl/am-refcounting.h b/amtl/am-refcounting.h
index 9fb9b09..06b13d9 100644
--- a/amtl/am-refcounting.h
+++ b/amtl/am-refcounting.h
@@ -118,6 +118,12 @@ class Refcounted
     Refcounted()
      : refcount_(0)
     {}
+    Refcounted(const Refcounted&)
+     : refcount_(0)
+    {}
+    Refcounted& operator =(const Refcounted&) {
+        return *this;
+    }
 
     void AddRef() {
         refcount_++;
@@ -165,6 +171,12 @@ class VirtualRefcounted : public IRefcounted
         destroying_ = false;
 #endif
     }
+    VirtualRefcounted(const VirtualRefcounted&)
+     : VirtualRefcounted()
+    {}
+    VirtualRefcounted& operator =(const VirtualRefcounted&) {
+        return *this;
+    }
     virtual ~VirtualRefcounted() {}
     void AddRef() override {
         assert(!destroying_);
-- 
2.43.0


From 8fb744bc697fe83ce93917cf8247ab40aa648940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:52 +0000
Subject: [PATCH 26/33] fix: Maybe and StorageBuffer did not align their values
 beyond 8 bytes

---
 amtl/am-storagebuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-storagebuffer.h b/amtl/am-storagebuffer.h
index f328922..b233219 100644
--- a/amtl/am-storagebuffer.h
+++ b/amtl/am-storagebuffer.h
@@ -49,7 +49,7 @@ class StorageBuffer
 
   private:
     union {
-        char buffer_[sizeof(T)];
+        alignas(T) char buffer_[sizeof(T)];
         uint64_t aligned_;
     };
 };
-- 
2.43.0


From f5fbeeb1970123a048eb2c3518b37ec7b76722dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:52 +0000
Subject: [PATCH 27/33] fix: a copy of an InlineListNode pretended to be in the
 list of the original

Removing it unlinked other nodes, and assigning to a node lost its neighbours.
---
 amtl/am-inlinelist.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/amtl/am-inlinelist.h b/amtl/am-inlinelist.h
index 79c2280..f223dad 100644
--- a/amtl/am-inlinelist.h
+++ b/amtl/am-inlinelist.h
@@ -57,6 +57,15 @@ class InlineListNode
        prev_(prev)
     {}
 
+    // A copy of a node is in no list, and a node assigned to stays where it is.
+    InlineListNode(const InlineListNode&)
+     : next_(nullptr),
+       prev_(nullptr)
+    {}
+    InlineListNode& operator =(const InlineListNode&) {
+        return *this;
+    }
+
     bool isInList() const {
         assert(!!next_ == !!prev_);
         return !!next_;
-- 
2.43.0


From 78380029a3bbacb84804b9e57e8d1858000e4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:52 +0000
Subject: [PATCH 28/33] fix: a copy of a SharedLib closed the library once more

---
 amtl/os/am-shared-library.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amtl/os/am-shared-library.h b/amtl/os/am-shared-library.h
index 21227c9..ecae76d 100644
--- a/amtl/os/am-shared-library.h
+++ b/amtl/os/am-shared-library.h
@@ -64,6 +64,8 @@ class SharedLib : public Refcounted<SharedLib>
         lib_ = dlopen(path, RTLD_NOW);
 #endif
     }
+    SharedLib(const SharedLib& other) = delete;
+    SharedLib& operator =(const SharedLib& other) = delete;
     ~SharedLib() {
         if (lib_ == nullptr)
             return;
-- 
2.43.0


From 8eef32dc5d241dbc4df34e353340200ef9bfd7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:55 +0000
Subject: [PATCH 29/33] fix: with inline values, -s:N was given :N when N
 contained an equals sign

-D:NAME=1 was cut at the equals sign first, and then taken for -D with the
value :NAME=1. The first separator ends the name.
---
 amtl/experimental/am-argparser.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 5d8f7cd..1266a29 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -659,9 +659,7 @@ Parser::parse_impl(const std::vector<const char*>& args)
             //   -keyval
             //   -key:val
             size_t len = strlen(arg);
-            const char* sep = strchr(arg, '=');
-            if (!sep && inline_values_)
-                sep = strchr(arg, ':');
+            const char* sep = strpbrk(arg, inline_values_ ? "=:" : "=");
             if (inline_values_ && sep && strlen(sep + 1) == 0)
                 sep = nullptr;    // Don't allow -key= or -key: with no arg.
             if (sep)
-- 
2.43.0


From 7cdb575ed89b15dd53be67a1d677030ce2912f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:48 +0000
Subject: [PATCH 30/33] fix: assigning an rvalue callable to a ke::Function
 copied it

---
 amtl/am-function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index a1e1a5b..05c2834 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -151,7 +151,7 @@ class Function<ReturnType(ArgTypes...)>
     template <typename T>
     Function& operator =(T&& other) {
         // Note: |other| may be owned by our own callable.
-        Function temp(other);
+        Function temp(std::forward<T>(other));
         zap();
         move(std::move(temp));
         return *this;
-- 
2.43.0


From 77e8c24dffe3e83cc37a6aed9b5538f4e82f42a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:48 +0000
Subject: [PATCH 31/33] fix: Maybe::operator-> did not compile when used

---
 amtl/am-maybe.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 4646f39..d2d340f 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -77,7 +77,7 @@ class Maybe
         return initialized_;
     }
 
-    T& operator ->() {
+    T* operator ->() {
         assert(isValid());
         return t_.address();
     }
@@ -85,7 +85,7 @@ class Maybe
         assert(isValid());
         return *t_.address();
     }
-    const T& operator ->() const {
+    const T* operator ->() const {
         assert(isValid());
         return t_.address();
     }
-- 
2.43.0


From a1e24b4229ff699d412d6326c28dca90025f6db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:13 +0000
Subject: [PATCH 32/33] fix: a copy of an InlineList pretended to hold the
 nodes of the original

The nodes are in one list only; the copy walked into the original and, in
debug builds, emptied it when destroyed.
---
 amtl/am-inlinelist.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amtl/am-inlinelist.h b/amtl/am-inlinelist.h
index f223dad..82affb9 100644
--- a/amtl/am-inlinelist.h
+++ b/amtl/am-inlinelist.h
@@ -118,6 +118,9 @@ class InlineList
 #endif
     }
 
+    InlineList(const InlineList& other) = delete;
+    InlineList& operator =(const InlineList& other) = delete;
+
   public:
     class iterator
     {
-- 
2.43.0


From 0196f79c49594b13eab00305076255783716c90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:56 +0000
Subject: [PATCH 33/33] fix: HashSet::add(key) did not say that it could not
 allocate memory

---
 amtl/am-hashset.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amtl/am-hashset.h b/amtl/am-hashset.h
index ea046dd..dafccd4 100644
--- a/amtl/am-hashset.h
+++ b/amtl/am-hashset.h
@@ -137,12 +137,13 @@ class HashSet : private AllocPolicy
     }
 
     // Convenience wrapper for findForAdd() + add(), if the item is not already
-    // in the set.
+    // in the set. Returns false if memory for the item could not be allocated.
     template <typename UK>
-    void add(UK&& key) {
+    bool add(UK&& key) {
         Insert p = table_.findForAdd(key);
-        if (!p.found())
-            table_.add(p, std::forward<UK>(key));
+        if (p.found())
+            return true;
+        return table_.add(p, std::forward<UK>(key));
     }
 
     AllocPolicy& allocPolicy() {
-- 
2.43.0

