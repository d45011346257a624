From 10d4b96161a4c2182e71936bd5fe2ab362ba32bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:02 +0000
Subject: [PATCH 1/8] fix: do not destroy the transferred data twice if its
 copy/move constructor throws

control_block::set() destroyed the previous data, but left bvalid set while
the new data was constructed. If that constructor threw, the next set() or
the destructor of the control block destroyed the dead object again.
---
 include/boost/coroutine2/detail/pull_control_block_cc.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/coroutine2/detail/pull_control_block_cc.ipp b/include/boost/coroutine2/detail/pull_control_block_cc.ipp
index f511e29..5e00898 100644
--- a/include/boost/coroutine2/detail/pull_control_block_cc.ipp
+++ b/include/boost/coroutine2/detail/pull_control_block_cc.ipp
@@ -155,6 +155,9 @@ void
 pull_coroutine< T >::control_block::set( T const& t) {
     // destroy data if set
     if ( bvalid) {
+        // storage is empty till the new data has been constructed;
+        // construction might throw
+        bvalid = false;
         reinterpret_cast< T * >( std::addressof( storage) )->~T();
     }
     ::new ( static_cast< void * >( std::addressof( storage) ) ) T( t);
@@ -166,6 +169,9 @@ void
 pull_coroutine< T >::control_block::set( T && t) {
     // destroy data if set
     if ( bvalid) {
+        // storage is empty till the new data has been constructed;
+        // construction might throw
+        bvalid = false;
         reinterpret_cast< T * >( std::addressof( storage) )->~T();
     }
     ::new ( static_cast< void * >( std::addressof( storage) ) ) T( std::move( t) );
-- 
2.43.0


From c38c481573ebb2b9d09badca46eb64000e90d6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:08 +0000
Subject: [PATCH 2/8] fix: do not move from a coroutine-function passed as
 lvalue (C++11)

Without generic lambdas the coroutine-function is stored by wrap(), which
applied std::move() to a forwarding reference: a function object passed as
lvalue was moved from instead of copied.
---
 include/boost/coroutine2/detail/wrap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/coroutine2/detail/wrap.hpp b/include/boost/coroutine2/detail/wrap.hpp
index 9c32edf..bb0aef5 100644
--- a/include/boost/coroutine2/detail/wrap.hpp
+++ b/include/boost/coroutine2/detail/wrap.hpp
@@ -34,8 +34,8 @@ private:
 
 public:
     wrapper( Fn1 && fn1, Fn2 && fn2) :
-        fn1_( std::move( fn1) ),
-        fn2_( std::move( fn2) ) {
+        fn1_( std::forward< Fn1 >( fn1) ),
+        fn2_( std::forward< Fn2 >( fn2) ) {
     }
 
     wrapper( wrapper const&) = delete;
-- 
2.43.0


From afa12cee0c4a5a18ba6a0c727bf7f6089c731310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:19 +0000
Subject: [PATCH 3/8] fix: move assignment leaves the source not-a-coroutine
 and destroys the replaced coroutine

---
 .../coroutine2/detail/pull_coroutine.hpp      | 19 ++++++++++++++++---
 .../coroutine2/detail/push_coroutine.hpp      | 16 +++++++++++++---
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/include/boost/coroutine2/detail/pull_coroutine.hpp b/include/boost/coroutine2/detail/pull_coroutine.hpp
index 767a388..ddf39ee 100644
--- a/include/boost/coroutine2/detail/pull_coroutine.hpp
+++ b/include/boost/coroutine2/detail/pull_coroutine.hpp
@@ -9,6 +9,7 @@
 
 #include <iterator>
 #include <type_traits>
+#include <utility>
 
 #include <boost/assert.hpp>
 #include <boost/config.hpp>
@@ -55,7 +56,11 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        if ( this == & other) return * this;
+        // `other` becomes not-a-coroutine; the coroutine owned by `*this`
+        // is destroyed together with `tmp`
+        pull_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -166,7 +171,11 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        if ( this == & other) return * this;
+        // `other` becomes not-a-coroutine; the coroutine owned by `*this`
+        // is destroyed together with `tmp`
+        pull_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -275,7 +284,11 @@ public:
     pull_coroutine( pull_coroutine &&) noexcept;
 
     pull_coroutine & operator=( pull_coroutine && other) noexcept {
-        std::swap( cb_, other.cb_);
+        if ( this == & other) return * this;
+        // `other` becomes not-a-coroutine; the coroutine owned by `*this`
+        // is destroyed together with `tmp`
+        pull_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
diff --git a/include/boost/coroutine2/detail/push_coroutine.hpp b/include/boost/coroutine2/detail/push_coroutine.hpp
index 4b5ba5c..d631854 100644
--- a/include/boost/coroutine2/detail/push_coroutine.hpp
+++ b/include/boost/coroutine2/detail/push_coroutine.hpp
@@ -9,6 +9,7 @@
 
 #include <iterator>
 #include <type_traits>
+#include <utility>
 
 #include <boost/assert.hpp>
 #include <boost/config.hpp>
@@ -54,7 +55,10 @@ public:
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
         if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        // `other` becomes not-a-coroutine; the coroutine owned by `*this`
+        // is destroyed together with `tmp`
+        push_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -139,7 +143,10 @@ public:
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
         if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        // `other` becomes not-a-coroutine; the coroutine owned by `*this`
+        // is destroyed together with `tmp`
+        push_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
@@ -222,7 +229,10 @@ public:
 
     push_coroutine & operator=( push_coroutine && other) noexcept {
         if ( this == & other) return * this;
-        std::swap( cb_, other.cb_);
+        // `other` becomes not-a-coroutine; the coroutine owned by `*this`
+        // is destroyed together with `tmp`
+        push_coroutine tmp{ std::move( other) };
+        std::swap( cb_, tmp.cb_);
         return * this;
     }
 
-- 
2.43.0


From 6b238becdc9b6f073abee63f4a8b53e947a1103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:26 +0000
Subject: [PATCH 4/8] fix: begin() of a complete push-coroutine equals end()

---
 include/boost/coroutine2/detail/push_coroutine.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/coroutine2/detail/push_coroutine.hpp b/include/boost/coroutine2/detail/push_coroutine.hpp
index d631854..5f4b8c7 100644
--- a/include/boost/coroutine2/detail/push_coroutine.hpp
+++ b/include/boost/coroutine2/detail/push_coroutine.hpp
@@ -85,6 +85,10 @@ public:
 
         explicit iterator( push_coroutine< T > * c) noexcept :
             c_{ c } {
+            // an already complete coroutine accepts no value
+            if ( ! ( * c_) ) {
+                c_ = nullptr;
+            }
         }
 
         iterator & operator=( T t) {
@@ -171,6 +175,10 @@ public:
 
         explicit iterator( push_coroutine< T & > * c) noexcept :
             c_{ c } {
+            // an already complete coroutine accepts no value
+            if ( ! ( * c_) ) {
+                c_ = nullptr;
+            }
         }
 
         iterator & operator=( T & t) {
-- 
2.43.0


From de1a3dc2183ac38d5c3391e7d29b23eccb179c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:00 +0000
Subject: [PATCH 5/8] fix: align the control block for over-aligned data

---
 include/boost/coroutine2/detail/create_control_block.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/coroutine2/detail/create_control_block.ipp b/include/boost/coroutine2/detail/create_control_block.ipp
index 127ea84..7fe82f2 100644
--- a/include/boost/coroutine2/detail/create_control_block.ipp
+++ b/include/boost/coroutine2/detail/create_control_block.ipp
@@ -35,7 +35,8 @@ ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
     void * sp = static_cast< char * >( sctx.sp) - sizeof( ControlBlock);
     const std::size_t size = sctx.size - sizeof( ControlBlock);
 #else
-    constexpr std::size_t func_alignment = 64; // alignof( ControlBlock);
+    // at least 64; more if the transferred data is over-aligned
+    constexpr std::size_t func_alignment = alignof( ControlBlock) > 64 ? alignof( ControlBlock) : 64;
     constexpr std::size_t func_size = sizeof( ControlBlock);
     // reserve space on stack
     void * sp = static_cast< char * >( sctx.sp) - func_size - func_alignment;
-- 
2.43.0


From 4de16c4f9ec8ca8b29961048026776979ff65478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:25 +0000
Subject: [PATCH 6/8] fix: release the stack if copying the coroutine-function
 throws

---
 .../boost/coroutine2/detail/create_control_block.ipp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/boost/coroutine2/detail/create_control_block.ipp b/include/boost/coroutine2/detail/create_control_block.ipp
index 7fe82f2..c22804b 100644
--- a/include/boost/coroutine2/detail/create_control_block.ipp
+++ b/include/boost/coroutine2/detail/create_control_block.ipp
@@ -18,6 +18,7 @@
 #include <boost/context/stack_context.hpp>
 
 #include <boost/coroutine2/detail/config.hpp>
+#include <boost/coroutine2/detail/decay_copy.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
 #  include BOOST_ABI_PREFIX
@@ -47,9 +48,18 @@ ControlBlock * create_control_block( StackAllocator && salloc, Fn && fn) {
     // calculate remaining size
     const std::size_t size = sctx.size - ( static_cast< char * >( sctx.sp) - static_cast< char * >( sp) );
 #endif
+    // copying the coroutine-function might throw; nobody owns the stack till then
+    auto fn_copy = [&salloc,&sctx,&fn]() {
+        try {
+            return detail::decay_copy( std::forward< Fn >( fn) );
+        } catch (...) {
+            salloc.deallocate( sctx);
+            throw;
+        }
+    }();
     // placment new for control structure on coroutine stack
     return new ( sp) ControlBlock{ context::preallocated( sp, size, sctx),
-                                   std::forward< StackAllocator >( salloc), std::forward< Fn >( fn) };
+                                   std::forward< StackAllocator >( salloc), std::move( fn_copy) };
 }
 
 }}}
-- 
2.43.0


From 5254769434d80be9e556dd9dacf430c1fd0bd4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:01 +0000
Subject: [PATCH 7/8] fix: iterators of a coroutine completed by an exception
 equal end()

If the increment of a pull-iterator or the assignment through a
push-iterator was left by an exception of the coroutine-function, the
iterator did not become the end iterator although the coroutine was
complete.
---
 .../coroutine2/detail/pull_coroutine.hpp      | 16 +++++++++++--
 .../coroutine2/detail/push_coroutine.hpp      | 24 +++++++++++++++----
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/include/boost/coroutine2/detail/pull_coroutine.hpp b/include/boost/coroutine2/detail/pull_coroutine.hpp
index ddf39ee..da61209 100644
--- a/include/boost/coroutine2/detail/pull_coroutine.hpp
+++ b/include/boost/coroutine2/detail/pull_coroutine.hpp
@@ -87,7 +87,13 @@ public:
         void increment_() {
             BOOST_ASSERT( nullptr != c_);
             BOOST_ASSERT( * c_);
-            ( * c_)();
+            try {
+                ( * c_)();
+            } catch (...) {
+                // the coroutine might be complete
+                fetch_();
+                throw;
+            }
             fetch_();
         }
 
@@ -202,7 +208,13 @@ public:
         void increment_() {
             BOOST_ASSERT( nullptr != c_);
             BOOST_ASSERT( * c_);
-            ( * c_)();
+            try {
+                ( * c_)();
+            } catch (...) {
+                // the coroutine might be complete
+                fetch_();
+                throw;
+            }
             fetch_();
         }
 
diff --git a/include/boost/coroutine2/detail/push_coroutine.hpp b/include/boost/coroutine2/detail/push_coroutine.hpp
index 5f4b8c7..e02965e 100644
--- a/include/boost/coroutine2/detail/push_coroutine.hpp
+++ b/include/boost/coroutine2/detail/push_coroutine.hpp
@@ -93,8 +93,16 @@ public:
 
         iterator & operator=( T t) {
             BOOST_ASSERT( nullptr != c_);
-            if ( ! ( * c_)( t) ) {
-                c_ = nullptr;
+            try {
+                if ( ! ( * c_)( t) ) {
+                    c_ = nullptr;
+                }
+            } catch (...) {
+                // the coroutine might be complete
+                if ( ! ( * c_) ) {
+                    c_ = nullptr;
+                }
+                throw;
             }
             return * this;
         }
@@ -183,8 +191,16 @@ public:
 
         iterator & operator=( T & t) {
             BOOST_ASSERT( nullptr != c_);
-            if ( ! ( * c_)( t) ) {
-                c_ = nullptr;
+            try {
+                if ( ! ( * c_)( t) ) {
+                    c_ = nullptr;
+                }
+            } catch (...) {
+                // the coroutine might be complete
+                if ( ! ( * c_) ) {
+                    c_ = nullptr;
+                }
+                throw;
             }
             return * this;
         }
-- 
2.43.0


From 965763f54746e2a5e6bd69b571499029ab73fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:55 +0000
Subject: [PATCH 8/8] fix: stack headers can be included first

fixedsize_stack.hpp (segmented_stack.hpp in split-stack builds) included the
coroutine templates before declaring default_stack, which those templates use:
a translation unit including it before coroutine.hpp did not compile.
Neither header needs them.
---
 include/boost/coroutine2/fixedsize_stack.hpp | 2 --
 include/boost/coroutine2/segmented_stack.hpp | 2 --
 2 files changed, 4 deletions(-)

diff --git a/include/boost/coroutine2/fixedsize_stack.hpp b/include/boost/coroutine2/fixedsize_stack.hpp
index 54fc3df..9a84170 100644
--- a/include/boost/coroutine2/fixedsize_stack.hpp
+++ b/include/boost/coroutine2/fixedsize_stack.hpp
@@ -13,8 +13,6 @@
 #include <boost/config.hpp>
 #include <boost/context/fixedsize_stack.hpp>
 
-#include <boost/coroutine2/detail/coroutine.hpp>
-
 #ifdef BOOST_HAS_ABI_HEADERS
 #  include BOOST_ABI_PREFIX
 #endif
diff --git a/include/boost/coroutine2/segmented_stack.hpp b/include/boost/coroutine2/segmented_stack.hpp
index 24f93c8..23d89e3 100644
--- a/include/boost/coroutine2/segmented_stack.hpp
+++ b/include/boost/coroutine2/segmented_stack.hpp
@@ -13,8 +13,6 @@
 #include <boost/config.hpp>
 #include <boost/context/segmented_stack.hpp>
 
-#include <boost/coroutine2/detail/coroutine.hpp>
-
 #ifdef BOOST_HAS_ABI_HEADERS
 #  include BOOST_ABI_PREFIX
 #endif
-- 
2.43.0

