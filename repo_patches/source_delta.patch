From 8a724ab52d49d0d9daa5987c1ed8b50ee4d1cd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 01/44] fix: peek_range pairs each element with its own signal

The signal pointer handed to the peek_range handle was already offset by
the read position, and operator[] added the position again, so peeked
signals came from the wrong slot, or from beyond the signal buffer.
---
 raftinc/ringbufferheap.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 461d3cc..edf814f 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -465,7 +465,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const std::size_t cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  reinterpret_cast< void* >(  buff_ptr->signal );
       *ptr =  buff_ptr->store;
       return;
    }
@@ -905,7 +905,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const auto cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  reinterpret_cast< void* >(  buff_ptr->signal );
       *ptr =  buff_ptr->store;
       return;
    }
@@ -1390,7 +1390,7 @@ protected:
       auto * const buff_ptr( (this)->datamanager.get() );
       const auto cpl( Pointer::val( buff_ptr->read_pt ) );
       curr_pointer_loc = cpl;
-      *sig =  reinterpret_cast< void* >(  &buff_ptr->signal[ cpl ] );
+      *sig =  reinterpret_cast< void* >(  buff_ptr->signal );
       *ptr =  buff_ptr->store;
       return;
    }
-- 
2.43.0


From c60d9eb36875a67f2abef2cc1d296efb078fbde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 02/44] fix: deallocate destroys the allocated object, not the
 head of the queue

---
 raftinc/ringbufferheap.tcc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index edf814f..50d5a6c 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -493,8 +493,8 @@ public:
    virtual void deallocate()
    {
       auto * const buff_ptr( (this)->datamanager.get() );
-      const auto read_index( Pointer::val( buff_ptr->read_pt ) );
-      auto * const ptr = reinterpret_cast< T* >( &( buff_ptr->store[ read_index ] ) );
+      const auto write_index( Pointer::val( buff_ptr->write_pt ) );
+      auto * const ptr = reinterpret_cast< T* >( &( buff_ptr->store[ write_index ] ) );
       /** destruct **/
       ptr->~T();
       (this)->producer_data.allocate_called = false;
-- 
2.43.0


From a8f2fb816eca712869c813f63f447ae877dc8bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 03/44] fix: pop of an externally stored object releases its
 memory

The object was destroyed but the storage obtained with new was leaked.
---
 raftinc/ringbufferheap.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 50d5a6c..0b1792f 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1277,8 +1277,9 @@ protected:
       Pointer::inc( buff_ptr->read_pt );
       /**
        * fix for bug #76 - jcb 18Nov2018
+       * the object was allocated with new, so release its memory too
        */
-      head->~T();
+      delete( head );
       (this)->datamanager.exitBuffer( dm::pop );
    }
 
-- 
2.43.0


From ea50f6b205cb58ed1009a7a1551f7d0c31d263f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 04/44] fix: size the signal buffer copy by the signal type
 when resizing

length_signal was computed from sizeof( T ), so a resize lost signals for
small element types and read and wrote past the buffers for large ones.
---
 raftinc/database.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftinc/database.tcc b/raftinc/database.tcc
index cf0a446..5bbbdfe 100644
--- a/raftinc/database.tcc
+++ b/raftinc/database.tcc
@@ -43,7 +43,7 @@ template < class T > struct DataBase
 {
     DataBase( const std::size_t max_cap ) : max_cap ( max_cap ),
                                             length_store( sizeof( T ) * max_cap ),
-                                            length_signal( sizeof( T ) * max_cap ),
+                                            length_signal( sizeof( Signal ) * max_cap ),
                                             dynamic_alloc_size( length_store +
                                                                 length_signal )
                                             {}
-- 
2.43.0


From 9164783b1aa150fb2951d1e1bd74f8a131f08579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 05/44] fix: move objects instead of copying their bytes when
 resizing

A bytewise copy breaks objects that refer to themselves, e.g. short strings.
---
 raftinc/bufferdata.tcc | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 3f06f71..dfd82da 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -27,6 +27,7 @@
 #include <cinttypes>
 #include <iostream>
 #include <type_traits>
+#include <utility>
 #if defined __APPLE__ || defined __linux
 #include <sys/mman.h>
 #include <shm>
@@ -156,9 +157,7 @@ template < class T > struct Data< T,
         (this)->is_valid = other->is_valid;
 
         /** buffer is already alloc'd, copy **/
-        std::memcpy( (void*)(this)->store /* dst */,
-                     (void*)other->store  /* src */,
-                     other->length_store );
+        copyStore( other, std::is_class< T >() );
         
         /** copy signal buff **/
         std::memcpy( (void*)(this)->signal /* dst */,
@@ -176,6 +175,28 @@ template < class T > struct Data< T,
    }
 
 
+   /** plain data, just copy the memory **/
+   void copyStore( DataBase< T > *other, std::false_type )
+   {
+        std::memcpy( (void*)(this)->store /* dst */,
+                     (void*)other->store  /* src */,
+                     other->length_store );
+   }
+
+   /** 
+    * objects must be moved one by one, the buffer is only resized 
+    * when the queued items are contiguous (see DataManager::resize).
+    */
+   void copyStore( DataBase< T > *other, std::true_type )
+   {
+        const auto end( Pointer::val( other->write_pt ) );
+        for( auto index( Pointer::val( other->read_pt ) ); index < end; index++ )
+        {
+            new ( &(this)->store[ index ] ) T( std::move( other->store[ index ] ) );
+            other->store[ index ].~T();
+        }
+   }
+
    virtual ~Data()
    {
       //FREE USED HERE
-- 
2.43.0


From dc7b4cfffaf50d1407b71986cf34788b44ac9098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 06/44] fix: keep the suggested size when resizing queues of
 external objects

---
 raftinc/bufferdata.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index dfd82da..81c2bce 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -321,7 +321,8 @@ template < class T >
         //copy over block stats objects
         (this)->read_stats  = other->read_stats; 
         (this)->write_stats = other->write_stats;
-        
+        /** since we might use this as a min size, make persistent **/
+        (this)->force_resize = other->force_resize;
         (this)->thread_access[ 0 ] = other->thread_access[ 0 ]; 
         (this)->thread_access[ 1 ] = other->thread_access[ 1 ];
         /** everything should be put back together now **/
-- 
2.43.0


From 0bab0ee4a7c9012953e8ba72a74f053f5eb1724e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:05 +0000
Subject: [PATCH 07/44] fix: keep transfer statistics valid when a queue is
 resized

The producer and consumer kept pointers into the buffer that the resize
deleted, so counting continued in freed memory and was lost.
---
 raftinc/fifoabstract.tcc            | 14 ++++++++++----
 raftinc/ringbufferheap_abstract.tcc |  6 +++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/raftinc/fifoabstract.tcc b/raftinc/fifoabstract.tcc
index 7423514..9d406e6 100644
--- a/raftinc/fifoabstract.tcc
+++ b/raftinc/fifoabstract.tcc
@@ -39,10 +39,9 @@ protected:
 
     inline void init() noexcept
     {
-        auto * const buffer( datamanager.get() );
-        assert( buffer != nullptr );
-        producer_data.write_stats = &buffer->write_stats;
-        consumer_data.read_stats  = &buffer->read_stats;
+        assert( datamanager.get() != nullptr );
+        producer_data.write_stats = &producer_stats;
+        consumer_data.read_stats  = &consumer_stats;
     }
 
     struct ALIGN( L1D_CACHE_LINE_SIZE ) {
@@ -76,6 +75,13 @@ protected:
         Blocked                     *read_stats = nullptr;
     } consumer_data;
     
+    /** 
+     * statistics live here and not within the buffer, so that they
+     * (and the pointers to them above) outlast a resize. 
+     */
+    Blocked                      producer_stats;
+    Blocked                      consumer_stats;
+
     /** 
      * upgraded the *data structure to be a DataManager
      * object to enable easier and more intuitive dynamic
diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index b8788a2..7512385 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -164,7 +164,7 @@ TOP:
    virtual void get_zero_read_stats( Blocked &copy )
    {
       
-      auto &buff_ptr_stats( (this)->datamanager.get()->read_stats.all );
+      auto &buff_ptr_stats( (this)->consumer_data.read_stats->all );
       
       copy.all          = buff_ptr_stats;;
       buff_ptr_stats    = 0;
@@ -178,14 +178,14 @@ TOP:
     */
    virtual void get_zero_write_stats( Blocked &copy )
    {
-      auto &buff_ptr_stats( (this)->datamanager.get()->write_stats.all );
+      auto &buff_ptr_stats( (this)->producer_data.write_stats->all );
       copy.all       = buff_ptr_stats;
       buff_ptr_stats = 0;
    }
     
     virtual float get_frac_write_blocked()
     {
-        auto &wr_stats( (this)->datamanager.get()->write_stats );
+        auto &wr_stats( *(this)->producer_data.write_stats );
         const auto copy( wr_stats );
         wr_stats.all = 0;
         if( copy.bec.blocked == 0 || copy.bec.count == 0 )
-- 
2.43.0


From cdde24d029cc9d731f95e4a271e64b209079d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 08/44] fix: send_range delivers its signal with the last item
 of the range

The signal was stored with the first allocated item since the write
pointer no longer advances during allocate_range.
---
 raftinc/ringbufferheap.tcc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 0b1792f..960ee88 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -92,10 +92,13 @@ public:
         return;
       }
       /** should be the end of the write, regardless of which allocate called **/
-      const size_t write_index( Pointer::val( (this)->datamanager.get()->write_pt ) );
-      (this)->datamanager.get()->signal[ write_index ] = signal;
-      /* only need to inc one more **/
       auto &n_allocated( (this)->producer_data.n_allocated );
+      auto * const buff_ptr( (this)->datamanager.get() );
+      /** write pointer is still at the first item, signal goes with the last **/
+      const size_t write_index( ( Pointer::val( buff_ptr->write_pt ) + n_allocated - 1 ) 
+                                    % buff_ptr->max_cap );
+      buff_ptr->signal[ write_index ] = signal;
+      /* only need to inc one more **/
       Pointer::incBy( (this)->datamanager.get()->write_pt,
                       n_allocated );
       (this)->producer_data.write_stats->bec.count += n_allocated;
@@ -536,11 +539,11 @@ public:
             return;
         }
         auto * const buff_ptr( (this)->datamanager.get() );
-        /** should be the end of the write, regardless of which allocate called **/
-        const size_t write_index( Pointer::val( buff_ptr->write_pt ) );
-        buff_ptr->signal[ write_index ] = signal;
-        /* only need to inc one more, the rest have already**/
         auto &n_allocated( (this)->producer_data.n_allocated );
+        /** write pointer is still at the first item, signal goes with the last **/
+        const size_t write_index( ( Pointer::val( buff_ptr->write_pt ) + n_allocated - 1 ) 
+                                      % buff_ptr->max_cap );
+        buff_ptr->signal[ write_index ] = signal;
         Pointer::incBy( buff_ptr->write_pt,
                         n_allocated );
         
@@ -980,9 +983,12 @@ public:
    {
       if( ! (this)->producer_data.allocate_called ) return;
       /** should be the end of the write, regardless of which allocate called **/
-      const size_t write_index( Pointer::val( (this)->datamanager.get()->write_pt ) );
-      (this)->datamanager.get()->signal[ write_index ] = signal;
       auto &n_allocated( (this)->producer_data.n_allocated );
+      auto * const buff_ptr( (this)->datamanager.get() );
+      /** write pointer is still at the first item, signal goes with the last **/
+      const size_t write_index( ( Pointer::val( buff_ptr->write_pt ) + n_allocated - 1 ) 
+                                    % buff_ptr->max_cap );
+      buff_ptr->signal[ write_index ] = signal;
       Pointer::incBy( (this)->datamanager.get()->write_pt,
                       n_allocated );
       /** cleanup **/
-- 
2.43.0


From 735870b3943f112e6bacae055c8c073a0d5a754d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 09/44] fix: keep the thread access flags in the queue, not in
 the buffer being replaced

---
 raftinc/bufferdata.tcc  |  4 ----
 raftinc/database.tcc    |  9 +--------
 raftinc/datamanager.tcc | 16 ++++++++--------
 3 files changed, 9 insertions(+), 20 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 81c2bce..000860b 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -170,8 +170,6 @@ template < class T > struct Data< T,
         /** since we might use this as a min size, make persistent **/
         (this)->force_resize = other->force_resize;
         /** everything should be put back together now **/
-        (this)->thread_access[ 0 ] = other->thread_access[ 0 ]; 
-        (this)->thread_access[ 1 ] = other->thread_access[ 1 ];
    }
 
 
@@ -323,8 +321,6 @@ template < class T >
         (this)->write_stats = other->write_stats;
         /** since we might use this as a min size, make persistent **/
         (this)->force_resize = other->force_resize;
-        (this)->thread_access[ 0 ] = other->thread_access[ 0 ]; 
-        (this)->thread_access[ 1 ] = other->thread_access[ 1 ];
         /** everything should be put back together now **/
    }
 
diff --git a/raftinc/database.tcc b/raftinc/database.tcc
index 5bbbdfe..8bceb42 100644
--- a/raftinc/database.tcc
+++ b/raftinc/database.tcc
@@ -67,15 +67,8 @@ template < class T > struct DataBase
     const std::size_t       dynamic_alloc_size;
 
 
-    /**
-     * read/write pointer. the thread_access is in 
-     * between as it's well accessed by both just
-     * as frequently as the pointers themselves, 
-     * so we get decent caching behavior out of 
-     * doing it this way. 
-     */
+    /** read/write pointer **/
     Pointer                 read_pt;
-    ThreadAccess            thread_access[ 2 ];
     Pointer                 write_pt;
     
     T                       *store          = nullptr;
diff --git a/raftinc/datamanager.tcc b/raftinc/datamanager.tcc
index 65f0a91..9456a1d 100644
--- a/raftinc/datamanager.tcc
+++ b/raftinc/datamanager.tcc
@@ -51,12 +51,6 @@ public:
       (this)->buffer = buffer;
       /** check to see if buffer is given is resizeable **/
       resizeable     = (  buffer->external_alloc ? false : true ); 
-      /** 
-       * need to set thread access structs, should be two of them, 
-       * one for producer anad other for the consumer. These are 
-       * kept as an array here so, only one ptr.
-       */
-      thread_access = buffer->thread_access;
    }
 
    inline bool is_resizeable() noexcept 
@@ -229,8 +223,14 @@ private:
 
    bool                  resizeable          = true;
    
-   /** defined in threadaccess.hpp **/
-   ThreadAccess *thread_access = nullptr;
+   /** 
+    * defined in threadaccess.hpp, two of them, one for the 
+    * producer and the other for the consumer. These belong
+    * to the queue and not to the buffer, threads set their 
+    * flags in here at any time including while the buffer is
+    * being replaced (and deleted) by resize().
+    */
+   ThreadAccess  thread_access[ 2 ];
   
    std::atomic< std::uint64_t >  checking_size = { 0 };
 
-- 
2.43.0


From a4622abadad353a7436a40acddb43d8574058372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:09 +0000
Subject: [PATCH 10/44] fix: exclude resizing while the state of the current
 buffer is read or closed

---
 raftinc/ringbufferheap_abstract.tcc | 63 ++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index 7512385..c2c2c1b 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -61,8 +61,10 @@ TOP:
                /** expect most of the time to be full **/
                if( R_LIKELY( wrap_read < wrap_write ) )
                {
+                  /** read before exit, buffer could be gone after **/
+                  const auto max_cap( buff_ptr->max_cap );
                   (this)->datamanager.exitBuffer( dm::size );
-                  return( buff_ptr->max_cap );
+                  return( max_cap );
                }
                else if( wrap_read > wrap_write )
                {
@@ -90,8 +92,9 @@ TOP:
             }
             else if( rpt > wpt )
             {
+               const auto max_cap( buff_ptr->max_cap );
                (this)->datamanager.exitBuffer( dm::size );
-               return( buff_ptr->max_cap - rpt + wpt ); 
+               return( max_cap - rpt + wpt ); 
             }
             (this)->datamanager.exitBuffer( dm::size );
             return( 0 );
@@ -113,8 +116,12 @@ TOP:
     */
    virtual void invalidate()
    {
-      auto * const ptr( (this)->datamanager.get() );
-      ptr->is_valid = false;
+      /** 
+       * has to be excluded from resize, otherwise the buffer could
+       * be gone or have been copied already.
+       */
+      (this)->lockBuffer()->is_valid = false;
+      (this)->datamanager.exitBuffer( dm::size );
       return;
    }
    
@@ -127,8 +134,9 @@ TOP:
     */
    virtual bool is_invalid()
    {
-      auto * const ptr( (this)->datamanager.get() );
-      return( ! ptr->is_valid );
+      const auto is_valid( (this)->lockBuffer()->is_valid );
+      (this)->datamanager.exitBuffer( dm::size );
+      return( ! is_valid );
    }
 
 
@@ -140,7 +148,9 @@ TOP:
     */
    virtual std::size_t   space_avail()
    {
-      return( (this)->datamanager.get()->max_cap - size() );
+      /** size first, a resize in between only adds space **/
+      const auto curr_size( size() );
+      return( capacity() - curr_size );
    }
   
    /**
@@ -150,7 +160,9 @@ TOP:
     */
    virtual std::size_t   capacity() 
    {
-      return( (this)->datamanager.get()->max_cap );
+      const auto max_cap( (this)->lockBuffer()->max_cap );
+      (this)->datamanager.exitBuffer( dm::size );
+      return( max_cap );
    }
 
    
@@ -210,6 +222,24 @@ TOP:
    
 
 protected:
+   /**
+    * lockBuffer - get the current buffer, it won't be resized
+    * until exitBuffer( dm::size ) is called by the caller.
+    */
+   auto lockBuffer() noexcept -> decltype( (this)->datamanager.get() )
+   {
+      for( ;; )
+      {
+         (this)->datamanager.enterBuffer( dm::size );
+         if( (this)->datamanager.notResizing() )
+         {
+            return( (this)->datamanager.get() );
+         }
+         (this)->datamanager.exitBuffer( dm::size );
+         raft::yield();
+      }
+   }
+
    /**
     * setPtrMap
     */
@@ -248,19 +278,12 @@ protected:
     */
    virtual raft::signal signal_peek()
    {
-      /** 
-       * NOTE: normally I'd say we need exclusion here too,
-       * however, since this is a copy and we want this to
-       * be quick since it'll be used quite often in tight
-       * loops I think we'll be okay with getting the current
-       * pointer to the head of the queue and returning the
-       * value.  Logically copying the queue shouldn't effect
-       * this value since the elements all remain in their 
-       * location relative to the start of the queue.
-       */
-      auto * const buff_ptr( (this)->datamanager.get() );
+      /** only a copy is returned, but the buffer has to exist while copying **/
+      auto * const buff_ptr( (this)->lockBuffer() );
       const size_t read_index( Pointer::val( buff_ptr->read_pt ) );
-      return( buff_ptr->signal[ read_index ] /* make copy */ ); 
+      const raft::signal sig( buff_ptr->signal[ read_index ] /* make copy */ );
+      (this)->datamanager.exitBuffer( dm::size );
+      return( sig );
    }
    /**
     * signal_pop - special function fo rthe scheduler to 
-- 
2.43.0


From 117c953fd6dd22d8ec8ad1b9489ec5c65c011577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 11/44] fix: allow an empty queue to be resized

---
 raftinc/datamanager.tcc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/raftinc/datamanager.tcc b/raftinc/datamanager.tcc
index 9456a1d..51b977c 100644
--- a/raftinc/datamanager.tcc
+++ b/raftinc/datamanager.tcc
@@ -113,11 +113,15 @@ public:
           * happen quite a bit but we do have to make sure.  For
           * other bad things that could happen, see the conditions
           * in the size() function from the ringbufferheap.tcc 
-          * file.
+          * file. An empty buffer has nothing to copy, which is the 
+          * state an allocate_range larger than the buffer waits in.
           */
          const auto rpt( Pointer::val( buff_ptr->read_pt  ) );
          const auto wpt( Pointer::val( buff_ptr->write_pt ) );
-         return( rpt < wpt );
+         return( rpt < wpt ||
+                 ( rpt == wpt && 
+                   Pointer::wrapIndicator( buff_ptr->read_pt  ) == 
+                   Pointer::wrapIndicator( buff_ptr->write_pt ) ) );
       } );
       
       auto *old_buffer( get() );
-- 
2.43.0


From 5f978b6c060a3501a6076a71b6d82ad9912563f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 12/44] fix: a waiting pop does not hold up resizing

---
 raftinc/ringbufferheap.tcc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 960ee88..99edd4b 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -347,7 +347,6 @@ protected:
          }
          else
          {
-            (this)->datamanager.exitBuffer( dm::pop );
             /** handle stats **/
             auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
             if( rd_stats == 0 )
@@ -355,6 +354,8 @@ protected:
                rd_stats  = 1;
             }
          }
+         /** don't hold up a resize while waiting **/
+         (this)->datamanager.exitBuffer( dm::pop );
          raft::yield();
       }
       auto * const buff_ptr( (this)->datamanager.get() );
@@ -780,7 +781,6 @@ protected:
          }
          else
          {
-            (this)->datamanager.exitBuffer( dm::pop );
             /** handle stats **/
             auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
             if( rd_stats == 0 )
@@ -788,6 +788,8 @@ protected:
                rd_stats  = 1;
             }
          }
+         /** don't hold up a resize while waiting **/
+         (this)->datamanager.exitBuffer( dm::pop );
          raft::yield();
       }
       auto * const buff_ptr( (this)->datamanager.get() );
@@ -1257,15 +1259,16 @@ protected:
          }
          else
          {
-            (this)->datamanager.exitBuffer( dm::pop );
             /** handle stats **/
             auto &rd_stats( (this)->consumer_data.read_stats->bec.blocked );
             if( rd_stats == 0 )
             {
                rd_stats  = 1;
             }
-            raft::yield();
          }
+         /** don't hold up a resize while waiting **/
+         (this)->datamanager.exitBuffer( dm::pop );
+         raft::yield();
       }
       auto * const buff_ptr( (this)->datamanager.get() );
       const std::size_t read_index( Pointer::val( buff_ptr->read_pt ) );
-- 
2.43.0


From 6d5b15016c60352c0d63d9f3f04e5bb6559e4099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 13/44] fix: duplicate the whole chain when joining a chain
 into several ports

---
 src/map.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/map.cpp b/src/map.cpp
index 6621cc8..81fa261 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -598,6 +598,11 @@ raft::map::inline_dup_join( kernels_t &groups,
     
     /** should currently have only one kernel here **/
     assert( gp->size() == 1 );  
+    /** 
+     * what's duplicated is the whole chain, so its source kernels are the 
+     * ones at the head 
+     */
+    (*gp)[ 0 ] = next->head->src;
 #ifndef NDEBUG
     /** get count to satisfy postcondition at end **/
     const auto dst_inport_count( next->dst->input.count() );
@@ -653,7 +658,7 @@ raft::map::inline_dup_join( kernels_t &groups,
                     head_next->dst = dst;
                     joink( head_next );
                     src = dst;
-                    head_next = next;
+                    head_next = head_next->next;
                 }
                 /** now need to link chain to current join **/
                 //src already alloced
-- 
2.43.0


From 3b8c659e50fed9035612a64a3aa2ed175f5a4add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:52 +0000
Subject: [PATCH 14/44] fix: keep every link when a chain is appended to or
 preceded by another

---
 raftinc/kpair.hpp |  5 +++++
 src/kpair.cpp     | 39 ++++++++++++++++++++++++++++++---------
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/raftinc/kpair.hpp b/raftinc/kpair.hpp
index 2e64b2d..b664fca 100644
--- a/raftinc/kpair.hpp
+++ b/raftinc/kpair.hpp
@@ -108,6 +108,11 @@ public:
     void setOoO() noexcept;
 
 protected:
+    /** last pair of the chain that this pair is part of **/
+    kpair* tail() noexcept;
+    /** set head for this pair and all of those that follow it **/
+    void   setHead( kpair * const new_head ) noexcept;
+
     kpair        *next          = nullptr;
     kpair        *head          = nullptr;
     raft::kernel *src           = nullptr;
diff --git a/src/kpair.cpp b/src/kpair.cpp
index 690efa6..e98a5b7 100644
--- a/src/kpair.cpp
+++ b/src/kpair.cpp
@@ -38,10 +38,10 @@ kpair::kpair( raft::kernel_wrapper &a,
 kpair::kpair( kpair &a, 
               raft::kernel &b,
               const bool split,
-              const bool join ) : kpair( *(a.dst), b )
+              const bool join ) : kpair( *(a.tail()->dst), b )
 {
     head        = a.head;
-    a.next  = this;
+    a.tail()->next = this;
     split_to    = split;
     join_from   = join;
 }
@@ -59,10 +59,10 @@ kpair::kpair( kpair &a,
 kpair::kpair( raft::kernel &a,
               kpair        &n, 
               const bool split,
-              const bool join ) : kpair( a, *(n.src) )
+              const bool join ) : kpair( a, *(n.head->src) )
 {
-    head        = this;
-    next        = &n;
+    next        = n.head;
+    next->setHead( this );
     split_to    = split;
     join_from   = join;
 }
@@ -76,12 +76,12 @@ kpair::kpair( raft::kernel_wrapper &a,
 kpair::kpair( kpair &a,
               kpair &b, 
               const bool split,
-              const bool join ) : kpair( *(a.dst), *(b.src) )
+              const bool join ) : kpair( *(a.tail()->dst), *(b.head->src) )
 {
     head = a.head;
-    a.next = this;
-    b.head = a.head;
-    next = &b;
+    a.tail()->next = this;
+    next = b.head;
+    next->setHead( a.head );
     split_to  = split;
     join_from = join;
 }
@@ -130,6 +130,27 @@ kpair::setOoO() noexcept
     return;
 }
 
+kpair*
+kpair::tail() noexcept
+{
+    auto *pair( this );
+    while( pair->next != nullptr )
+    {
+        pair = pair->next;
+    }
+    return( pair );
+}
+
+void
+kpair::setHead( kpair * const new_head ) noexcept
+{
+    for( auto *pair( this ); pair != nullptr; pair = pair->next )
+    {
+        pair->head = new_head;
+    }
+    return;
+}
+
 kpair& 
 operator >> ( raft::kernel &a, raft::kernel &b )
 {
-- 
2.43.0


From 672601fe60e5555ba6e30572101dcf106f7e1723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 15/44] fix: regroup by the enclosing split after joining a
 nested one

---
 src/map.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/map.cpp b/src/map.cpp
index 81fa261..3f61d52 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -520,6 +520,12 @@ raft::map::inline_join( split_stack_t &split_stack,
                         kernels_t     &temp_groups,
                         kpair * const next )
 {
+    /** 
+     * this closes the innermost split, the kernels that result make up 
+     * groups as wide as the split that encloses it.
+     */
+    split_stack.pop();
+    const std::size_t width( split_stack.empty() ? 1 : split_stack.top() );
     /** need to get the count **/
     std::size_t count( 0 );
     /**
@@ -553,7 +559,7 @@ raft::map::inline_join( split_stack_t &split_stack,
         if( count <= 0 )
         {
             temp_groups.push_back( up_group_t( new group_t() ) );
-            count = split_stack.top();
+            count = width;
         }
         if( temp_groups[ 0 ]->size() == 0 )
         {
@@ -577,7 +583,6 @@ raft::map::inline_join( split_stack_t &split_stack,
         }
         count--;
     }
-    split_stack.pop();
 }
 
 
-- 
2.43.0


From b252856a92da532d13a9aedcca27bd4a96522e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 16/44] fix: a link that is refused leaves the buffer size of
 the existing one

---
 raftinc/mapbase.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/raftinc/mapbase.hpp b/raftinc/mapbase.hpp
index afb0864..29e6cdf 100644
--- a/raftinc/mapbase.hpp
+++ b/raftinc/mapbase.hpp
@@ -107,7 +107,6 @@ public:
         {
             port_info_a =  &a->output.getPortInfoFor( a_port );
         }
-        port_info_a->fixed_buffer_size = buffer;
         /**
          * START dst port discovery
          */
@@ -130,13 +129,15 @@ public:
         {
             port_info_b = &b->input.getPortInfoFor( b_port );
         }
-        port_info_b->fixed_buffer_size = buffer;
         
         assert( port_info_a != nullptr );
         assert( port_info_b != nullptr );
 
         join( *a, a_port, *port_info_a, 
               *b, b_port, *port_info_b );
+        /** set these after join, the ports could belong to another link if it throws **/
+        port_info_a->fixed_buffer_size = buffer;
+        port_info_b->fixed_buffer_size = buffer;
         
         set_order< t >( *port_info_a, *port_info_b ); 
         return( kernel_pair_t( a, b ) );
-- 
2.43.0


From d7c5feb06449338593e13398b2421934aeccac81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 17/44] fix: the map deletes kernels made for an expression
 that can't be added

---
 raftinc/map.hpp |  9 +++++++++
 src/map.cpp     | 34 +++++++++++++++++++++++++++-------
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/raftinc/map.hpp b/raftinc/map.hpp
index 5774d02..8ca2812 100644
--- a/raftinc/map.hpp
+++ b/raftinc/map.hpp
@@ -191,6 +191,15 @@ protected:
      */
     void joink( kpair * const next );
 
+   /**
+    * adopt - the map deletes this kernel if it has been allocated 
+    * internally (i.e., by kernel::make or by clone), whether or
+    * not it ends up linked.
+    * @param    k - raft::kernel* const
+    * @return   raft::kernel*, k
+    */
+   raft::kernel* adopt( raft::kernel * const k );
+
    /**
     * checkEdges - runs a breadth first search through the graph
     * to look for disconnected edges.
diff --git a/src/map.cpp b/src/map.cpp
index 3f61d52..e013f3d 100644
--- a/src/map.cpp
+++ b/src/map.cpp
@@ -181,6 +181,16 @@ raft::map::enableDuplication( kernelkeeper &source, kernelkeeper &all )
    all.release();
 }
 
+raft::kernel*
+raft::map::adopt( raft::kernel * const k )
+{
+    if( k->internal_alloc )
+    {
+        internally_created_kernels += k;
+    }
+    return( k );
+}
+
 void
 raft::map::joink( kpair * const next )
 {
@@ -214,6 +224,16 @@ raft::map::operator += ( kpair &p )
     kpair *next = pair->head;
     assert( next != nullptr );
     
+    /** 
+     * kernels made within this expression belong to the map from here 
+     * on, even if one of the links can't be made.
+     */
+    for( const auto *k( next ); k != nullptr; k = k->next )
+    {
+        adopt( k->src );
+        adopt( k->dst );
+    }
+
     /** init return struct **/
     kernel_pair_t ret_kernel_pair;
     
@@ -429,7 +449,7 @@ raft::map::inline_cont( kernels_t &groups,
             }
             else
             {
-                auto * const dst_clone( next->dst->clone() );
+                auto * const dst_clone( adopt( next->dst->clone() ) );
                 next->src = kernel;
                 next->dst = dst_clone;
                 joink( next );
@@ -483,7 +503,7 @@ raft::map::inline_split( split_stack_t &split_stack,
                     }
                     else
                     {
-                        auto * const dst_clone( next->dst->clone() );
+                        auto * const dst_clone( adopt( next->dst->clone() ) );
                         next->dst = dst_clone;
                         //dst name should be same as first
                         temp_groups.back()->emplace_back( dst_clone );
@@ -502,7 +522,7 @@ raft::map::inline_split( split_stack_t &split_stack,
                     next->src_name = it.name();
                     next->has_src_name = true;
                     //now we always need to clone
-                    auto * const dst_clone( next->dst->clone() );
+                    auto * const dst_clone( adopt( next->dst->clone() ) );
                     next->dst = dst_clone;
                     //dst name should be same as first
                     temp_groups.back()->emplace_back( dst_clone );
@@ -576,7 +596,7 @@ raft::map::inline_join( split_stack_t &split_stack,
             /**
              * we need to clone a kernel
              */
-            auto *temp_groups_k( next->dst->clone() );
+            auto *temp_groups_k( adopt( next->dst->clone() ) );
             next->dst = temp_groups_k;
             temp_groups.back()->emplace_back( temp_groups_k );
             joinfunc( group, next );
@@ -655,10 +675,10 @@ raft::map::inline_dup_join( kernels_t &groups,
                     if( src == nullptr )
                     {
                         /** clone the sosurce **/
-                        src = head_next->src->clone();
+                        src = adopt( head_next->src->clone() );
                         gp->emplace_back( src );
                     }
-                    auto *dst( head_next->dst->clone() );
+                    auto *dst( adopt( head_next->dst->clone() ) );
                     head_next->src = src;
                     head_next->dst = dst;
                     joink( head_next );
@@ -676,7 +696,7 @@ raft::map::inline_dup_join( kernels_t &groups,
             else /** only one kernel **/
             {
                 //need to duplicate source
-                next->src = next->src->clone();
+                next->src = adopt( next->src->clone() );
                 gp->emplace_back( next->src );
                 next->dst_name = port_it.name();
                 next->has_dst_name = true;
-- 
2.43.0


From fb0f9afa5d7de1c50b1c9e9d948cbd3577f777df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:26 +0000
Subject: [PATCH 18/44] fix: breadth-first traversal continues past an
 unconnected port

---
 src/graphtools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/graphtools.cpp b/src/graphtools.cpp
index ebec290..6bc6285 100644
--- a/src/graphtools.cpp
+++ b/src/graphtools.cpp
@@ -102,7 +102,6 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
    {
       auto *k( queue.front() );
       queue.pop();
-      if( k == nullptr ){ break; };
       /** iterate over all out-edges **/
       /** 1) get lock **/
       while( ! k->output.portmap.mutex_map.try_lock() )
@@ -135,7 +134,8 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
             throw PortException( ss.str() );
          }
          /** if the dst kernel hasn't been visited, visit it **/
-         if( visited_set.find( source.other_kernel ) == visited_set.end() )
+         if( source.other_kernel != nullptr && 
+             visited_set.find( source.other_kernel ) == visited_set.end() )
          {
             queue.push( source.other_kernel );
             visited_set.insert( source.other_kernel );
-- 
2.43.0


From 95ebe76833b834055015b01440d863cf2f98cc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:26 +0000
Subject: [PATCH 19/44] fix: traversal throws the exception for an unconnected
 port instead of aborting

---
 src/graphtools.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/graphtools.cpp b/src/graphtools.cpp
index 6bc6285..32d8606 100644
--- a/src/graphtools.cpp
+++ b/src/graphtools.cpp
@@ -124,7 +124,6 @@ GraphTools::__BFS( std::queue< raft::kernel* > &queue,
          else
          if( connected_error )
          {
-            assert( false );
             std::stringstream ss;
             ss << "Unconnected port detected at " <<
                common::printClassName( *k ) <<
-- 
2.43.0


From defd0618ba5821014f510221f21e9bdcc6af9a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:29 +0000
Subject: [PATCH 20/44] fix: number kernels over existing memory like all
 others

---
 src/kernel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernel.cpp b/src/kernel.cpp
index 64e2010..4f58954 100644
--- a/src/kernel.cpp
+++ b/src/kernel.cpp
@@ -24,6 +24,7 @@ kernel::kernel( void * const ptr,
    output( this, ptr, nbytes ),
    kernel_id( kernel::kernel_count )
 {
+   kernel_count++;
 }
 
 
-- 
2.43.0


From 57e60f6e0d0a61b0de74de710a42cff8299c85da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:32 +0000
Subject: [PATCH 21/44] fix: range writes only the values it was asked for

---
 raftinc/utility.hpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/raftinc/utility.hpp b/raftinc/utility.hpp
index 20eb7d5..9f804d3 100644
--- a/raftinc/utility.hpp
+++ b/raftinc/utility.hpp
@@ -61,29 +61,30 @@ range( const A a,
        const B b, 
        const common_t< A, B > delta = 1 )
 {
-  if( std::isless( a, b ) )
+  using value_t = common_t< A, B >;
+  const value_t start( static_cast< value_t >( a ) );
+  const value_t stop ( static_cast< value_t >( b ) );
+  if( start < stop )
   {
-     const auto cap( (b - a + delta) / delta );
+     const auto cap( static_cast< std::size_t >( (stop - start) / delta ) + 1 );
      common_v_t< A, B > out( cap );
-     auto index( 0 );
-     for( common_t< A, B > i( a ); 
-      std::islessequal( i, b + delta ); i += delta, index++ )
+     for( std::size_t index( 0 ); index < cap; index++ )
      {
-        out[ index ] = i;
+        out[ index ] = 
+            static_cast< value_t >( start + static_cast< value_t >( index ) * delta );
      }
-     return( std::move( out ) );
+     return( out );
   }
   else
   {
-     const auto cap( (a - b + delta ) / delta );
+     const auto cap( static_cast< std::size_t >( (start - stop) / delta ) + 1 );
      common_v_t< A, B > out( cap );
-     auto index( 0 );
-     for( common_t< A, B > i( a ); 
-      std::isgreaterequal( i, b - delta ); i -= delta, index++ )
+     for( std::size_t index( 0 ); index < cap; index++ )
      {
-        out[ index ] = i;
+        out[ index ] = 
+            static_cast< value_t >( start - static_cast< value_t >( index ) * delta );
      }
-     return( std::move( out ) );
+     return( out );
   }
 }
 }
-- 
2.43.0


From 6ba278c6d626ae1502d0af43448727027d6a2309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:32 +0000
Subject: [PATCH 22/44] fix: copying a stream signal copies its index

---
 src/signal.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index e996409..3f6fec9 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -28,7 +28,8 @@ Signal::Signal()
 
 Signal::Signal( const Signal &other )
 {
-   (this)->sig = other.sig;
+   (this)->sig   = other.sig;
+   (this)->index = other.index;
 }
 
 Signal& 
-- 
2.43.0


From 67c48b36bfaca1fe2d888578665b71933e2416ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:32 +0000
Subject: [PATCH 23/44] fix: the standard deviation of equal values is zero,
 not NaN

---
 raftinc/streamingstat.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/raftinc/streamingstat.tcc b/raftinc/streamingstat.tcc
index ace7255..96f3fec 100644
--- a/raftinc/streamingstat.tcc
+++ b/raftinc/streamingstat.tcc
@@ -64,7 +64,9 @@ public:
       const F a(  sum_square / (F) N );
       const F b( (F) sum / (F) N );
       const F b_squared( b * b );
-      return( std::sqrt( a - b_squared ) );
+      /** rounding can take the difference just below zero **/
+      const F variance( a - b_squared );
+      return( std::sqrt( variance > 0 ? variance : 0 ) );
    }
    
    
-- 
2.43.0


From b03036bfd29839b5caf0f22f2fd97eccc936cc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:39 +0000
Subject: [PATCH 24/44] fix: a random variate kernel asked for no values sends
 none

---
 raftinc/random.tcc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/raftinc/random.tcc b/raftinc/random.tcc
index 48f9e5a..59bc79a 100644
--- a/raftinc/random.tcc
+++ b/raftinc/random.tcc
@@ -77,6 +77,10 @@ public:
     {
         for( auto &p : output )
         {
+            if( count_of_sent >= N )
+            {
+                return( raft::stop );
+            }
             p.push( dist( gen ) );
             if( ++count_of_sent >= N )
             {
-- 
2.43.0


From 47a337bfb88ed03a7ff2fdafa9e384cfacbc0b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:44 +0000
Subject: [PATCH 25/44] fix: collecting recycled objects allows for forwarded
 ones not recycled yet

---
 src/schedule.cpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/schedule.cpp b/src/schedule.cpp
index d72f8f2..eda8c85 100644
--- a/src/schedule.cpp
+++ b/src/schedule.cpp
@@ -273,30 +273,24 @@ Schedule::fifo_gc( ptr_map_t * const in,
                    ptr_set_t * const out,
                    ptr_set_t * const peekset )
 {
-    auto in_begin( in->begin() ), in_end( in->end() );
-    auto out_beg( out->begin() ), out_end( out->end() );
-    while( out_beg != out_end )
+    for( auto &recycled : *in )
     {
-        if( (*out_beg) != (*in_begin).first )
+        const auto forwarded( out->find( recycled.first ) );
+        if( forwarded != out->end() )
         {
-            void * const ptr = reinterpret_cast< void* >( (*in_begin).first );
-            (*in_begin).second( ptr );
-            ++in_begin;
+            /** belongs to the kernel downstream now **/
+            out->erase( forwarded );
         }
         else
         {
-            ++out_beg;
-            ++in_begin;
+            recycled.second( reinterpret_cast< void* >( recycled.first ) );
         }
     }
-    while( in_begin != in_end )
-    {
-            void * const ptr = reinterpret_cast< void* >( (*in_begin).first );
-            (*in_begin).second( ptr );
-            ++in_begin;
-    }
+    /**
+     * anything left in out has been forwarded but not yet recycled, it
+     * must not be freed when it is.
+     */
     in->clear();
-    out->clear();
     peekset->clear();
     return;
 }
-- 
2.43.0


From 896b73ff48b6a01e07df255ef2c1e787ed4e0ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:02 +0000
Subject: [PATCH 26/44] fix: match forwarded and recycled objects by count,
 their memory may be reused within a firing

---
 raftinc/defs.hpp           |  8 ++++++--
 raftinc/ringbufferheap.tcc | 18 +++++++++++++-----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/raftinc/defs.hpp b/raftinc/defs.hpp
index 21df792..a74cd7a 100644
--- a/raftinc/defs.hpp
+++ b/raftinc/defs.hpp
@@ -116,9 +116,13 @@ namespace raft
 template < typename T > 
     using set_t = std::set< T >;
 
-using ptr_set_t = set_t< std::uintptr_t >;
+/**
+ * these count: the memory of an object forwarded and freed downstream 
+ * might hold the next object by the time the kernel recycles that one.
+ */
+using ptr_set_t = std::multiset< std::uintptr_t >;
 using recyclefunc_t = std::function< void( void * ) >;
-using ptr_map_t = std::map< std::uintptr_t, recyclefunc_t >;
+using ptr_map_t = std::multimap< std::uintptr_t, recyclefunc_t >;
 using ptr_t = std::uintptr_t;
 
 using core_id_t = std::int64_t;
diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 99edd4b..2ede7f2 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1204,11 +1204,10 @@ protected:
          T *item( reinterpret_cast< T* >( ptr ) );
          auto **b_ptr( reinterpret_cast< T** >( &buff_ptr->store[ write_index ] ) );
 
-         if( (this)->producer_data.out_peek->find(
-            reinterpret_cast< std::uintptr_t >( item ) ) != 
-                (this)->producer_data.out_peek->cend() )
+         if( (this)->producer_data.out_peek->erase(
+            reinterpret_cast< std::uintptr_t >( item ) ) > 0 )
          {
-            //this was from a previous peek call
+            //this was from a previous peek call, not ours any longer
             (this)->producer_data.out->insert( reinterpret_cast< std::uintptr_t >( item ) );
             *b_ptr = item;
          }
@@ -1288,6 +1287,11 @@ protected:
        * fix for bug #76 - jcb 18Nov2018
        * the object was allocated with new, so release its memory too
        */
+      if( (this)->consumer_data.in_peek != nullptr )
+      {
+         /** its address might be that of another object soon **/
+         (this)->consumer_data.in_peek->erase( reinterpret_cast< ptr_t >( head ) );
+      }
       delete( head );
       (this)->datamanager.exitBuffer( dm::pop );
    }
@@ -1345,7 +1349,11 @@ protected:
                       sizeof( T ) < sizeof( std::uintptr_t ) << 7 ?
                       sizeof( T ) : sizeof( std::uintptr_t ) << 7
                       >( **real_ptr );
-      (this)->consumer_data.in_peek->insert( reinterpret_cast< ptr_t >( **real_ptr ) );
+      const auto peeked( reinterpret_cast< ptr_t >( **real_ptr ) );
+      if( (this)->consumer_data.in_peek->count( peeked ) == 0 )
+      {
+         (this)->consumer_data.in_peek->insert( peeked );
+      }
       return;
       /**
        * exitBuffer() called when recycle is called, can't be sure the
-- 
2.43.0


From d3314692d101532cd9d3a2f1e2541f70d8a8fa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:32 +0000
Subject: [PATCH 27/44] fix: size() reads each end of the queue once, it was
 momentarily wrong while the other end moved

---
 raftinc/pointer.hpp                 | 12 +++++++
 raftinc/ringbufferheap_abstract.tcc | 56 +++++------------------------
 src/pointer.cpp                     | 10 ++++++
 3 files changed, 31 insertions(+), 47 deletions(-)

diff --git a/raftinc/pointer.hpp b/raftinc/pointer.hpp
index 498473a..37684a4 100644
--- a/raftinc/pointer.hpp
+++ b/raftinc/pointer.hpp
@@ -87,6 +87,16 @@ public:
     * @return  std::size_t
     */
    static std::size_t wrapIndicator( Pointer &ptr ) ;
+
+   /**
+    * moved - returns the total number of positions this pointer 
+    * has moved, the items in the queue are those that the write 
+    * pointer has moved and the read pointer has not. Unlike val 
+    * and the wrap indicator, which change one after the other, 
+    * it can be read while the pointer's thread moves it.
+    * @return  std::uint64_t
+    */
+   static std::uint64_t moved( Pointer &ptr ) ;
    
 private:
      std::uint64_t           a  = 0;
@@ -106,6 +116,8 @@ private:
 #ifdef JVEC_MACHINE    
      wrap_t    wrap_b  = 0;
 #endif    
+     /** positions moved in total, see moved **/
+     std::uint64_t           total   = 0;
     const    std::size_t      max_cap;
 };
 #endif /* END RAFTPOINTER_HPP */
diff --git a/raftinc/ringbufferheap_abstract.tcc b/raftinc/ringbufferheap_abstract.tcc
index c2c2c1b..e398e63 100644
--- a/raftinc/ringbufferheap_abstract.tcc
+++ b/raftinc/ringbufferheap_abstract.tcc
@@ -50,54 +50,16 @@ public:
          if( (this)->datamanager.notResizing() )
          {
             auto * const buff_ptr( (this)->datamanager.get() );
-TOP:      
-            const auto   wrap_write( Pointer::wrapIndicator( buff_ptr->write_pt  ) ),
-                         wrap_read(  Pointer::wrapIndicator( buff_ptr->read_pt   ) );
-
-            const auto   wpt( Pointer::val( buff_ptr->write_pt ) ), 
-                         rpt( Pointer::val( buff_ptr->read_pt  ) );
-            if( R_UNLIKELY (wpt == rpt) )
-            {
-               /** expect most of the time to be full **/
-               if( R_LIKELY( wrap_read < wrap_write ) )
-               {
-                  /** read before exit, buffer could be gone after **/
-                  const auto max_cap( buff_ptr->max_cap );
-                  (this)->datamanager.exitBuffer( dm::size );
-                  return( max_cap );
-               }
-               else if( wrap_read > wrap_write )
-               {
-                  /**
-                   * TODO, this condition is momentary, however there
-                   * is a better way to fix this with atomic operations...
-                   * or on second thought benchmarking shows the atomic
-                   * operations slows the queue down drastically so, perhaps
-                   * this is in fact the best of all possible returns (see 
-                   * Leibniz or Candide for further info).
-                   */
-                  raft::yield();
-                  goto TOP;
-               }
-               else
-               {
-                  (this)->datamanager.exitBuffer( dm::size );
-                  return( 0 );
-               }
-            }
-            else if( rpt < wpt )
-            {
-               (this)->datamanager.exitBuffer( dm::size );
-               return( wpt - rpt );
-            }
-            else if( rpt > wpt )
-            {
-               const auto max_cap( buff_ptr->max_cap );
-               (this)->datamanager.exitBuffer( dm::size );
-               return( max_cap - rpt + wpt ); 
-            }
+            /** 
+             * each end is read once, the other thread could be moving 
+             * it right now. Read end first so that it's never ahead.
+             */
+            const auto read(  Pointer::moved( buff_ptr->read_pt  ) );
+            const auto write( Pointer::moved( buff_ptr->write_pt ) );
+            const auto max_cap( buff_ptr->max_cap );
             (this)->datamanager.exitBuffer( dm::size );
-            return( 0 );
+            /** both ends could've moved if we're neither of their threads **/
+            return( write - read < max_cap ? write - read : max_cap );
          }
          (this)->datamanager.exitBuffer( dm::size );
          raft::yield();
diff --git a/src/pointer.cpp b/src/pointer.cpp
index e64120c..1e8c841 100644
--- a/src/pointer.cpp
+++ b/src/pointer.cpp
@@ -29,6 +29,7 @@ Pointer::Pointer(const std::size_t cap,
 #ifdef JVEC_MACHINE
     wrap_b = wrap_set;
 #endif    
+    total  = cap * wrap_set;
 }
 
 
@@ -40,6 +41,7 @@ Pointer::Pointer( Pointer &other,
 #ifdef JVEC_MACHINE
     b = val;
 #endif
+    total = other.total;
     return;
 }
 
@@ -79,6 +81,7 @@ Pointer::inc( Pointer &ptr )
       ptr.wrap_a++;
    }
 #endif
+   ptr.total++;
 }
 
 void
@@ -100,6 +103,13 @@ Pointer::incBy( Pointer &ptr,
       ptr.wrap_a++;
    }
 #endif
+   ptr.total += in;
+}
+
+std::uint64_t
+Pointer::moved( Pointer &ptr )
+{
+   return( ptr.total );
 }
 
 std::size_t 
-- 
2.43.0


From b1d8ecf3ab0e38e4d381100580110c63fd20bf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 28/44] fix: a split keeps the items there was no space for

---
 raftinc/split.tcc       | 7 ++++---
 raftinc/splitmethod.hpp | 8 +++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/raftinc/split.tcc b/raftinc/split.tcc
index bacb365..eaf8247 100644
--- a/raftinc/split.tcc
+++ b/raftinc/split.tcc
@@ -52,10 +52,11 @@ public:
       const auto avail( output_port.size() );
       auto range( output_port.template peek_range< T >( avail ) );
       /** split funtion selects a fifo using the appropriate split method **/
-      if( split_func.send( range, output ) )
+      const auto n_sent( split_func.send( range, output ) );
+      if( n_sent > 0 )
       {
-         /* recycle item */
-         output_port.recycle( avail );
+         /** recycle items sent, the others are for the next call **/
+         output_port.recycle( n_sent );
       }
       else
       {
diff --git a/raftinc/splitmethod.hpp b/raftinc/splitmethod.hpp
index eaf15f1..2fa7afd 100644
--- a/raftinc/splitmethod.hpp
+++ b/raftinc/splitmethod.hpp
@@ -62,12 +62,14 @@ public:
     * get it working.
     * @param   range - T&, autorelease object
     * @param   outputs - output port list
+    * @return  std::size_t, number of items sent from the front of range,
+    * which could be less than all of them if there's no space for more
     */
    template < class T   /* peek range obj,  */,
               typename std::enable_if<
                        ! std::is_base_of< autoreleasebase,
                                         T >::value >::type* = nullptr >
-      bool send( T &range, Port &outputs )
+      std::size_t send( T &range, Port &outputs )
    {
       auto * const fifo( select_fifo( outputs, sendtype ) );
       if( fifo != nullptr )
@@ -80,11 +82,11 @@ public:
          {
             fifo->push( range[ i ].ele, range[ i ].sig );
          }
-         return( true );
+         return( space_avail );
       }
       else
       {
-         return( false );
+         return( 0 );
       }
    }
 
-- 
2.43.0


From 1f45d2109f54c6f4a96d48567dbcdf42ba5e3895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 29/44] fix: existing memory has a signal and an index for
 every item

---
 raftinc/bufferdata.tcc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 000860b..47c8707 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -64,7 +64,7 @@ template < class T > struct Data< T,
    {
         assert( ptr != nullptr );
         (this)->store  = ptr;
-        (this)->signal = (Signal*)       calloc( 1,
+        (this)->signal = (Signal*)       calloc( max_cap,
                                                  sizeof( Signal ) );
         if( (this)->signal == nullptr )
         {
@@ -72,8 +72,11 @@ template < class T > struct Data< T,
            exit( EXIT_FAILURE );
         }
         
-        /** set index to be start_position **/
-        (this)->signal[ 0 ].index  = start_position; 
+        /** set index of every item, the first is start_position **/
+        for( std::size_t index( 0 ); index < max_cap; index++ )
+        {
+           (this)->signal[ index ].index = start_position + index; 
+        }
 
         /** allocate read and write pointers **/
         new ( &(this)->read_pt ) Pointer( max_cap );
@@ -227,15 +230,18 @@ template < class T >
    {
         assert( ptr != nullptr );
         (this)->store  = reinterpret_cast< type_t* >( ptr );
-        (this)->signal = (Signal*)       calloc( 1,
+        (this)->signal = (Signal*)       calloc( max_cap,
                                                  sizeof( Signal ) );
         if( (this)->signal == nullptr )
         {
            perror( "Failed to allocate signal queue!" );
            exit( EXIT_FAILURE );
         }
-        /** set index to be start_position **/
-        (this)->signal[ 0 ].index  = start_position; 
+        /** set index of every item, the first is start_position **/
+        for( std::size_t index( 0 ); index < max_cap; index++ )
+        {
+           (this)->signal[ index ].index = start_position + index; 
+        }
         /** allocate read and write pointers **/
         
         /** allocate read and write pointers **/
-- 
2.43.0


From a38497a0912eabfdd1e890485809cf67b2a6c37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 30/44] fix: a port over existing memory could get an empty
 share

---
 raftinc/bufferdata.tcc | 4 ++--
 raftinc/ringbuffer.tcc | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index 47c8707..fbec1a3 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -66,7 +66,7 @@ template < class T > struct Data< T,
         (this)->store  = ptr;
         (this)->signal = (Signal*)       calloc( max_cap,
                                                  sizeof( Signal ) );
-        if( (this)->signal == nullptr )
+        if( max_cap != 0 && (this)->signal == nullptr )
         {
            perror( "Failed to allocate signal queue!" );
            exit( EXIT_FAILURE );
@@ -232,7 +232,7 @@ template < class T >
         (this)->store  = reinterpret_cast< type_t* >( ptr );
         (this)->signal = (Signal*)       calloc( max_cap,
                                                  sizeof( Signal ) );
-        if( (this)->signal == nullptr )
+        if( max_cap != 0 && (this)->signal == nullptr )
         {
            perror( "Failed to allocate signal queue!" );
            exit( EXIT_FAILURE );
diff --git a/raftinc/ringbuffer.tcc b/raftinc/ringbuffer.tcc
index 37c814f..b7e573e 100644
--- a/raftinc/ringbuffer.tcc
+++ b/raftinc/ringbuffer.tcc
@@ -74,7 +74,7 @@ public:
         const std::size_t start_position)
         : RingBufferBase<T, type>()
     {
-        assert(length != 0);
+        /** length is zero if there are more ports than items **/
         T* ptrcast = reinterpret_cast<T*>(ptr);
         (this)->datamanager.set(
             new Buffer::Data<T, type>(ptrcast, length, start_position));
-- 
2.43.0


From 1625453456a965617b36b6f0cda15525d1d7a02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 31/44] fix: for_each without a number of ports divides by zero

---
 raftinc/foreach.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/raftinc/foreach.tcc b/raftinc/foreach.tcc
index 571ba98..8dc2854 100644
--- a/raftinc/foreach.tcc
+++ b/raftinc/foreach.tcc
@@ -31,7 +31,8 @@ public:
                                                       nitems * sizeof( T ) )
    {
       /** if nports == 0, then runtime will specify **/
-      output.addInPlacePorts< T >( nports ); 
+      /** TODO, the runtime doesn't yet, so it's a single port **/
+      output.addInPlacePorts< T >( nports == 0 ? 1 : nports ); 
       /** no input ports since we're using the existing allocation **/
    }
    
-- 
2.43.0


From dd892b6b2d1efd3e85dfff0328b13740972fc8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 32/44] fix: objects in existing memory belong to its owner,
 don't destroy them

---
 raftinc/ringbufferheap.tcc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 2ede7f2..3d1d4d9 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -598,7 +598,10 @@ protected:
          auto *ptr =
             reinterpret_cast< T* >( &( buff_ptr->store[ read_index ] ) );
          /** call destructor direct, faster than recyle func **/
-         ptr->~T();
+         if( ! buff_ptr->external_alloc /** otherwise it's not ours **/ )
+         {
+            ptr->~T();
+         }
          Pointer::inc( buff_ptr->read_pt );
          (this)->datamanager.exitBuffer( dm::recycle );
       }while( --range > 0 );
@@ -808,7 +811,10 @@ protected:
        * #76 -jcb 18Nov2018
        * - applying same fix to out-of-band objects
        */
-      ( &buff_ptr->store[ read_index ] )->~T();
+      if( ! buff_ptr->external_alloc /** otherwise it's not ours **/ )
+      {
+         ( &buff_ptr->store[ read_index ] )->~T();
+      }
       /** only increment here b/c we're actually reading an item **/
       (this)->consumer_data.read_stats->bec.count++;
       Pointer::inc( buff_ptr->read_pt );
-- 
2.43.0


From e8529f7e79f3322d782f835c3d26744de34052de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:31 +0000
Subject: [PATCH 33/44] fix: queues over an array of large objects point to its
 elements

---
 raftinc/bufferdata.tcc     | 26 +++++++++++++++++++------
 raftinc/ringbufferheap.tcc | 40 +++++++++++++++++++++++---------------
 2 files changed, 44 insertions(+), 22 deletions(-)

diff --git a/raftinc/bufferdata.tcc b/raftinc/bufferdata.tcc
index fbec1a3..da9f74f 100644
--- a/raftinc/bufferdata.tcc
+++ b/raftinc/bufferdata.tcc
@@ -229,7 +229,17 @@ template < class T >
          const std::size_t start_position ) : ourtype_t( max_cap )
    {
         assert( ptr != nullptr );
-        (this)->store  = reinterpret_cast< type_t* >( ptr );
+        /** the queue is one of pointers, so point to each of the items **/
+        (this)->store  = (type_t*) malloc( (this)->length_store );
+        if( max_cap != 0 && (this)->store == nullptr )
+        {
+           perror( "Failed to allocate pointers to existing memory!" );
+           exit( EXIT_FAILURE );
+        }
+        for( std::size_t index( 0 ); index < max_cap; index++ )
+        {
+           (this)->store[ index ] = ptr + index;
+        }
         (this)->signal = (Signal*)       calloc( max_cap,
                                                  sizeof( Signal ) );
         if( max_cap != 0 && (this)->signal == nullptr )
@@ -333,15 +343,19 @@ template < class T >
 
    virtual ~Data()
    {
-      //FREE USED HERE
-      if( ! (this)->external_alloc )
-      {
+      //FREE USED HERE, only pointers so it's ours even with external_alloc
 #if (defined _WIN64 ) || (defined _WIN32) 
+      if( (this)->external_alloc )
+      {
+         free( (this)->store );
+      }
+      else
+      {
 		 _aligned_free( (this)->store );
+      }
 #else
-         free( (this)->store );
+      free( (this)->store );
 #endif
-      }
       free( (this)->signal );
    }
 
diff --git a/raftinc/ringbufferheap.tcc b/raftinc/ringbufferheap.tcc
index 3d1d4d9..75f35c0 100644
--- a/raftinc/ringbufferheap.tcc
+++ b/raftinc/ringbufferheap.tcc
@@ -1050,20 +1050,23 @@ protected:
          auto **ptr( reinterpret_cast< void** >( &( buff_ptr->store[ read_index ] ) )
          );
 
-         (this)->consumer_data.in->insert(
-            std::make_pair( reinterpret_cast< std::uintptr_t >( *ptr ),
-                            []( void * ptr )
-                            {
-                                auto *actual_ptr(
-                                    reinterpret_cast< T* >( ptr )
-                                );
-                                /** 
-                                 * bugfix for issue #37, memory leak, copy paste
-                                 * error resulted in destructor being called, but
-                                 * no deallocate. - jcb 15 July 2017
-                                 */
-                                delete( actual_ptr );
-                            } ) );
+         if( ! buff_ptr->external_alloc /** otherwise it's not ours **/ )
+         {
+            (this)->consumer_data.in->insert(
+               std::make_pair( reinterpret_cast< std::uintptr_t >( *ptr ),
+                               []( void * ptr )
+                               {
+                                   auto *actual_ptr(
+                                       reinterpret_cast< T* >( ptr )
+                                   );
+                                   /** 
+                                    * bugfix for issue #37, memory leak, copy paste
+                                    * error resulted in destructor being called, but
+                                    * no deallocate. - jcb 15 July 2017
+                                    */
+                                   delete( actual_ptr );
+                               } ) );
+         }
          Pointer::inc( buff_ptr->read_pt );
          (this)->datamanager.exitBuffer( dm::recycle );
       }while( --range > 0 );
@@ -1298,7 +1301,10 @@ protected:
          /** its address might be that of another object soon **/
          (this)->consumer_data.in_peek->erase( reinterpret_cast< ptr_t >( head ) );
       }
-      delete( head );
+      if( ! buff_ptr->external_alloc /** otherwise it's not ours **/ )
+      {
+         delete( head );
+      }
       (this)->datamanager.exitBuffer( dm::pop );
    }
 
@@ -1356,7 +1362,9 @@ protected:
                       sizeof( T ) : sizeof( std::uintptr_t ) << 7
                       >( **real_ptr );
       const auto peeked( reinterpret_cast< ptr_t >( **real_ptr ) );
-      if( (this)->consumer_data.in_peek->count( peeked ) == 0 )
+      /** existing memory can't be forwarded, a push of it makes a copy **/
+      if( ! buff_ptr->external_alloc &&
+          (this)->consumer_data.in_peek->count( peeked ) == 0 )
       {
          (this)->consumer_data.in_peek->insert( peeked );
       }
-- 
2.43.0


From 53008fba8fd1774f568c09f2eea11b2be6f9278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 34/44] fix: write_each of large objects aborts

---
 raftinc/writeeach.tcc | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/raftinc/writeeach.tcc b/raftinc/writeeach.tcc
index 0f79c7d..f2bbacb 100644
--- a/raftinc/writeeach.tcc
+++ b/raftinc/writeeach.tcc
@@ -56,18 +56,15 @@ public:
             const auto avail_data( port.size() );
             static_assert( std::is_unsigned< decltype( avail_data ) >::value,
                             "avail_data size must be unsigned" );
-            if( avail_data != 0 )
+            using index_type = std::remove_const_t<decltype(avail_data)>;
+            for( index_type index( 0 ); index < avail_data; index++ )
             {
-                auto alldata( port.template peek_range< T >( avail_data ) );
-
-                using index_type = std::remove_const_t<decltype(avail_data)>;
-                for( index_type index( 0 ); index < avail_data; index++ )
-                {
-                   (*inserter) = alldata[ index ].ele;
-                   /** hope the iterator defined overloaded ++ **/
-                   ++inserter;
-                }
-                port.recycle( avail_data  );
+               /** one by one, peek_range doesn't work with large objects **/
+               (*inserter) = port.template peek< T >();
+               /** hope the iterator defined overloaded ++ **/
+               ++inserter;
+               port.unpeek();
+               port.recycle();
             }
         }
         return( raft::proceed );
-- 
2.43.0


From 328e14f2f86174e97e5db00634c7a301da455583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 35/44] fix: the file reader closes its file

---
 raftinc/fileio.tcc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/raftinc/fileio.tcc b/raftinc/fileio.tcc
index a1517a1..5051735 100644
--- a/raftinc/fileio.tcc
+++ b/raftinc/fileio.tcc
@@ -93,6 +93,14 @@ public:
       }
    }
 
+   /** the file is closed once, by the reader that opened it **/
+   filereader( const filereader &other ) = delete;
+
+   virtual ~filereader()
+   {
+      std::fclose( fp );
+   }
+
    virtual raft::kstatus run()
    {
       for( auto &port : output )
-- 
2.43.0


From 1d937144637507c63df33c67734b8bf7214fea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 36/44] fix: copying a file chunk copies its index

---
 raftinc/filechunk.tcc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/raftinc/filechunk.tcc b/raftinc/filechunk.tcc
index dcca9a1..f5713c6 100644
--- a/raftinc/filechunk.tcc
+++ b/raftinc/filechunk.tcc
@@ -36,6 +36,7 @@ template < std::size_t size = 65536 > struct filechunk
       std::memcpy( buffer, other.buffer, other.length + 1 /** cp null term **/ );
       start_position = other.start_position;
       length = other.length;
+      index  = other.index;
    }
    
    constexpr filechunk< size >& operator = ( const filechunk< size > &other )
@@ -45,6 +46,7 @@ template < std::size_t size = 65536 > struct filechunk
         std::memcpy( buffer, other.buffer, other.length + 1 /** cp null term **/ );
         start_position = other.start_position;
         length = other.length;
+        index  = other.index;
         return( *this );
    }
 #pragma pack( push, 1 )
-- 
2.43.0


From 7a057461234579346537dbd912d704982de099d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 37/44] fix: the file reader reads as many chunks as the file
 has

---
 raftinc/fileio.tcc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/raftinc/fileio.tcc b/raftinc/fileio.tcc
index 5051735..85108e2 100644
--- a/raftinc/fileio.tcc
+++ b/raftinc/fileio.tcc
@@ -83,13 +83,16 @@ public:
 
       /** get length in bytes **/
       length = st.st_size;
-      if(chunk_offset !=  0 )
+      /** 
+       * every chunk but the first starts with the last chunk_offset
+       * bytes of the one before it, an empty file is an empty chunk.
+       */
+      const std::int64_t max_length( chunktype::getChunkSize() - 1 );
+      const std::int64_t step( max_length - chunk_offset );
+      iterations = 1;
+      if( length > max_length )
       {
-        iterations = std::ceil( (float) length / (float) ( (chunktype::getChunkSize() - 1) - (chunk_offset - 1) ) );
-      }
-      else
-      {
-        iterations = std::ceil( (float) length / (float)( chunktype::getChunkSize() - 1 ) );
+         iterations += ( ( length - max_length ) + ( step - 1 ) ) / step;
       }
    }
 
@@ -130,7 +133,7 @@ public:
                   raft::eof );
             static_assert( std::is_signed< decltype( iterations ) >::value,
                            "iterations must be a signed type" );
-            if( --iterations < 0 )
+            if( --iterations <= 0 )
             {
                return( raft::stop );
             }
-- 
2.43.0


From 34af24411b5a8587193cf843ba23ef278e928ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 38/44] fix: search adds the position of the chunk twice

---
 raftinc/search.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/raftinc/search.tcc b/raftinc/search.tcc
index 80f000b..dd3d348 100644
--- a/raftinc/search.tcc
+++ b/raftinc/search.tcc
@@ -65,7 +65,7 @@ public:
                            term.begin(), term.end() );
          if( it != chunk.end() )
          {
-            const std::size_t loc( it.location() + chunk.start_position );
+            const std::size_t loc( it.location() );
             const std::size_t end( loc + term_length );
             output[ "0" ].push( std::make_pair( loc, end ) );
             it += 1;
-- 
2.43.0


From 968c3bcdaaa20f87e042120c93d4400765e90886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 39/44] fix: a copy of a print kernel has all its ports

---
 raftinc/print.tcc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/raftinc/print.tcc b/raftinc/print.tcc
index a36df07..61003b2 100644
--- a/raftinc/print.tcc
+++ b/raftinc/print.tcc
@@ -40,7 +40,8 @@ template< typename T > class printabstract : public raft::kernel,
 {
 public:
     printabstract( const std::size_t n_input_ports = 1 ) : raft::kernel(),
-                                                           raft::printbase()
+                                                           raft::printbase(),
+                                                           input_port_count( n_input_ports )
     {
         using index_type = std::remove_const_t< decltype( n_input_ports ) >;
         for( index_type index( 0 ); index < n_input_ports; index++ )
@@ -61,7 +62,8 @@ public:
     
     printabstract( std::ostream &stream, 
                    const std::size_t n_input_ports = 1 )  : raft::kernel(),
-                                                            raft::printbase()
+                                                            raft::printbase(),
+                                                            input_port_count( n_input_ports )
     {
         using index_type = std::remove_const_t< decltype( n_input_ports ) >;
         for( index_type index( 0 ); index < n_input_ports; index++ )
-- 
2.43.0


From 5f0c2d75c98a6faf954e56992a55b1225888c7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:00 +0000
Subject: [PATCH 40/44] fix: a kernel's thread knows its core before it starts

The thread was started by the constructor, before its core was stored.
---
 raftinc/simpleschedule.hpp | 12 ++++++++----
 src/simpleschedule.cpp     |  4 ++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/raftinc/simpleschedule.hpp b/raftinc/simpleschedule.hpp
index a0171d8..3cefeb7 100644
--- a/raftinc/simpleschedule.hpp
+++ b/raftinc/simpleschedule.hpp
@@ -46,8 +46,10 @@ protected:
    struct thread_data
    {
       constexpr thread_data( raft::kernel * const k,
-                             bool *fin ) : k( k ),
-                                           finished( fin ){}
+                             bool *fin,
+                             const core_id_t loc ) : k( k ),
+                                                     finished( fin ),
+                                                     loc( loc ){}
 
       raft::kernel *k         = nullptr;
       bool         *finished  = nullptr;
@@ -56,8 +58,10 @@ protected:
    
    struct thread_info_t
    {
-      thread_info_t( raft::kernel * const kernel ) : data( kernel, 
-                                                           &finished ),
+      thread_info_t( raft::kernel * const kernel,
+                     const core_id_t loc ) : data( kernel, 
+                                                   &finished,
+                                                   loc ),
                                      th( simple_run,
                                          reinterpret_cast< void* >( &data ) )
       {
diff --git a/src/simpleschedule.cpp b/src/simpleschedule.cpp
index c26d164..e29138b 100644
--- a/src/simpleschedule.cpp
+++ b/src/simpleschedule.cpp
@@ -123,8 +123,8 @@ simple_schedule::handleSchedule( raft::kernel * const kernel )
       /** 
        * TODO: lets add the affinity dynamically here
        */
-      auto * const th_info( new thread_info_t( kernel ) );
-      th_info->data.loc = kernel->getCoreAssignment();
+      auto * const th_info( 
+         new thread_info_t( kernel, kernel->getCoreAssignment() ) );
 
       /** 
        * thread function takes a reference back to the scheduler
-- 
2.43.0


From 036d9beaf34c40ed1b9404abde8810a837c6cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:54 +0000
Subject: [PATCH 41/44] fix: links far apart in memory no longer share one
 count of waits

The dynamic allocator kept how often a queue's sender was held up under the
low 16 bits of the addresses of the link's ports, so in a map of some hundred
links two of them could share a count and one was doubled for the other.
---
 src/dynalloc.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/dynalloc.cpp b/src/dynalloc.cpp
index 8e7bd9f..fcc0668 100644
--- a/src/dynalloc.cpp
+++ b/src/dynalloc.cpp
@@ -46,18 +46,11 @@ dynalloc::~dynalloc()
 std::size_t
 dynalloc::hash( PortInfo &a, PortInfo &b )
 {
-   union{
-      std::size_t      all;
-      struct a_and_b{
-         std::uint32_t a;
-         std::uint32_t b;
-      } ab;
-   } u;
-   const auto ta( (std::uint64_t)(& a ) );
-   const auto tb( (std::uint64_t)(& b ) );
-   u.ab.a = ta & 0xffff;
-   u.ab.b = tb & 0xffff;
-   return( u.all );
+   UNUSED( b );
+   /** a port has one link at most, so its address is the link's as well **/
+   static_assert( sizeof( std::size_t ) >= sizeof( PortInfo* ), 
+                  "Error, the address of a port must fit the hash" );
+   return( reinterpret_cast< std::size_t >( &a ) );
 }
 
 
-- 
2.43.0


From 431badd1d383a5e5b25e2c507ba02d13f3a73fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:54 +0000
Subject: [PATCH 42/44] fix: the exception for a port linked twice names the
 port and its kernel

---
 src/mapbase.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mapbase.cpp b/src/mapbase.cpp
index 9b6bca2..ca2d025 100644
--- a/src/mapbase.cpp
+++ b/src/mapbase.cpp
@@ -80,13 +80,15 @@ MapBase::join( raft::kernel &a, const raft::port_key_type name_a, PortInfo &a_in
    }
    if( a_info.other_kernel != nullptr )
    {
-    //FIXME
-      throw PortDoubleInitializeException( "port double initialized with: " ); //+ std::to_string( name_b ) );
+      throw PortDoubleInitializeException( "port double initialized with: [" + 
+         a.output.getPortName( name_a ) + "], output of kernel \"" + 
+            common::printClassName( a ) + "\"" );
    }
    if( b_info.other_kernel != nullptr )
    {
-      //FIXME
-      throw PortDoubleInitializeException( "port double initialized with: " ); //+ std::to_string( name_a ) );
+      throw PortDoubleInitializeException( "port double initialized with: [" + 
+         b.input.getPortName( name_b ) + "], input of kernel \"" + 
+            common::printClassName( b ) + "\"" );
    }
    a_info.other_kernel = &b;
    a_info.other_name   = name_b;
-- 
2.43.0


From 289f10d2f4319db0492dc2c70378358616c4504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:54 +0000
Subject: [PATCH 43/44] fix: the exception for too many ports named on a kernel
 names both

---
 src/kernel.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kernel.cpp b/src/kernel.cpp
index 4f58954..7cb4a73 100644
--- a/src/kernel.cpp
+++ b/src/kernel.cpp
@@ -172,8 +172,8 @@ raft::kernel& kernel::operator []( const raft::port_key_type &&portname )
     else
     {
          throw AmbiguousPortAssignmentException(
-         //    "too many ports added with: " + portname.str
-             "too many ports added with: "
+             "too many ports added with: " + portname + 
+             " on kernel \"" + common::printClassName( *this ) + "\""
          );
     }
     return( (*this) );
@@ -187,8 +187,8 @@ raft::kernel& kernel::operator []( const raft::port_key_type &portname )
     else
     {
          throw AmbiguousPortAssignmentException(
-               //"too many ports added with: " + portname.str
-             "too many ports added with: "
+             "too many ports added with: " + portname + 
+             " on kernel \"" + common::printClassName( *this ) + "\""
          );
     }
     return( (*this) );
-- 
2.43.0


From bb7d5393936ae450a402c8d7b8fbf797e5e6ab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:10 +0000
Subject: [PATCH 44/44] fix: a queue grows to the number of slots its sender
 asked for at once

---
 src/dynalloc.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/dynalloc.cpp b/src/dynalloc.cpp
index fcc0668..d3e8f7b 100644
--- a/src/dynalloc.cpp
+++ b/src/dynalloc.cpp
@@ -90,6 +90,18 @@ dynalloc::run()
       }
 
       const auto hash_val( dynalloc::hash( a, b ) );
+      /**
+       * the sender asked for more slots than the queue has (see 
+       * allocate_range) and waits until it does. Nothing is written 
+       * while it waits, so the ratio below would never get there.
+       */
+      const auto suggested( a.getFIFO()->get_suggested_count() );
+      if( suggested > a.getFIFO()->capacity() )
+      {
+         a.getFIFO()->resize( suggested, ALLOC_ALIGN_WIDTH, exit_alloc );
+         size_map[ hash_val ] = 0;
+         return;
+      }
       /** TODO, the values might wrap if no monitoring on **/
       const auto realized_ratio( a.getFIFO()->get_frac_write_blocked() );
       const auto ratio( 0.8 );
-- 
2.43.0

