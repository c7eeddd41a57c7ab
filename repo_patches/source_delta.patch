From be8f1540d084e3a15fb7b0391be76758bb7d1a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 1/9] fix: queue::unsynchronized_push does not compile for
 fixed-sized queues

---
 include/boost/lockfree/queue.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index 19c950d..a6fdd76 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -376,22 +376,25 @@ public:
      * */
     bool unsynchronized_push( T const& t )
     {
-        node* n = pool.template construct< false, false >( t, pool.null_handle() );
+        node*       n           = pool.template construct< false, false >( t, pool.null_handle() );
+        handle_type node_handle = pool.get_handle( n );
 
         if ( n == NULL )
             return false;
 
         for ( ;; ) {
-            tagged_node_handle tail     = tail_.load( memory_order_relaxed );
-            tagged_node_handle next     = tail->next.load( memory_order_relaxed );
-            node*              next_ptr = next.get_ptr();
+            tagged_node_handle tail      = tail_.load( memory_order_relaxed );
+            node*              tail_node = pool.get_pointer( tail );
+            tagged_node_handle next      = tail_node->next.load( memory_order_relaxed );
+            node*              next_ptr  = pool.get_pointer( next );
 
             if ( next_ptr == 0 ) {
-                tail->next.store( tagged_node_handle( n, next.get_next_tag() ), memory_order_relaxed );
-                tail_.store( tagged_node_handle( n, tail.get_next_tag() ), memory_order_relaxed );
+                tail_node->next.store( tagged_node_handle( node_handle, next.get_next_tag() ), memory_order_relaxed );
+                tail_.store( tagged_node_handle( node_handle, tail.get_next_tag() ), memory_order_relaxed );
                 return true;
             } else
-                tail_.store( tagged_node_handle( next_ptr, tail.get_next_tag() ), memory_order_relaxed );
+                tail_.store( tagged_node_handle( pool.get_handle( next_ptr ), tail.get_next_tag() ),
+                             memory_order_relaxed );
         }
     }
 
-- 
2.43.0


From 4f6a22df77a4e6da6e11172bd554a1cf7f5d061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 2/9] fix: stack range push does not compile for fixed-sized
 stacks

---
 include/boost/lockfree/stack.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index f730020..7dc2193 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -292,7 +292,7 @@ private:
         }
 
         node* new_top_node = end_node;
-        end_node->next     = NULL;
+        end_node->next     = pool.null_handle();
 
         BOOST_TRY
         {
@@ -301,14 +301,14 @@ private:
                 node* newnode = pool.template construct< Threadsafe, Bounded >( *it );
                 if ( newnode == NULL )
                     break;
-                newnode->next = new_top_node;
+                newnode->next = pool.get_handle( new_top_node );
                 new_top_node  = newnode;
             }
         }
         BOOST_CATCH( ... )
         {
             for ( node* current_node = new_top_node; current_node != NULL; ) {
-                node* next = current_node->next;
+                node* next = pool.get_pointer( current_node->next );
                 pool.template destruct< Threadsafe >( current_node );
                 current_node = next;
             }
-- 
2.43.0


From f3814ca27e3948ca5233e37397cb1d0792a2f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 3/9] fix: stack range push dereferences the end iterator of an
 empty range

---
 include/boost/lockfree/stack.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index 7dc2193..96ad03e 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -284,6 +284,11 @@ private:
     template < bool Threadsafe, bool Bounded, typename ConstIterator >
     tuple< node*, node* > prepare_node_list( ConstIterator begin, ConstIterator end, ConstIterator& ret )
     {
+        if ( begin == end ) {
+            ret = begin;
+            return make_tuple< node*, node* >( NULL, NULL );
+        }
+
         ConstIterator it       = begin;
         node*         end_node = pool.template construct< Threadsafe, Bounded >( *it++ );
         if ( end_node == NULL ) {
-- 
2.43.0


From c7354176cd2561e1ab07a16d7ec569ab09b35147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 4/9] fix: freelist constructor leaks its nodes if an
 allocation fails

---
 include/boost/lockfree/detail/freelist.hpp | 41 +++++++++++++++-------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 0ce72f6..2d26722 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -15,6 +15,7 @@
 
 #include <boost/array.hpp>
 #include <boost/config.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/cstdint.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/static_assert.hpp>
@@ -53,15 +54,24 @@ public:
         Alloc( alloc ),
         pool_( tagged_node_ptr( NULL ) )
     {
-        for ( std::size_t i = 0; i != n; ++i ) {
-            T* node = Alloc::allocate( 1 );
-            std::memset( (void*)node, 0, sizeof( T ) );
+        BOOST_TRY
+        {
+            for ( std::size_t i = 0; i != n; ++i ) {
+                T* node = Alloc::allocate( 1 );
+                std::memset( (void*)node, 0, sizeof( T ) );
 #ifdef BOOST_LOCKFREE_FREELIST_INIT_RUNS_DTOR
-            destruct< false >( node );
+                destruct< false >( node );
 #else
-            deallocate< false >( node );
+                deallocate< false >( node );
 #endif
+            }
         }
+        BOOST_CATCH( ... )
+        {
+            free_nodes();
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
     }
 
     template < bool ThreadSafe >
@@ -118,14 +128,7 @@ public:
 
     ~freelist_stack( void )
     {
-        tagged_node_ptr current = pool_.load();
-
-        while ( current ) {
-            freelist_node* current_ptr = current.get_ptr();
-            if ( current_ptr )
-                current = current_ptr->next;
-            Alloc::deallocate( (T*)current_ptr, 1 );
-        }
+        free_nodes();
     }
 
     bool is_lock_free( void ) const
@@ -169,6 +172,18 @@ protected: // allow use from subclasses
     }
 
 private:
+    void free_nodes( void )
+    {
+        tagged_node_ptr current = pool_.load();
+
+        while ( current ) {
+            freelist_node* current_ptr = current.get_ptr();
+            if ( current_ptr )
+                current = current_ptr->next;
+            Alloc::deallocate( (T*)current_ptr, 1 );
+        }
+    }
+
     template < bool Bounded >
     T* allocate_impl( void )
     {
-- 
2.43.0


From 985a94ae5a3cb52d5d446d85197cc7b8f8f8f665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 5/9] fix: freelist loses a node if the constructor of an
 element throws

---
 include/boost/lockfree/detail/freelist.hpp | 75 +++++++++++++++++++---
 1 file changed, 66 insertions(+), 9 deletions(-)

diff --git a/include/boost/lockfree/detail/freelist.hpp b/include/boost/lockfree/detail/freelist.hpp
index 2d26722..ecd955c 100644
--- a/include/boost/lockfree/detail/freelist.hpp
+++ b/include/boost/lockfree/detail/freelist.hpp
@@ -88,8 +88,18 @@ public:
     T* construct( void )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T();
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T();
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -97,8 +107,18 @@ public:
     T* construct( ArgumentType const& arg )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T( arg );
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T( arg );
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -106,8 +126,18 @@ public:
     T* construct( ArgumentType1 const& arg1, ArgumentType2 const& arg2 )
     {
         T* node = allocate< ThreadSafe, Bounded >();
-        if ( node )
-            new ( node ) T( arg1, arg2 );
+        if ( node ) {
+            BOOST_TRY
+            {
+                new ( node ) T( arg1, arg2 );
+            }
+            BOOST_CATCH( ... )
+            {
+                deallocate< ThreadSafe >( node );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
+        }
         return node;
     }
 
@@ -458,7 +488,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T();
+        BOOST_TRY
+        {
+            new ( node ) T();
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
@@ -470,7 +509,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T( arg );
+        BOOST_TRY
+        {
+            new ( node ) T( arg );
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
@@ -482,7 +530,16 @@ public:
             return NULL;
 
         T* node = NodeStorage::nodes() + node_index;
-        new ( node ) T( arg1, arg2 );
+        BOOST_TRY
+        {
+            new ( node ) T( arg1, arg2 );
+        }
+        BOOST_CATCH( ... )
+        {
+            deallocate< ThreadSafe >( node_index );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         return node;
     }
 
-- 
2.43.0


From 60ffb82a45f78f59836d00c9a8e6f28f6f7b3841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 6/9] fix: stack loses nodes and elements if a functor or an
 element assignment throws

---
 include/boost/lockfree/stack.hpp | 86 +++++++++++++++++++++++++++++---
 1 file changed, 79 insertions(+), 7 deletions(-)

diff --git a/include/boost/lockfree/stack.hpp b/include/boost/lockfree/stack.hpp
index 96ad03e..734f3dd 100644
--- a/include/boost/lockfree/stack.hpp
+++ b/include/boost/lockfree/stack.hpp
@@ -281,6 +281,15 @@ private:
         tos.store( new_tos, memory_order_relaxed );
     }
 
+    void destruct_nodes( node* first )
+    {
+        while ( first ) {
+            node* next = pool.get_pointer( first->next );
+            pool.template destruct< true >( first );
+            first = next;
+        }
+    }
+
     template < bool Threadsafe, bool Bounded, typename ConstIterator >
     tuple< node*, node* > prepare_node_list( ConstIterator begin, ConstIterator end, ConstIterator& ret )
     {
@@ -519,7 +528,16 @@ public:
         tagged_node_handle new_tos( pool.get_handle( new_tos_ptr ), old_tos.get_next_tag() );
 
         tos.store( new_tos, memory_order_relaxed );
-        detail::copy_payload( old_tos_pointer->v, ret );
+        BOOST_TRY
+        {
+            detail::copy_payload( old_tos_pointer->v, ret );
+        }
+        BOOST_CATCH( ... )
+        {
+            pool.template destruct< false >( old_tos );
+            BOOST_RETHROW;
+        }
+        BOOST_CATCH_END
         pool.template destruct< false >( old_tos );
         return true;
     }
@@ -545,7 +563,16 @@ public:
             tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_next_tag() );
 
             if ( tos.compare_exchange_weak( old_tos, new_tos ) ) {
-                f( old_tos_pointer->v );
+                BOOST_TRY
+                {
+                    f( old_tos_pointer->v );
+                }
+                BOOST_CATCH( ... )
+                {
+                    pool.template destruct< true >( old_tos );
+                    BOOST_RETHROW;
+                }
+                BOOST_CATCH_END
                 pool.template destruct< true >( old_tos );
                 return true;
             }
@@ -566,7 +593,16 @@ public:
             tagged_node_handle new_tos( old_tos_pointer->next, old_tos.get_next_tag() );
 
             if ( tos.compare_exchange_weak( old_tos, new_tos ) ) {
-                f( old_tos_pointer->v );
+                BOOST_TRY
+                {
+                    f( old_tos_pointer->v );
+                }
+                BOOST_CATCH( ... )
+                {
+                    pool.template destruct< true >( old_tos );
+                    BOOST_RETHROW;
+                }
+                BOOST_CATCH_END
                 pool.template destruct< true >( old_tos );
                 return true;
             }
@@ -631,7 +667,16 @@ public:
 
         for ( ;; ) {
             node* node_pointer = pool.get_pointer( nodes_to_consume );
-            f( node_pointer->v );
+            BOOST_TRY
+            {
+                f( node_pointer->v );
+            }
+            BOOST_CATCH( ... )
+            {
+                destruct_nodes( node_pointer );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
             element_count += 1;
 
             node* next_node = pool.get_pointer( node_pointer->next );
@@ -671,7 +716,16 @@ public:
 
         for ( ;; ) {
             node* node_pointer = pool.get_pointer( nodes_to_consume );
-            f( node_pointer->v );
+            BOOST_TRY
+            {
+                f( node_pointer->v );
+            }
+            BOOST_CATCH( ... )
+            {
+                destruct_nodes( node_pointer );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
             element_count += 1;
 
             node* next_node = pool.get_pointer( node_pointer->next );
@@ -736,7 +790,16 @@ public:
 
         for ( ;; ) {
             node* node_pointer = pool.get_pointer( nodes_in_reversed_order );
-            f( node_pointer->v );
+            BOOST_TRY
+            {
+                f( node_pointer->v );
+            }
+            BOOST_CATCH( ... )
+            {
+                destruct_nodes( node_pointer );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
             element_count += 1;
 
             node* next_node = pool.get_pointer( node_pointer->next );
@@ -794,7 +857,16 @@ public:
 
         for ( ;; ) {
             node* node_pointer = pool.get_pointer( nodes_in_reversed_order );
-            f( node_pointer->v );
+            BOOST_TRY
+            {
+                f( node_pointer->v );
+            }
+            BOOST_CATCH( ... )
+            {
+                destruct_nodes( node_pointer );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
             element_count += 1;
 
             node* next_node = pool.get_pointer( node_pointer->next );
-- 
2.43.0


From 64da8b2b7bc63e784304e53a59b752355ab08c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:40 +0000
Subject: [PATCH 7/9] fix: spsc_queue delivers and destroys elements twice if a
 functor or an element copy throws

---
 include/boost/lockfree/spsc_queue.hpp | 97 ++++++++++++++++++++-------
 1 file changed, 72 insertions(+), 25 deletions(-)

diff --git a/include/boost/lockfree/spsc_queue.hpp b/include/boost/lockfree/spsc_queue.hpp
index 30a1e00..f8c6c3b 100644
--- a/include/boost/lockfree/spsc_queue.hpp
+++ b/include/boost/lockfree/spsc_queue.hpp
@@ -17,6 +17,7 @@
 #include <boost/assert.hpp>
 #include <boost/config.hpp> // for BOOST_LIKELY
 #include <boost/core/allocator_access.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/next_prior.hpp>
 #include <boost/static_assert.hpp>
 #include <boost/utility.hpp>
@@ -146,7 +147,17 @@ protected:
             const ConstIterator midpoint = boost::next( begin, count0 );
 
             std::uninitialized_copy( begin, midpoint, internal_buffer + write_index );
-            std::uninitialized_copy( midpoint, last, internal_buffer );
+            BOOST_TRY
+            {
+                std::uninitialized_copy( midpoint, last, internal_buffer );
+            }
+            BOOST_CATCH( ... )
+            {
+                for ( T* element = internal_buffer + write_index; element != internal_buffer + max_size; ++element )
+                    element->~T();
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
             new_write_index -= max_size;
         } else {
             std::uninitialized_copy( begin, last, internal_buffer + write_index );
@@ -213,12 +224,15 @@ protected:
             const size_t count0 = max_size - read_index;
             const size_t count1 = output_count - count0;
 
-            run_functor_and_delete( internal_buffer + read_index, internal_buffer + max_size, functor );
-            run_functor_and_delete( internal_buffer, internal_buffer + count1, functor );
+            run_functor_and_delete( internal_buffer + read_index, internal_buffer + max_size, functor, internal_buffer );
+            run_functor_and_delete( internal_buffer, internal_buffer + count1, functor, internal_buffer );
 
             new_read_index -= max_size;
         } else {
-            run_functor_and_delete( internal_buffer + read_index, internal_buffer + read_index + output_count, functor );
+            run_functor_and_delete( internal_buffer + read_index,
+                                    internal_buffer + read_index + output_count,
+                                    functor,
+                                    internal_buffer );
 
             if ( new_read_index == max_size )
                 new_read_index = 0;
@@ -248,12 +262,15 @@ protected:
             const size_t count0 = max_size - read_index;
             const size_t count1 = output_count - count0;
 
-            run_functor_and_delete( internal_buffer + read_index, internal_buffer + max_size, functor );
-            run_functor_and_delete( internal_buffer, internal_buffer + count1, functor );
+            run_functor_and_delete( internal_buffer + read_index, internal_buffer + max_size, functor, internal_buffer );
+            run_functor_and_delete( internal_buffer, internal_buffer + count1, functor, internal_buffer );
 
             new_read_index -= max_size;
         } else {
-            run_functor_and_delete( internal_buffer + read_index, internal_buffer + read_index + output_count, functor );
+            run_functor_and_delete( internal_buffer + read_index,
+                                    internal_buffer + read_index + output_count,
+                                    functor,
+                                    internal_buffer );
 
             if ( new_read_index == max_size )
                 new_read_index = 0;
@@ -282,12 +299,12 @@ protected:
             const size_t count0 = max_size - read_index;
             const size_t count1 = output_count - count0;
 
-            copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, output_buffer );
-            copy_and_delete( internal_buffer, internal_buffer + count1, output_buffer + count0 );
+            copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, output_buffer, internal_buffer );
+            copy_and_delete( internal_buffer, internal_buffer + count1, output_buffer + count0, internal_buffer );
 
             new_read_index -= max_size;
         } else {
-            copy_and_delete( internal_buffer + read_index, internal_buffer + read_index + output_count, output_buffer );
+            copy_and_delete( internal_buffer + read_index, internal_buffer + read_index + output_count, output_buffer, internal_buffer );
             if ( new_read_index == max_size )
                 new_read_index = 0;
         }
@@ -313,12 +330,12 @@ protected:
             const size_t count0 = max_size - read_index;
             const size_t count1 = avail - count0;
 
-            it = copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, it );
-            copy_and_delete( internal_buffer, internal_buffer + count1, it );
+            it = copy_and_delete( internal_buffer + read_index, internal_buffer + max_size, it, internal_buffer );
+            copy_and_delete( internal_buffer, internal_buffer + count1, it, internal_buffer );
 
             new_read_index -= max_size;
         } else {
-            copy_and_delete( internal_buffer + read_index, internal_buffer + read_index + avail, it );
+            copy_and_delete( internal_buffer + read_index, internal_buffer + read_index + avail, it, internal_buffer );
             if ( new_read_index == max_size )
                 new_read_index = 0;
         }
@@ -385,35 +402,65 @@ private:
     }
 
     template < class OutputIterator >
-    OutputIterator copy_and_delete( T* first, T* last, OutputIterator out )
+    OutputIterator copy_and_delete( T* first, T* last, OutputIterator out, T* internal_buffer )
     {
         if ( boost::has_trivial_destructor< T >::value ) {
             return std::copy( first, last, out ); // will use memcpy if possible
         } else {
-            for ( ; first != last; ++first, ++out ) {
-                *out = *first;
-                first->~T();
+            BOOST_TRY
+            {
+                for ( ; first != last; ++first, ++out ) {
+                    *out = *first;
+                    first->~T();
+                }
             }
+            BOOST_CATCH( ... )
+            {
+                // the elements before 'first' have been consumed
+                read_index_.store( first - internal_buffer, memory_order_release );
+                BOOST_RETHROW;
+            }
+            BOOST_CATCH_END
             return out;
         }
     }
 
     template < class Functor >
-    void run_functor_and_delete( T* first, T* last, Functor& functor )
+    void run_functor_and_delete( T* first, T* last, Functor& functor, T* internal_buffer )
     {
-        for ( ; first != last; ++first ) {
-            functor( *first );
-            first->~T();
+        BOOST_TRY
+        {
+            for ( ; first != last; ++first ) {
+                functor( *first );
+                first->~T();
+            }
+        }
+        BOOST_CATCH( ... )
+        {
+            // the elements before 'first' have been consumed
+            read_index_.store( first - internal_buffer, memory_order_release );
+            BOOST_RETHROW;
         }
+        BOOST_CATCH_END
     }
 
     template < class Functor >
-    void run_functor_and_delete( T* first, T* last, Functor const& functor )
+    void run_functor_and_delete( T* first, T* last, Functor const& functor, T* internal_buffer )
     {
-        for ( ; first != last; ++first ) {
-            functor( *first );
-            first->~T();
+        BOOST_TRY
+        {
+            for ( ; first != last; ++first ) {
+                functor( *first );
+                first->~T();
+            }
+        }
+        BOOST_CATCH( ... )
+        {
+            // the elements before 'first' have been consumed
+            read_index_.store( first - internal_buffer, memory_order_release );
+            BOOST_RETHROW;
         }
+        BOOST_CATCH_END
     }
 };
 
-- 
2.43.0


From 08a7eccc5bdd96a266af72a1e260925572cee616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:59 +0000
Subject: [PATCH 8/9] fix: queue::pop( U& ) converts only the element that was
 removed

The conversion ran before the compare-exchange that decides which thread gets
the element, so with an owning U (like std::unique_ptr) several threads took
ownership of the same element, or of a stale value of a recycled node.
---
 include/boost/lockfree/queue.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/boost/lockfree/queue.hpp b/include/boost/lockfree/queue.hpp
index a6fdd76..2ccb569 100644
--- a/include/boost/lockfree/queue.hpp
+++ b/include/boost/lockfree/queue.hpp
@@ -407,7 +407,7 @@ public:
      * */
     bool pop( T& ret )
     {
-        return pop< T >( ret );
+        return do_pop( ret );
     }
 
     /** Pops object from queue.
@@ -416,10 +416,22 @@ public:
      * \post if pop operation is successful, object will be copied to ret.
      * \returns true, if the pop operation is successful, false if queue was empty.
      *
-     * \note Thread-safe and non-blocking. Might modify return argument even if operation fails.
+     * \note Thread-safe and non-blocking.
      * */
     template < typename U >
     bool pop( U& ret )
+    {
+        // U may take ownership: only convert the element that this thread has removed from the queue
+        T element;
+        if ( !do_pop( element ) )
+            return false;
+        detail::copy_payload( element, ret );
+        return true;
+    }
+
+private:
+#ifndef BOOST_DOXYGEN_INVOKED
+    bool do_pop( T& ret )
     {
         for ( ;; ) {
             tagged_node_handle head     = head_.load( memory_order_acquire );
@@ -457,7 +469,9 @@ public:
             }
         }
     }
+#endif
 
+public:
     /** Pops object from queue.
      *
      * \post if pop operation is successful, object will be copied to ret.
-- 
2.43.0


From 2031f53c8b2406cc3da58f7480a898da76f32532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:05 +0000
Subject: [PATCH 9/9] fix: spsc_queue::pop delivered elements twice if an
 output iterator threw

For trivially destructible types an exception from the output iterator (or the
element's assignment) left the read index where it was, although the elements
before had been handed over.
---
 include/boost/lockfree/spsc_queue.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/lockfree/spsc_queue.hpp b/include/boost/lockfree/spsc_queue.hpp
index f8c6c3b..a4d24d1 100644
--- a/include/boost/lockfree/spsc_queue.hpp
+++ b/include/boost/lockfree/spsc_queue.hpp
@@ -23,8 +23,10 @@
 #include <boost/utility.hpp>
 #include <boost/utility/enable_if.hpp>
 
+#include <boost/type_traits/has_nothrow_assign.hpp>
 #include <boost/type_traits/has_trivial_destructor.hpp>
 #include <boost/type_traits/is_convertible.hpp>
+#include <boost/type_traits/is_pointer.hpp>
 
 #include <boost/lockfree/detail/atomic.hpp>
 #include <boost/lockfree/detail/copy_payload.hpp>
@@ -404,8 +406,9 @@ private:
     template < class OutputIterator >
     OutputIterator copy_and_delete( T* first, T* last, OutputIterator out, T* internal_buffer )
     {
-        if ( boost::has_trivial_destructor< T >::value ) {
-            return std::copy( first, last, out ); // will use memcpy if possible
+        if ( boost::has_trivial_destructor< T >::value && boost::has_nothrow_assign< T >::value
+             && boost::is_pointer< OutputIterator >::value ) {
+            return std::copy( first, last, out ); // cannot throw, will use memcpy if possible
         } else {
             BOOST_TRY
             {
-- 
2.43.0

