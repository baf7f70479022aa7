From 4de770f0eaed4b7d7df5096814903db424719d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 01/92] fix: string searches no longer read out of bounds or
 ignore pos

---
 src/estd/internal/runtime_array.h | 65 ++++++++++++++++---------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index a189959..23902d5 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -153,6 +153,8 @@ protected:
 
     ESTD_CPP_CONSTEXPR(14) bool starts_with(const_reference ch) const
     {
+        if(size() == 0) return false;
+
         const bool r = *clock(0, 1) == ch;
 
         cunlock();
@@ -170,7 +172,11 @@ protected:
 
     ESTD_CPP_CONSTEXPR(14) bool ends_with(const_reference ch) const
     {
-        const bool r = *clock(size() - 1, 1) == ch;
+        const size_type sz = size();
+
+        if(sz == 0) return false;
+
+        const bool r = *clock(sz - 1, 1) == ch;
 
         cunlock();
 
@@ -398,17 +404,19 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
-        const_pointer data = clock();
-        const_pointer end = data + size();
+        const size_type sz = size();
+
+        if(pos > sz || count > sz - pos) return npos;
 
-        data += pos;
+        const const_pointer data = clock();
+        const size_type last = sz - count;
 
-        for(const_pointer i = data; i != end; ++i)
+        for(size_type i = pos; i <= last; ++i)
         {
-            if(memcmp(s, i, count) == 0)
+            if(memcmp(s, data + i, count * sizeof(value_type)) == 0)
             {
                 cunlock();
-                return i - data;
+                return i;
             }
         }
 
@@ -428,37 +436,25 @@ public:
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
         const size_type sz = size();
-        if(pos >= sz) pos = sz - 1;
 
-        unsigned remainder = sz - pos;
-
-        // if remaining characters including & after pos wouldn't fit 's'
-        // i.e. "Hello" finding "llo" at pos 4 ("o" = remainder 1, count 3)
-        if(remainder < count)
-        {
-            // Make sure there's enough room to move backwards for a useful
-            // comparison
-            // i.e. "Hello" finding "llo" at pos 4 (can we move back 2 to pos=2 reach a new remainder of 3?)
-            if(pos < count - remainder) return npos;
-
-            // skip over compares that can't succeed where pos is too close
-            // to end
-            // i.e. "Hello" finding "llo" at pos 4 ("o") moves back 2
-            pos -= count - remainder;
-        }
+        // if 's' is longer than we are, it can't be present
+        if(count > sz) return npos;
 
-        const_pointer data = clock();
-        const_pointer rend = data - 1;
+        // skip over compares that can't succeed where pos is too close to end
+        // i.e. "Hello" finding "llo" at pos 4 ("o") moves back to 2
+        if(pos > sz - count) pos = sz - count;
 
-        data += pos;
+        const const_pointer data = clock();
 
-        for(; data != rend; --pos, --data)
+        for(;; --pos)
         {
-            if(memcmp(s, data, count) == 0)
+            if(memcmp(s, data + pos, count * sizeof(value_type)) == 0)
             {
                 cunlock();
                 return pos;
             }
+
+            if(pos == 0) break;
         }
 
         cunlock();
@@ -469,8 +465,12 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find_first_of(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
+        const size_type sz = size();
+
+        if(pos > sz) return npos;
+
         const_pointer data = clock();
-        const_pointer end = data + size();
+        const_pointer end = data + sz;
 
         const_pointer found = estd::find_first_of(data + pos, end, s, s + count);
 
@@ -482,7 +482,10 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find_last_of(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
-        if(pos == npos) pos = size() - 1;   // DEBT: I think this line should go back up to string
+        const size_type sz = size();
+
+        if(sz == 0) return npos;
+        if(pos >= sz) pos = sz - 1;
 
         const_pointer data = clock();
         const_pointer rend = data - 1;
-- 
2.43.0


From 364c3d0783a26bb059a4f6677e95b7bd39450838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 02/92] fix: starts_with finds a prefix as long as the string
 itself

---
 src/estd/internal/container/starts_with.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/container/starts_with.h b/src/estd/internal/container/starts_with.h
index dae9c13..14513f6 100644
--- a/src/estd/internal/container/starts_with.h
+++ b/src/estd/internal/container/starts_with.h
@@ -12,14 +12,16 @@ inline ESTD_CPP_CONSTEXPR(14) bool starts_with_n(It1 lhs, It2 rhs, int count_lhs
 {
     // DEBT: Using signed int here is fiddly, since incoming count likely won't be signed
 
-    while(count_lhs-- && count_rhs--)
+    // if compare_to is longer than we are, then it's a fail
+    if(count_rhs > count_lhs) return false;
+
+    while(count_rhs--)
         if(*lhs++ != *rhs++)
         {
             return false;
         }
 
-    // if compare_to is longer than we are, then it's also a fail
-    return count_lhs != -1;
+    return true;
 }
 
 
-- 
2.43.0


From 3a0e98202a5c889bb1f80fe43b0d94c4130a011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:14 +0000
Subject: [PATCH 03/92] fix: string compare orders lexicographically instead of
 by length

---
 src/estd/internal/string.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/string.h b/src/estd/internal/string.h
index 62974c3..5524e22 100644
--- a/src/estd/internal/string.h
+++ b/src/estd/internal/string.h
@@ -62,11 +62,12 @@ protected:
     {
         size_type raw_size = base_type::size();
 
-        if(raw_size < s_size) return -1;
-        if(raw_size > s_size) return 1;
+        const int r = helper::compare(*this, s, estd::min(raw_size, s_size));
 
-        // gets here if size matches
-        return helper::compare(*this, s, s_size);
+        if(r != 0) return r < 0 ? -1 : 1;
+
+        // gets here if one is a prefix of the other
+        return raw_size < s_size ? -1 : raw_size > s_size;
     }
 
     // +++ non-locking helpers, protected so only conforming child classes expose them
-- 
2.43.0


From 4517cc7f48d978b86c9cbf68411cfa4e8088135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:43 +0000
Subject: [PATCH 04/92] fix: string_view::substr clamps its count to the end of
 the view

---
 src/estd/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/string_view.h b/src/estd/string_view.h
index 2ed3669..a5bff94 100644
--- a/src/estd/string_view.h
+++ b/src/estd/string_view.h
@@ -112,7 +112,7 @@ public:
         basic_string_view copy(*this);
 
         copy.remove_prefix(pos);
-        if(count != base_type::npos)
+        if(count < copy.size())
         {
             allocator_type& a = copy.get_allocator();
 
-- 
2.43.0


From 5019a6a3b9e240d80ae14edb75db783d94604ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:43 +0000
Subject: [PATCH 05/92] fix: constant strings report empty() correctly

---
 src/estd/internal/impl/dynamic_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/impl/dynamic_array.h b/src/estd/internal/impl/dynamic_array.h
index c855988..a55b874 100644
--- a/src/estd/internal/impl/dynamic_array.h
+++ b/src/estd/internal/impl/dynamic_array.h
@@ -226,7 +226,7 @@ public:
 
     ESTD_CPP_CONSTEXPR_RET bool empty(const handle_descriptor& hd) const
     {
-        return hd.size() > 0;
+        return hd.size() == 0;
     }
 
     ESTD_CPP_CONSTEXPR_RET size_type size(const handle_descriptor& hd) const
-- 
2.43.0


From 59bbc865f52a3f078d13ec78855debff5c25d069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:20 +0000
Subject: [PATCH 06/92] fix: erasing from arrays of multi-byte elements moves
 whole elements

---
 src/estd/internal/dynamic_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 0e83625..b5260be 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -500,7 +500,7 @@ public:
         else
             impl().size(prev_size - count);
 
-        memmove(raw, raw + count, prev_size - (index + count));
+        memmove(raw, raw + count, (prev_size - (index + count)) * sizeof(value_type));
 
         unlock();
     }
-- 
2.43.0


From 45cc66d318d82f4cf40eb0841e039de65e790f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 07/92] fix: deque emplace_front prepends instead of
 overwriting the front element

---
 src/estd/queue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index 353d0b0..fa71d60 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -379,11 +379,12 @@ public:
     template <class ...TArgs>
     reference emplace_front(TArgs&&...args)
     {
+        decrement(&m_front);
+
         value_type& retval = *m_front;
 
         new (&retval) value_type(std::forward<TArgs>(args)...);
 
-        decrement(&m_front);
         m_empty = false;
 
         return retval;
-- 
2.43.0


From bd9c90cd6b84ee09639a5e8cf160db8ea8ae8635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:54 +0000
Subject: [PATCH 08/92] fix: a moved-to deque refers to its own storage

---
 src/estd/queue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index fa71d60..3c28ae9 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -191,9 +191,9 @@ public:
 #ifdef FEATURE_CPP_MOVESEMANTIC
     constexpr deque(deque&& move_from) :
         m_array(std::move(move_from.m_array)),
-        m_front(std::move(move_from.m_front)),
-        m_back(std::move(move_from.m_back)),
-        m_empty(std::move(move_from.m_empty))
+        m_front(m_array.begin() + (move_from.m_front - move_from.m_array.begin())),
+        m_back(m_array.begin() + (move_from.m_back - move_from.m_array.begin())),
+        m_empty(move_from.m_empty)
     {}
 #endif
     
-- 
2.43.0


From 7d3a06f83325985eaeb75e1c227f4265cb60d969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:42 +0000
Subject: [PATCH 09/92] fix: making a heap of an empty range does nothing

---
 src/estd/internal/algorithm/heap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/internal/algorithm/heap.h b/src/estd/internal/algorithm/heap.h
index 790770a..0249c30 100644
--- a/src/estd/internal/algorithm/heap.h
+++ b/src/estd/internal/algorithm/heap.h
@@ -162,6 +162,9 @@ struct heap
 
     void make()
     {
+        // nothing to order, and there's no first element to start from
+        if(empty()) return;
+
         int last_nonleaf_idx = (size() - 1) / k;
         // FIX: this is not sufficient, because restore_up doesn't evaluate all children
         //while(!restore_up());
-- 
2.43.0


From c1d56dacb789a0086dc395a49e83379b6c97a84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:36 +0000
Subject: [PATCH 10/92] fix: swapping an integer with itself keeps its value

---
 src/estd/utility.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/utility.h b/src/estd/utility.h
index 18090e2..df40ac8 100644
--- a/src/estd/utility.h
+++ b/src/estd/utility.h
@@ -195,6 +195,9 @@ namespace internal {
 template <class T>
 inline void xor_swap(T& a, T& b)
 {
+    // swapping something with itself would otherwise zero it
+    if(&a == &b) return;
+
     a ^= b;
     b ^= a;
     a ^= b;
-- 
2.43.0


From b3ce314312e76724149a676e53359823e36b41d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:24 +0000
Subject: [PATCH 11/92] fix: unordered containers check for their end before
 reading a slot

---
 src/estd/internal/container/unordered/base.h | 12 ++++++------
 src/estd/internal/container/unordered_map.h  |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 9be2a91..d0f42a6 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -93,7 +93,7 @@ protected:
     template <class It, class It2>
     static ESTD_CPP_CONSTEXPR(14) It skip_empty(It it, It2 end)
     {
-        for(; traits::is_empty(*it) && it != end; ++it)   {}
+        for(; it != end && traits::is_empty(*it); ++it)   {}
 
         return it;
     }
@@ -107,7 +107,7 @@ protected:
     template <class Control>
     ESTD_CPP_CONSTEXPR(14) Control skip_sparse(Control p, unsigned n) const
     {
-        for(; traits::is_sparse(*p, n) && p != container_.cend(); ++p)    {}
+        for(; p != container_.cend() && traits::is_sparse(*p, n); ++p)    {}
 
         return p;
     }
@@ -219,7 +219,7 @@ protected:
 
         // Move over occupied spots.  Sparse does NOT count as occupied
         // DEBT: optimize is_null/is_sparse together
-        for(;traits::is_empty(*it) == false; ++it)
+        for(;it == container_.cend() || traits::is_empty(*it) == false; ++it)
         {
             // if we get to the complete end, that's a fail
             // if we've moved to the next bucket, that's also a fail
@@ -389,7 +389,7 @@ protected:
 
             // skip over any sparse entries belonging to this bucket.  They are invisible
             // null entries for this iterator
-            for(; traits::is_sparse(*it_, n_) && it_ != parent_->container_.cend(); ++it_)   {}
+            for(; it_ != parent_->container_.cend() && traits::is_sparse(*it_, n_); ++it_)   {}
 
             return *this;
         }
@@ -456,13 +456,13 @@ protected:
 
         // No housekeeping if next guy is null (sparse is OK, but
         // not yet accounted for here)
-        if (base_type::is_empty(*pos))
+        if (pos == container_.cend() || base_type::is_empty(*pos))
             return;
 
         // Quick-deduce our bucket#
         size_type n = start - container_.cbegin();
         // Find last one in bucket
-        for(;n == index(traits::key(*pos)) && pos < container_.cend(); ++pos) {}
+        for(;pos < container_.cend() && n == index(traits::key(*pos)); ++pos) {}
         // Decrement to position on actual last one in bucket
         --pos;
 
diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index a9bda66..403845c 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -151,7 +151,7 @@ public:
     {
         --start;
 
-        for(; is_sparse(*pos, n) && pos != start; --pos)
+        for(; pos != start && is_sparse(*pos, n); --pos)
             gc_sparse_ll(pos);
     }
 
@@ -164,7 +164,7 @@ public:
 
         // get to end of identified bucket, skipping past sparse and active bucket items
         // DEBT: Be careful of index(0)
-        for(;(is_sparse(*pos, n) || index(pos->first) == n) && pos != container_.cend(); ++pos)
+        for(;pos != container_.cend() && (is_sparse(*pos, n) || index(pos->first) == n); ++pos)
         {
         }
 
-- 
2.43.0


From 240b96c7ef7f72c3d91630a6b7286e0a2f737ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:41 +0000
Subject: [PATCH 12/92] fix: erase_and_gc keeps the rest of the bucket
 reachable

---
 src/estd/internal/container/unordered/base.h | 25 +++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index d0f42a6..92e2f16 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -448,25 +448,22 @@ protected:
     // deviates from std in that other iterators part of this bucket could be invalidated
     void erase_and_gc_ll(control_pointer pos)
     {
-        auto start = pos;
+        const control_pointer start = pos;
+        control_pointer last = pos;
+        const size_type n = index(traits::key(*pos));
 
         destruct(pos);
 
-        ++pos;
-
-        // No housekeeping if next guy is null (sparse is OK, but
-        // not yet accounted for here)
-        if (pos == container_.cend() || base_type::is_empty(*pos))
-            return;
+        // Find last active one in bucket, passing over sparse ones
+        for(++pos; pos != container_.cend(); ++pos)
+        {
+            if(traits::is_sparse(*pos, n)) continue;
+            if(traits::is_empty(*pos) || index(traits::key(*pos)) != n) break;
 
-        // Quick-deduce our bucket#
-        size_type n = start - container_.cbegin();
-        // Find last one in bucket
-        for(;pos < container_.cend() && n == index(traits::key(*pos)); ++pos) {}
-        // Decrement to position on actual last one in bucket
-        --pos;
+            last = pos;
+        }
 
-        traits::swap(*pos, *start);
+        if(last != start)   traits::swap(*last, *start);
     }
 
 public:
-- 
2.43.0


From f91681462d512c76d3b81005e987cba21a141169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:41 +0000
Subject: [PATCH 13/92] fix: erased slots remember bucket numbers above 63

---
 src/estd/internal/container/unordered/traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index 7603817..322da7f 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -89,7 +89,7 @@ struct unordered_map_traits_control
             // aka "sparse" - exists specifically to mark as deleted, but physically unmoved
             uint16_t marked_for_gc : 1;
             // which bucket this empty slot *used to* belong to
-            uint16_t bucket : 6;
+            uint16_t bucket : 15;
         };
 
         uint16_t raw;
-- 
2.43.0


From 3d3365d50c709943f45820d3eb4135b319339145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:41 +0000
Subject: [PATCH 14/92] fix: unordered_map initializes and clears slots that
 hold nothing

---
 src/estd/internal/container/unordered/traits.h | 1 +
 src/estd/internal/container/unordered_map.h    | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index 322da7f..ebbd7a6 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -181,6 +181,7 @@ struct unordered_map_traits :
     static ESTD_CPP_CONSTEXPR(14) void set_null(control_type* v)
     {
         nullable{}.set(&v->first);
+        v->second.marked_for_gc = false;
     }
 
 private:
diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index 403845c..26e79f8 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -181,7 +181,11 @@ public:
 
     ESTD_CPP_CONSTEXPR(14) void clear()
     {
-        for(control_type& v : container_)   destruct(&v);
+        for(control_type& v : container_)
+        {
+            if(is_empty(v))     set_null(&v);
+            else                destruct(&v);
+        }
     }
 
     mapped_type& operator[](const key_type& key)
-- 
2.43.0


From 87c7c9e271a17dc12bc135502141719d8e86cb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:41 +0000
Subject: [PATCH 15/92] fix: inserting after an erase neither duplicates nor
 strands keys

---
 src/estd/internal/container/unordered/base.h  | 38 +++++++++++++++++--
 .../internal/container/unordered/traits.h     |  8 ++++
 2 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 92e2f16..92cd8e9 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -197,6 +197,24 @@ protected:
         return key_eq()(k, traits::key(c));
     }
 
+    ///
+    /// @param it null or sparse spot
+    /// @return true if 'it' is sparse and active items of its bucket follow
+    bool bucket_continues(const_control_pointer it) const
+    {
+        if(traits::is_null_not_sparse(*it)) return false;
+
+        const size_type n = traits::sparse_bucket(*it);
+
+        for(++it; it != container_.cend() && traits::is_null_not_sparse(*it) == false; ++it)
+        {
+            if(traits::is_empty(*it) == false)
+                return index(traits::key(*it)) == n;
+        }
+
+        return false;
+    }
+
     ///
     /// @tparam K
     /// @param key
@@ -216,15 +234,24 @@ protected:
         // linear probing
 
         control_pointer it = &container_[n];
+        // first sparse spot of this bucket.  Usable, but only once we know
+        // a duplicate isn't further along
+        control_pointer sparse = nullptr;
 
-        // Move over occupied spots.  Sparse does NOT count as occupied
+        // Move over occupied spots
         // DEBT: optimize is_null/is_sparse together
-        for(;it == container_.cend() || traits::is_empty(*it) == false; ++it)
+        for(;it == container_.cend() || traits::is_empty(*it) == false || traits::is_sparse(*it, n); ++it)
         {
+            if(it != container_.cend() && traits::is_empty(*it))
+            {
+                if(sparse == nullptr)   sparse = it;
+                continue;
+            }
+
             // if we get to the complete end, that's a fail
             // if we've moved to the next bucket, that's also a fail
             if(it == container_.cend() || index(base_type::key(*it)) != n)
-                return { nullptr, false };
+                return { sparse, sparse != nullptr };
             else if(!permit_duplicates)
             {
                 if(key_eq_c(key, *it))
@@ -237,6 +264,11 @@ protected:
             // but iterating through a bucket you can get to all of them (and more, likely)
         }
 
+        if(sparse != nullptr)   return { sparse, true };
+
+        // Sparse spot still holding another bucket together
+        if(bucket_continues(it))    return { nullptr, false };
+
         // Success, but someone else still needs to initialize 'it'
         return { it, true };
     }
diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index ebbd7a6..3696c53 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -152,6 +152,12 @@ struct unordered_map_traits :
         return is_empty(v) ? v.second.marked_for_gc == false : false;
     }
 
+    /// Which bucket a sparse item used to belong to
+    static constexpr unsigned sparse_bucket(const control_type& v)
+    {
+        return v.second.bucket;
+    }
+
     /// Determines if this ref is sparse - bucket must match also
     /// @param v
     /// @param n bucket#
@@ -232,6 +238,8 @@ struct unordered_set_traits : unordered_traits<Key, Key, Hash, KeyEqual ESTD_UNO
         return nullable{}.is_null(v);
     }
 
+    static constexpr bool is_null_not_sparse(const value_type& v) { return is_empty(v); }
+    static constexpr unsigned sparse_bucket(const value_type&) { return 0; }
     static constexpr bool is_sparse(const value_type&) { return false; }
     static constexpr bool is_sparse(const value_type&, unsigned) { return false; }
 
-- 
2.43.0


From db8ac19780f552966b5f1b09333894920e5730ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:41 +0000
Subject: [PATCH 16/92] fix: insert_or_assign assigns to the held value instead
 of constructing over it

---
 src/estd/internal/container/unordered_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index 26e79f8..955579d 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -286,7 +286,7 @@ public:
         {
             control_pointer cp = found.first;
             mapped_type& p = cp->second.mapped();
-            new (&p) mapped_type(std::forward<M>(obj));
+            p = std::forward<M>(obj);
             return { { this, cast(cp) }, true };
         }
         else
-- 
2.43.0


From 68e30190011c144edc8f5250b16b377853fbf2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:41 +0000
Subject: [PATCH 17/92] fix: unordered containers with the same keys compare
 equal in any order

---
 src/estd/internal/container/unordered/base.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 92cd8e9..0f3433c 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -605,9 +605,10 @@ ESTD_CPP_CONSTEXPR(14) bool operator==(const unordered_base<Container, Traits>&
     // DEBT: Not optimal, since we have to iterate inside size() to make this determination
     if(lhs.size() != rhs.size())    return false;
 
-    for(it l = lhs.begin(), r = rhs.begin(); l != lhs.cend(); ++l, ++r)
+    // Same keys may reside in a different order
+    for(it l = lhs.begin(); l != lhs.cend(); ++l)
     {
-        if(traits::key(*l) != traits::key(*r)) return false;
+        if(!rhs.contains(traits::key(*l))) return false;
     }
 
     return true;
-- 
2.43.0


From 92c8c21791362b5c5256ce8b16595c943ae32dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:42 +0000
Subject: [PATCH 18/92] fix: subspan without a count stops at the end of the
 span

---
 src/estd/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/span.h b/src/estd/span.h
index 83fe184..697de4f 100644
--- a/src/estd/span.h
+++ b/src/estd/span.h
@@ -200,7 +200,7 @@ public:
 
     span<element_type> subspan(size_type offset, size_type count = detail::dynamic_extent())
     {
-        if(count == detail::dynamic_extent::value) count = base_type::size();
+        if(count == detail::dynamic_extent::value) count = base_type::size() - offset;
 
         pointer data = base_type::data();
 
-- 
2.43.0


From e9d85d6796d02509f22fdebb3137fb6ee88dcfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:19 +0000
Subject: [PATCH 19/92] fix: forward_list remove takes out neighbouring matches

---
 src/estd/forward_list.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/estd/forward_list.h b/src/estd/forward_list.h
index 81ca246..6d47d94 100644
--- a/src/estd/forward_list.h
+++ b/src/estd/forward_list.h
@@ -223,8 +223,9 @@ public:
 
                 if (first_only) return;
             }
+            else
+                previous = current;
 
-            previous = current;
             current = _next;
         }
     }
@@ -265,8 +266,9 @@ public:
 
                 if(first_only) return;
             }
+            else
+                previous = current;
 
-            previous = current;
             current = _next;
         }
 #endif
-- 
2.43.0


From 8a261a30b43eb2c9f4c69b413647d9b8d6da82aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:19 +0000
Subject: [PATCH 20/92] fix: forward_list erase_after gives its node back

---
 src/estd/forward_list.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/forward_list.h b/src/estd/forward_list.h
index 6d47d94..c7bfb86 100644
--- a/src/estd/forward_list.h
+++ b/src/estd/forward_list.h
@@ -161,6 +161,8 @@ public:
 
         set_next(node_to_erase_after, node_following_erased);
 
+        get_traits().deallocate(node_to_erase);
+
         return iterator(node_following_erased, base_t::traits);
     }
 
-- 
2.43.0


From 6509523fcc183720ed31c0be346b3e12830f23e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:19 +0000
Subject: [PATCH 21/92] fix: forward list with back forgets its back when
 emptied

---
 src/estd/internal/list_node.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/estd/internal/list_node.h b/src/estd/internal/list_node.h
index ff5d4ba..49011ba 100644
--- a/src/estd/internal/list_node.h
+++ b/src/estd/internal/list_node.h
@@ -415,6 +415,15 @@ public:
         set_front(base_type::get_traits().allocate(value));
     }
 
+    void pop_front()
+    {
+        base_type::pop_front();
+
+        // popped the last one, so nothing is in back either
+        if(base_type::empty())
+            base_type::m_back = base_type::after_end_node();
+    }
+
 };
 
 }
-- 
2.43.0


From 64a8ecf3d4342f9a3134a45550f0aeeb5cdb15fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:20 +0000
Subject: [PATCH 22/92] fix: optional emplace leaves it empty when construction
 throws

---
 src/estd/optional.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/optional.h b/src/estd/optional.h
index 6a54c65..152d86c 100644
--- a/src/estd/optional.h
+++ b/src/estd/optional.h
@@ -231,7 +231,8 @@ public:
     template<class... TArgs>
     T& emplace(TArgs&&... args)
     {
-        base_type::destroy();
+        // becomes empty first, so that a throwing constructor leaves no stale value behind
+        base_type::reset();
 
         T& v = base_type::emplace(std::forward<TArgs>(args)...);
 
-- 
2.43.0


From 719d2e63b6e811ae928184db9a5f01683ff0924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:21 +0000
Subject: [PATCH 23/92] fix: non-trivial values held by variant, optional and
 expected are aligned

---
 src/estd/internal/variant/storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/variant/storage.h b/src/estd/internal/variant/storage.h
index 1fea032..5d60681 100644
--- a/src/estd/internal/variant/storage.h
+++ b/src/estd/internal/variant/storage.h
@@ -39,7 +39,7 @@ inline static monostate construct_at(void* placement, TArgs&&...args)
 template <class ...T>
 union variant_union<false, T...>
 {
-    estd::byte raw[sizeof(typename largest_type<T...>::type)];
+    alignas(T...) estd::byte raw[sizeof(typename largest_type<T...>::type)];
 };
 
 template <>
-- 
2.43.0


From 033dcdb1bcebd8306c9c3083d22564c72fa56666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 24/92] fix: a monostate is not unequal to another

---
 src/estd/internal/raw/variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/raw/variant.h b/src/estd/internal/raw/variant.h
index cd56269..51706af 100644
--- a/src/estd/internal/raw/variant.h
+++ b/src/estd/internal/raw/variant.h
@@ -8,7 +8,7 @@ namespace estd {
 struct monostate {};
 
 constexpr bool operator==(monostate, monostate) NOEXCEPT { return true; }
-constexpr bool operator!=(monostate, monostate) NOEXCEPT { return true; }
+constexpr bool operator!=(monostate, monostate) NOEXCEPT { return false; }
 
 template <>
 struct hash<monostate>
-- 
2.43.0


From 655e64b34697f848feefb81c117adb1135717037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 25/92] fix: variant emplace by index selects that index among
 repeated types

---
 src/estd/internal/variant.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/variant.h b/src/estd/internal/variant.h
index 6e98476..59afb77 100644
--- a/src/estd/internal/variant.h
+++ b/src/estd/internal/variant.h
@@ -363,9 +363,15 @@ public:
     template <unsigned I, class... TArgs>
     variant_alternative_t<I>& emplace(TArgs&&...args)
     {
-        typedef variant_alternative_t<I> T_i;
+        destroy_if_valid();
+
+        index_ = variant_npos();
 
-        return emplace<T_i>(std::forward<TArgs>(args)...);
+        auto* const v = base_type::template emplace<I>(std::forward<TArgs>(args)...);
+
+        index_ = I;
+
+        return *v;
     }
 };
 
-- 
2.43.0


From 18724d018d7ed7b9dc7291cdbee002f9d19c777a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 26/92] fix: a variant whose assignment throws does not claim a
 value it lost

---
 src/estd/internal/variant.h         | 8 ++++----
 src/estd/internal/variant/storage.h | 2 ++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/variant.h b/src/estd/internal/variant.h
index 59afb77..170efed 100644
--- a/src/estd/internal/variant.h
+++ b/src/estd/internal/variant.h
@@ -93,8 +93,7 @@ class variant : protected variant_storage<Types...>
             enable_if_t<is_copy_assignable<remove_const_t<T_i>>::value, bool> = true>
         bool operator()(variadic::visitor_instance<I, T_i> vi, variant& v, const variant& assign_from)
         {
-            size_type index = v.index();
-            v.template assign_or_init<I>(&index, vi.value);
+            v.template assign_or_init<I>(&v.index_, vi.value);
             return true;
         }
 
@@ -103,8 +102,7 @@ class variant : protected variant_storage<Types...>
             enable_if_t<is_move_assignable<remove_const_t<T_i>>::value, bool> = true>
         bool operator()(variadic::visitor_instance<I, T_i> vi, variant& v, variant&& assign_from)
         {
-            size_type index = v.index();
-            v.template assign_or_init<I>(&index, std::move(vi.value));
+            v.template assign_or_init<I>(&v.index_, std::move(vi.value));
             return true;
         }
 
@@ -116,6 +114,7 @@ class variant : protected variant_storage<Types...>
             // directly and not abort when index is found - however, that
             // breaks our burgeoning paradigm, so holding off
             v.destroy_if_valid();
+            v.index_ = variant_npos();
 
             v.template copy<I>(copy_from);
 
@@ -129,6 +128,7 @@ class variant : protected variant_storage<Types...>
         bool operator()(variadic::v1::visitor_index<I, T_i>, variant& v, variant&& move_from, bool = true)
         {
             v.destroy_if_valid();
+            v.index_ = variant_npos();
 
             v.template move<I>(std::move(move_from));
 
diff --git a/src/estd/internal/variant/storage.h b/src/estd/internal/variant/storage.h
index 5d60681..4cb94e0 100644
--- a/src/estd/internal/variant/storage.h
+++ b/src/estd/internal/variant/storage.h
@@ -514,6 +514,8 @@ public:
             // ... if not, destroy what we're tracking (if any) and
             // do a direct initialization
             destroy(*index);
+            // valueless until initialization succeeds
+            *index = variant_npos();
             direct_init_helper<I, T_j>(std::forward<U>(u));
             *index = I;
         }
-- 
2.43.0


From 41580d7ed213c5f90f0d1cace95873030b32b4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 27/92] fix: assigning a variant to itself keeps its value

---
 src/estd/internal/variant.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/estd/internal/variant.h b/src/estd/internal/variant.h
index 170efed..591d80e 100644
--- a/src/estd/internal/variant.h
+++ b/src/estd/internal/variant.h
@@ -310,6 +310,8 @@ public:
     // DEBT: Needs more work, but coming along
     variant& operator=(const variant& rhs)
     {
+        if(this == &rhs) return *this;
+
         if(rhs.valueless_by_exception())
         {
             destroy_if_valid();
@@ -329,6 +331,8 @@ public:
 
     variant& operator=(variant&& rhs)
     {
+        if(this == &rhs) return *this;
+
         if(rhs.valueless_by_exception())
         {
             destroy_if_valid();
-- 
2.43.0


From 7d3f68c20bb9a40a0b0a87255619bdf900b2f6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:30 +0000
Subject: [PATCH 28/92] fix: a variant whose re-initialization throws does not
 claim a value it lost

---
 src/estd/internal/variant/storage.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/internal/variant/storage.h b/src/estd/internal/variant/storage.h
index 4cb94e0..830a542 100644
--- a/src/estd/internal/variant/storage.h
+++ b/src/estd/internal/variant/storage.h
@@ -507,7 +507,10 @@ public:
         // Are we tracking the exact type being assigned?
         if(*index == I)
         {
+            // not assignable means destroyed and initialized anew
+            if(!is_assignable<T_j&, U>::value) *index = variant_npos();
             assignment_helper<I, T_j>(std::forward<U>(u));
+            *index = I;
         }
         else
         {
-- 
2.43.0


From c4538d30fcdee09d3b0c0e802971f540873341f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:08 +0000
Subject: [PATCH 29/92] fix: reading the value of a const expected compiles

---
 src/estd/expected.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/expected.h b/src/estd/expected.h
index b0b7fb6..1550d45 100644
--- a/src/estd/expected.h
+++ b/src/estd/expected.h
@@ -71,7 +71,7 @@ class expected : public internal::expected<T, E>
             base_type::destroy_error();
     }
 
-    void assert_has_value()
+    void assert_has_value() const
     {
         if(!has_value_)
 #if __cpp_exceptions
-- 
2.43.0


From f12858a4ba34649e87af422eaccbfb4f49e5f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:09 +0000
Subject: [PATCH 30/92] fix: a copied inline_function calls its own callable

---
 src/estd/functional.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index dc23f7e..b229e29 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -287,14 +287,20 @@ public:
 
     }
 
-    /*
-    inline_function(const inline_function& copy_from) = default;
+    // base refers to our own model, never to copy_from's
+    inline_function(const inline_function& copy_from) :
+        base_type(&m),
+        m(copy_from.m)
+    {
+
+    }
+
     inline_function(inline_function&& move_from) :
-        base_type(std::move(move_from)),
+        base_type(&m),
         m(std::move(move_from.m))
     {
 
-    } */
+    }
 };
 
 template <class TFunc, typename F>
-- 
2.43.0


From 4adf2bdb8723f3b010e24b64c9aced6c5f39040b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:10 +0000
Subject: [PATCH 31/92] fix: a shared_ptr copied after its master reset is
 counted

---
 src/estd/memory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/memory.h b/src/estd/memory.h
index 2bfdf37..c4c3063 100644
--- a/src/estd/memory.h
+++ b/src/estd/memory.h
@@ -309,7 +309,8 @@ public:
     shared_ptr2_base(estd::internal::shared_ptr_control_block<T>* master_shared_ptr) :
         base_type(master_shared_ptr)
     {
-        if(master_shared_ptr && master_shared_ptr->is_active)
+        // even if master itself already let go, we're one more holder
+        if(master_shared_ptr)
             master_shared_ptr->shared_count++;
     }
 
-- 
2.43.0


From eaaff66b5dabdb3a1ea0b804d871e6bea40387e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:10 +0000
Subject: [PATCH 32/92] fix: assigning a shared_ptr to itself keeps its
 reference

---
 src/estd/memory.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/memory.h b/src/estd/memory.h
index c4c3063..3d9495c 100644
--- a/src/estd/memory.h
+++ b/src/estd/memory.h
@@ -584,6 +584,9 @@ public:
     shared_ptr& operator=(TSharedPtr&
                          copy_from)
     {
+        // assigning to ourself keeps our reference
+        if((const void*)&copy_from == this) return *this;
+
         this->reset();
         new (this) shared_ptr(copy_from);
         return *this;
-- 
2.43.0


From e5fb5daf48f109de1616656452020d9528298340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:10 +0000
Subject: [PATCH 33/92] fix: moving the only linked_ref to a value keeps it
 linked to itself

---
 src/estd/internal/linked_ref.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/estd/internal/linked_ref.h b/src/estd/internal/linked_ref.h
index c8a0e28..35da551 100644
--- a/src/estd/internal/linked_ref.h
+++ b/src/estd/internal/linked_ref.h
@@ -89,6 +89,14 @@ public:
         // is superior here, but that's
         // 1. not implemented yet
         // 2. increases our footprint by ~33%
+        // sole member of its circle, so we become one
+        if(move_from.next_ == &move_from)
+        {
+            next_ = this;
+            move_from.next_ = nullptr;
+            return;
+        }
+
         list_type l(&move_from);
         const_iterator pos(l.before_begin().current_);
 
-- 
2.43.0


From 75155c41bbf2e4bd3986a2c2097170636198348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:06 +0000
Subject: [PATCH 34/92] fix: v2 memory pool counts its free list, not its tail

---
 src/estd/exp/memory/memory_pool2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/exp/memory/memory_pool2.h b/src/estd/exp/memory/memory_pool2.h
index d2a6d4c..442f54b 100644
--- a/src/estd/exp/memory/memory_pool2.h
+++ b/src/estd/exp/memory/memory_pool2.h
@@ -90,7 +90,7 @@ public:
         std::size_t count = 0;
 
         // TODO: Make a estd::accumulate
-        for(; i != items.end(); ++i, ++count);
+        for(; i != items.end(); i = i->next, ++count);
 
         return count;
     }
-- 
2.43.0


From c0103744bc4ed15c44eea91272f7756762177e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:39 +0000
Subject: [PATCH 35/92] fix: memory pool handles reach beyond the 128th block

---
 src/estd/internal/memory/v1/pool.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/memory/v1/pool.h b/src/estd/internal/memory/v1/pool.h
index 4e03e1a..6ee1f22 100644
--- a/src/estd/internal/memory/v1/pool.h
+++ b/src/estd/internal/memory/v1/pool.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include "../../raw/type_traits.h"
+
 // DEBT: Temporarily using 'internal' only as we bring it up
 namespace estd { namespace internal { namespace memory { inline namespace v1 {
 
@@ -137,12 +139,15 @@ public:
 
     static constexpr unsigned max_blocks() { return blocks; }
 
-    int8_t to_handle(void* value) const
+    // Wide enough for every block's index
+    using handle_type = estd::conditional_t<(blocks > 128), int, int8_t>;
+
+    handle_type to_handle(void* value) const
     {
         return ((control*)value - storage_);
     }
 
-    void* from_handle(int8_t handle)
+    void* from_handle(handle_type handle)
     {
         return &storage_[handle];
     }
@@ -174,7 +179,7 @@ public:
         base_type::free(t);
     }
 
-    T* from_handle(int8_t handle)
+    T* from_handle(typename base_type::handle_type handle)
     {
         return (T*)base_type::from_handle(handle);
     }
-- 
2.43.0


From 460cc1baf554eada282cc71a021819a55be01403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:01 +0000
Subject: [PATCH 36/92] fix: from_chars parses negative numbers, an empty range
 and a lone sign properly

Negation was lost when text followed the number, the smallest value of a type
was out of range, an empty range was read from, and a range without digits
converted to 0. After an overflow, digits above 9 of bases under 36 are
skipped up to the first character outside the base.
---
 src/estd/internal/charconv/from_chars.hpp | 46 +++++++++++------------
 src/estd/internal/raise_and_add.h         |  3 +-
 2 files changed, 22 insertions(+), 27 deletions(-)

diff --git a/src/estd/internal/charconv/from_chars.hpp b/src/estd/internal/charconv/from_chars.hpp
index 8fb20cd..bf2b609 100644
--- a/src/estd/internal/charconv/from_chars.hpp
+++ b/src/estd/internal/charconv/from_chars.hpp
@@ -24,7 +24,7 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
 #endif
 
     CharIt current = first;
-    bool negate;
+    bool negate = false;
     // "If no characters match the pattern or if the value obtained by parsing
     // the matched characters is not representable in the type of value, value is unmodified," [1]
     T local_value = 0;
@@ -40,27 +40,32 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
     while (estd::internal::ascii_isspace(*current))
         current++; */
 
-    if (estd::is_signed<T>::value)
+    if (estd::is_signed<T>::value && current != last)
     {
         negate = *current == '-';
 
         if (negate) ++current;
     }
 
+    const CharIt digits = current;
+
     while (current != last)
     {
         // DEBT: Use has_value() and friends for clarity here
         const optional_type digit = cbase_type::from_char(*current, base);
         if (digit.has_value())
         {
-            bool success = raise_and_add(local_value, base, digit.value());
+            // Negative numbers accumulate downward, their range is one larger
+            bool success = negate ?
+                raise_and_sub(local_value, base, digit.value()) :
+                raise_and_add(local_value, base, digit.value());
 
             // If we didn't succeed, that means we overflowed
             if (!success)
             {
                 // skip to either end or next spot which isn't a number
                 // "ptr points at the first character not matching the pattern." [1]
-                while (++current != last && cbase_type::is_in_base(*current)) {}
+                while (++current != last && cbase_type::is_in_base(*current, base)) {}
 
 #ifdef FEATURE_CPP_INITIALIZER_LIST
                 return result_type{current, estd::errc::result_out_of_range};
@@ -69,36 +74,27 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
 #endif
             }
         }
-        else if(current == first)
-        {
-            return result_type
-#ifdef FEATURE_CPP_INITIALIZER_LIST
-                {current, estd::errc::invalid_argument};
-#else
-            (current, estd::errc::invalid_argument);
-#endif
-        }
         else
-        {
-            value = local_value;
+            break;
+
+        ++current;
+    }
+
+    // A lone sign is no match either
+    if(current == digits)
+    {
 #ifdef FEATURE_CPP_INITIALIZER_LIST
-            return result_type{current, estd::errc(0)};
+        return result_type{first, estd::errc::invalid_argument};
 #else
-            return result_type(current, estd::errc(0));
+        return result_type(first, estd::errc::invalid_argument);
 #endif
-        }
-        ++current;
     }
 
-    // prepend with constexpr so we can optimize out non-signed flavors
-    if (estd::is_signed<T>::value && negate)
-        local_value = -local_value;
-
     value = local_value;
 #ifdef FEATURE_CPP_INITIALIZER_LIST
-    return result_type{last,estd::errc(0)};
+    return result_type{current, estd::errc(0)};
 #else
-    return result_type(last,estd::errc(0));
+    return result_type(current, estd::errc(0));
 #endif
 }
 
diff --git a/src/estd/internal/raise_and_add.h b/src/estd/internal/raise_and_add.h
index f4fb526..726c41d 100644
--- a/src/estd/internal/raise_and_add.h
+++ b/src/estd/internal/raise_and_add.h
@@ -33,8 +33,7 @@ inline raise_and_add(_Tp& __val, const unsigned short __base, unsigned char __c)
 }   */
 
 template<typename T, typename Subtrahend>
-typename estd::enable_if<estd::is_signed<T>::value, bool>::type
-inline raise_and_sub(T& __val, const unsigned short __base, Subtrahend sub)
+bool inline raise_and_sub(T& __val, const unsigned short __base, Subtrahend sub)
 {
     if (__builtin_mul_overflow(__val, __base, &__val)
         || __builtin_sub_overflow(__val, sub, &__val))
-- 
2.43.0


From 6fc9940990f61fad0f640f66cc58d650ab161c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:22 +0000
Subject: [PATCH 37/92] fix: to_chars uses the whole buffer and nothing before
 it, and renders the smallest value

An exactly fitting buffer was refused, a '-' could be written before the buffer
(or past it, in reverse), an empty buffer was written to, and the smallest value
of each signed type was rendered from an overflowed negation.
---
 src/estd/internal/charconv.hpp         | 17 +++++++++++------
 src/estd/internal/charconv/reverse.hpp | 14 ++++++++------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/estd/internal/charconv.hpp b/src/estd/internal/charconv.hpp
index 088fcb5..5e12fba 100644
--- a/src/estd/internal/charconv.hpp
+++ b/src/estd/internal/charconv.hpp
@@ -51,27 +51,32 @@ inline detail::to_chars_result<CharIt> to_chars_integer_opt(
     static_assert(is_same<typename cbase_type::char_type, char_type>::value, "CharIt must align with cbase");
 #endif
 
-    if(numeric_limits::is_signed && negative) value *= -1;
-
-    while(first != --last)
+    while(first != last)
     {
 // EXPERIMENTAL, not sure if this helps at all
 #if FEATURE_ESTD_TO_CHARS_LIBC_DIV
         using d = div<Int>;
         const typename d::result v = d::eval(value, base());
-        *last = cbase_type::to_char(v.rem);
+        *--last = cbase.to_char(negative ? -v.rem : v.rem);
         value = v.quot;
 #else
         // DEBT: Pretty sure there's a div and mod combined operation, use that
         // i.e. https://riscv.org/wp-content/uploads/2017/05/riscv-spec-v2.2.pdf page 36 section 6.2
-        *last = cbase.to_char(value % base());
-        value /= base();
+        // Base as Int, so that signed values stay signed.  The smallest one has no
+        // positive counterpart, so negative digits are flipped one by one
+        const Int digit = value % (Int)base();
+        *--last = cbase.to_char(negative ? -digit : digit);
+        value /= (Int)base();
 #endif
 
         if(value == 0)
         {
             if(numeric_limits::is_signed && negative)
+            {
+                if(first == last) break;
+
                 *--last = '-';
+            }
 
 #ifdef __cpp_initializer_lists
             return result_type{last, estd::errc(0)};
diff --git a/src/estd/internal/charconv/reverse.hpp b/src/estd/internal/charconv/reverse.hpp
index c3a2711..4c00d20 100644
--- a/src/estd/internal/charconv/reverse.hpp
+++ b/src/estd/internal/charconv/reverse.hpp
@@ -15,19 +15,21 @@ to_chars_result to_chars_integer_reverse(char* first, char* last, TInt value, co
     typedef cbase<char, b, classic_locale_type> cbase_type;
     typedef typename cbase_type::char_type char_type;
 
-    if(estd::numeric_limits<TInt>::is_signed && value < 0)
-    {
+    const bool negative = estd::numeric_limits<TInt>::is_signed && value < 0;
+
+    if(negative && first != last)
         *first++ = '-';
-        value *= -1;
-    }
 
     char_type* current = first;
 
     while(current != last)
     {
         // DEBT: instance method in case its runtime casing
-        *current = cbase_type().to_char(value % base);
-        value /= base;
+        // The smallest value has no positive counterpart, so negative digits are
+        // flipped one by one
+        const TInt digit = value % (TInt)base;
+        *current = cbase_type().to_char(negative ? -digit : digit);
+        value /= (TInt)base;
 
         current++;
 
-- 
2.43.0


From e9cbacc7a0add98390423d706e0386f4f82da611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 38/92] fix: stringbuf writes as much as fits its string and
 reports the rest

---
 src/estd/internal/impl/streambuf/string.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/string.h b/src/estd/internal/impl/streambuf/string.h
index 64eef37..fb4c41d 100644
--- a/src/estd/internal/impl/streambuf/string.h
+++ b/src/estd/internal/impl/streambuf/string.h
@@ -34,15 +34,19 @@ struct out_stringbuf : stringbuf_base<String>
 
     streamsize xsputn(const char_type* s, streamsize count)
     {
-        // FIX: normal strings throw an exception if we exceed internal
-        // buffer size, but here we should instead have an optional error
-        // facility
-        str_.append(s, count);
+        // As many as fit, the rest is reported as not written
+        const streamsize room = str_.max_size() - str_.size();
+
+        if(count > room)    count = room;
+        if(count > 0)       str_.append(s, count);
+
         return count;
     }
 
     int_type sputc(char_type ch)
     {
+        if(str_.size() >= str_.max_size())  return traits_type::eof();
+
         str_ += ch;
         return traits_type::to_int_type(ch);
     }
-- 
2.43.0


From 348a60e2d73a240e7dfb20ff277691ce0849b52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 39/92] fix: stringbuf reports its position, and clear rewinds
 it

---
 src/estd/internal/impl/streambuf/string.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/estd/internal/impl/streambuf/string.h b/src/estd/internal/impl/streambuf/string.h
index fb4c41d..ab74168 100644
--- a/src/estd/internal/impl/streambuf/string.h
+++ b/src/estd/internal/impl/streambuf/string.h
@@ -132,6 +132,10 @@ struct basic_stringbuf :
     // UNTESTED
     pos_type seekoff(off_type off, ios_base::seekdir dir, ios_base::openmode which)
     {
+        // Writing always happens at the end of the string
+        if(!(which & ios_base::in))
+            return base_type::seekoff(off, dir, which);
+
         switch(dir)
         {
             case ios_base::beg:
@@ -141,7 +145,10 @@ struct basic_stringbuf :
 
             case ios_base::cur:
                 if(which & ios_base::in)
+                {
                     in_base_type::gbump(off);
+                    return pos();
+                }
                 break;
 
             case ios_base::end:
@@ -153,6 +160,12 @@ struct basic_stringbuf :
         return pos_type(off_type(-1));
     }
 
+    void clear()
+    {
+        base_type::clear();
+        in_base_type::seekpos(0);
+    }
+
     int_type sungetc()
     {
         if(pos() == 0)
-- 
2.43.0


From 1e0e1bee3cf7d0479888155c7a4b625423eba4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 40/92] fix: span streambuf keeps writes inside its span

---
 src/estd/internal/impl/streambuf/span.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index 1eee046..974c8e4 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -73,12 +73,16 @@ struct out_span_streambuf :
     }
 
     char_type* pptr() const { return pbase() + base_out_type::pos(); }
-    char_type* epptr() const { return pbase() + out().size_bytes(); }
+    char_type* epptr() const { return pbase() + out().size(); }
 
     streamsize xsputn(const char_type* s, streamsize count)
     {
-        // TODO: do proper bounds checking here
-        memcpy(pptr(), s, count);
+        const size_type pos = base_out_type::pos();
+        const streamsize room = pos < out().size() ? out().size() - pos : 0;
+
+        if(count > room)    count = room;
+
+        estd::copy_n(s, count, pptr());
         this->pbump(count);
         return count;
     }
@@ -86,7 +90,7 @@ struct out_span_streambuf :
     int_type sputc(char_type ch)
     {
         const pos_type& pos = base_out_type::pos();
-        if(pos >= out().size_bytes())
+        if(pos >= out().size())
             return base_out_type::overflow();
 
         *(pptr()) = ch;
@@ -115,7 +119,7 @@ protected:
 
             case ios_base::end:
                 // UNTESTED
-                base_out_type::seekpos(out().size_bytes() + off);
+                base_out_type::seekpos(out().size() + off);
                 break;
         }
 
-- 
2.43.0


From 544cd0da99122c4581877ae78aff76c731a04bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:19 +0000
Subject: [PATCH 41/92] fix: reading a span longer than 65535 characters does
 not start over

---
 src/estd/internal/impl/streambuf/span.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index 974c8e4..e8dc144 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -143,13 +143,15 @@ template <class TChar,
         std::size_t Extent = detail::dynamic_extent::value,
         class TBase = estd::experimental::instance_provider<estd::span<TChar, Extent> > >
 struct in_span_streambuf :
-        in_pos_streambuf_base<TCharTraits>,
+        in_pos_streambuf_base<TCharTraits,
+            typename TBase::value_type::size_type>,
 
         streambuf_gptr_tag,
 
         TBase
 {
-    typedef in_pos_streambuf_base<TCharTraits> base_pos_type;
+    typedef in_pos_streambuf_base<TCharTraits,
+        typename TBase::value_type::size_type> base_pos_type;
     typedef TBase base_type;
 
     using typename base_pos_type::traits_type;
-- 
2.43.0


From 4aed526e26db7d7acfe924dee216bb83ac1e35b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:19 +0000
Subject: [PATCH 42/92] fix: buffered stringbuf neither drops nor miscounts
 characters when its buffer fills up

---
 src/estd/internal/impl/streambuf/buffer.h | 26 ++++++++++++++++-------
 src/estd/streambuf.h                      | 19 ++++++-----------
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/buffer.h b/src/estd/internal/impl/streambuf/buffer.h
index d88b72e..2fbe176 100644
--- a/src/estd/internal/impl/streambuf/buffer.h
+++ b/src/estd/internal/impl/streambuf/buffer.h
@@ -44,10 +44,18 @@ class out_buffered_stringbuf : public wrapped_streambuf_base<Streambuf>
         // DEBT: We can expect potential spinlock type behavior,
         // which may be needed due to the simplicity of string buffering
         // (may need a queue or bipbuffer to really overcome that)
-        base_type::rdbuf().sputn(buf_.data(), buf_.size());
-        buf_.clear();
-        // DEBT: Need to heed output of sputn to truly indicate status
-        return 0;
+        const unsigned sz = buf_.size();
+        const unsigned written = base_type::rdbuf().sputn(buf_.data(), sz);
+
+        if(written == sz)
+        {
+            buf_.clear();
+            return 0;
+        }
+
+        // Hold on to what was not taken
+        buf_.erase(0, written);
+        return -1;
     }
 
 public:
@@ -67,10 +75,11 @@ protected:
     {
         if(full())
         {
-            if(ll_sync() != 0)  return traits_type::eof();
+            ll_sync();
+            if(full())  return traits_type::eof();
         }
 
-        if(traits_type::not_eof(ch))
+        if(ch != traits_type::eof())
         {
             buf_ += traits_type::to_char_type(ch);
         }
@@ -84,7 +93,8 @@ protected:
     {
         const estd::streamsize maximum = remaining();
 
-        buf_.append(s, count > maximum ? maximum : count);
+        if(count > maximum) count = maximum;
+        if(count > 0)       buf_.append(s, count);
 
         // wrapper sputn handles this via 'overflow' - a little clumsy though
         //if(full())
@@ -102,7 +112,7 @@ public:
 
     int_type sputc(char_type ch)
     {
-        return overflow(ch);
+        return overflow(traits_type::to_int_type(ch));
     }
 };
 
diff --git a/src/estd/streambuf.h b/src/estd/streambuf.h
index 1ef327d..5c6fd0a 100644
--- a/src/estd/streambuf.h
+++ b/src/estd/streambuf.h
@@ -131,19 +131,14 @@ public:
 
         // TODO: Consider a non-function-present flavor of optimizing to know if
         // overflow is even implemented so as to optimize this portion
-        if(written < count)
+        while(written < count &&
+            this->overflow(traits_type::to_int_type(s[written])) != traits_type::eof())
         {
-            s += written;
-
-            if(this->overflow(*s) != traits_type::eof())
-            {
-                // getting here means one more character was placed into put area
-                count -= ++written;
-
-                // a successful overflow indicates more put area
-                // is available, so give it a shot
-                written += this->xsputn(s + 1, count);
-            }
+            // getting here means one more character was placed into put area.
+            // a successful overflow indicates more put area
+            // is available, so give it a shot
+            ++written;
+            written += this->xsputn(s + written, count - written);
         }
 
         return written;
-- 
2.43.0


From 9301074a9568d3fd75ef7ba9a388e63cac6c2dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:19 +0000
Subject: [PATCH 43/92] fix: char_traits keeps the character 0xFF apart from
 end of file

---
 src/estd/traits/char_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/traits/char_traits.h b/src/estd/traits/char_traits.h
index d52323b..5b242e6 100644
--- a/src/estd/traits/char_traits.h
+++ b/src/estd/traits/char_traits.h
@@ -32,7 +32,7 @@ struct char_traits<char>
     typedef int off_type;
 
     static ESTD_CPP_CONSTEXPR_RET char_type to_char_type(int_type ch) { return ch; }
-    static ESTD_CPP_CONSTEXPR_RET int_type to_int_type(const char ch) { return ch; }
+    static ESTD_CPP_CONSTEXPR_RET int_type to_int_type(const char ch) { return static_cast<unsigned char>(ch); }
     static ESTD_CPP_CONSTEXPR_RET int_type eof() { return -1; }
     static ESTD_CPP_CONSTEXPR_RET bool eq(char c1, char c2) { return c1 == c2; }
     static ESTD_CPP_CONSTEXPR_RET bool not_eof(int_type v) { return v != -1; }
-- 
2.43.0


From d410ef5b0959fa8c6c5fda27699f66b6dfe24298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:20 +0000
Subject: [PATCH 44/92] fix: bipbuf does not hand out more than it contiguously
 holds

---
 src/estd/ext/willemt/bipbuffer/bipbuffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/ext/willemt/bipbuffer/bipbuffer.c b/src/estd/ext/willemt/bipbuffer/bipbuffer.c
index fdcc2eb..6b2a543 100644
--- a/src/estd/ext/willemt/bipbuffer/bipbuffer.c
+++ b/src/estd/ext/willemt/bipbuffer/bipbuffer.c
@@ -97,7 +97,7 @@ int bipbuf_offer(bipbuf_t* me, const unsigned char *data, const int size)
 unsigned char *bipbuf_peek(const bipbuf_t* me, const unsigned int size)
 {
     /* make sure we can actually peek at this data */
-    if (me->size < me->a_start + size)
+    if (me->a_end - me->a_start < size)
         return NULL;
 
     if (bipbuf_is_empty(me))
@@ -112,7 +112,7 @@ unsigned char *bipbuf_poll(bipbuf_t* me, const unsigned int size)
         return NULL;
 
     /* make sure we can actually poll this data */
-    if (me->size < me->a_start + size)
+    if (me->a_end - me->a_start < size)
         return NULL;
 
     void *end = me->data + me->a_start;
-- 
2.43.0


From d799fa9fb3cd0a478699ea2ab439844526122874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:07 +0000
Subject: [PATCH 45/92] fix: layer1 bipbuf aligns its storage

---
 src/estd/internal/bip/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/bip/buffer.h b/src/estd/internal/bip/buffer.h
index 1c699c2..85226d4 100644
--- a/src/estd/internal/bip/buffer.h
+++ b/src/estd/internal/bip/buffer.h
@@ -77,7 +77,7 @@ class bipbuf
     // https://stackoverflow.com/questions/11373203/accessing-inactive-union-member-and-undefined-behavior
     // NOTE: Above comment N/A we have left union behind
 
-    byte backing_buffer_[sizeof(bipbuf_t) + N];
+    alignas(bipbuf_t) byte backing_buffer_[sizeof(bipbuf_t) + N];
 
     // Can't do union here
     // https://github.com/malachi-iot/estdlib/issues/30
-- 
2.43.0


From a8236e1256a4100528f81426fc77e78a400ddf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:07 +0000
Subject: [PATCH 46/92] fix: bipbuf streambufs flush, read and report across
 the wrap around

---
 src/estd/internal/bip/buffer.h            | 18 ++++++++
 src/estd/internal/impl/streambuf/bipbuf.h | 55 ++++++++++++++---------
 2 files changed, 53 insertions(+), 20 deletions(-)

diff --git a/src/estd/internal/bip/buffer.h b/src/estd/internal/bip/buffer.h
index 85226d4..8bdad23 100644
--- a/src/estd/internal/bip/buffer.h
+++ b/src/estd/internal/bip/buffer.h
@@ -64,6 +64,12 @@ inline void offer_end(bipbuf_t& buf_, unsigned size)
     check_for_switch_to_b(buf_);
 }
 
+/// How much is reachable in one contiguous peek/poll
+inline unsigned peekable(const bipbuf_t& buf_)
+{
+    return buf_.a_end - buf_.a_start;
+}
+
 }
 
 namespace layer1 {
@@ -140,6 +146,12 @@ public:
         return bipbuf_poll(buf(), len);
     }
 
+    /// How much is reachable in one contiguous peek/poll.  May be less than used()
+    unsigned peekable() const
+    {
+        return internal::peekable(*buf());
+    }
+
     unsigned used() const
     {
         return (unsigned)bipbuf_used(buf());
@@ -198,6 +210,12 @@ public:
         return bipbuf_poll(buf_, len);
     }
 
+    /// How much is reachable in one contiguous peek/poll.  May be less than used()
+    unsigned peekable() const
+    {
+        return internal::peekable(*buf_);
+    }
+
     unsigned used() const
     {
         return (unsigned) bipbuf_used(buf_);
diff --git a/src/estd/internal/impl/streambuf/bipbuf.h b/src/estd/internal/impl/streambuf/bipbuf.h
index 3187c62..55832bc 100644
--- a/src/estd/internal/impl/streambuf/bipbuf.h
+++ b/src/estd/internal/impl/streambuf/bipbuf.h
@@ -47,17 +47,21 @@ protected:
 
     void pbump(int count)
     {
-        buf_.offer_end(count);
+        buf_.offer_end(count * sizeof(char_type));
     }
 
     int sync()
     {
         // DEBT: A lot of tuning opportunity here
-        const unsigned sz = buf_.used();
-        auto b = (char_type*)buf_.peek(sz);
-        unsigned written = base_type::rdbuf().sputn(b, sz);
-        if(written == 0) return -1;
-        buf_.poll(written);
+        // At most two rounds, the wrapped around portion shows up once the first one is drained
+        while(buf_.used() > 0)
+        {
+            const unsigned sz = buf_.peekable() / sizeof(char_type);
+            auto b = (char_type*)buf_.peek();
+            const unsigned written = base_type::rdbuf().sputn(b, sz);
+            buf_.poll(written * sizeof(char_type));
+            if(written != sz) return -1;
+        }
         return 0;
     }
 
@@ -68,7 +72,7 @@ public:
 
     int_type sputc(char_type ch)
     {
-        return overflow(ch);
+        return overflow(traits_type::to_int_type(ch));
     }
 
 protected:
@@ -99,6 +103,9 @@ protected:
         if(xout_avail() == 0)
             sync();
 
+        if(xout_avail() == 0)       return traits_type::eof();
+        if(ch == traits_type::eof())    return traits_type::not_eof(ch);
+
         *pptr() = traits_type::to_char_type(ch);
         pbump(1);
 
@@ -151,7 +158,7 @@ protected:
     // If so, these -1's in our implementation are overstated
     int sync()
     {
-        const unsigned unused = buf_.unused();
+        const unsigned unused = buf_.unused() / sizeof(char_type);
 
         if(unused == 0)    return -1;
 
@@ -161,14 +168,14 @@ protected:
 
         if(actually_read == 0)  return -1;
 
-        buf_.offer_end(actually_read);
+        buf_.offer_end(actually_read * sizeof(char_type));
 
         return 0;
     }
 
     constexpr streamsize xin_avail() const
     {
-        return buf_.used();
+        return buf_.used() / sizeof(char_type);
     }
 
     // DEBT: This needs to interrogate wrapped Streambuf
@@ -179,12 +186,22 @@ protected:
 
     streamsize xsgetn(nonconst_char_type* s, streamsize count)
     {
-        if(count > xin_avail())
-            count = xin_avail();
+        streamsize copied = 0;
+
+        while(copied < count)
+        {
+            // Refill from wrapped Streambuf when we run dry
+            if(xin_avail() == 0 && sync() == -1) break;
 
-        copy_n(buf_.peek(), count, s);
+            const streamsize n = estd::min<streamsize>(count - copied,
+                buf_.peekable() / sizeof(char_type));
 
-        return count;
+            copy_n(gptr(), n, s + copied);
+            gbump(n);
+            copied += n;
+        }
+
+        return copied;
     }
 
     ESTD_CPP_FORWARDING_CTOR(in_buffered_bipbuf)
@@ -193,12 +210,10 @@ protected:
     {
         if(xin_avail() == 0)
         {
-            // DEBT: Return proper eof
-            if(sync() == -1)    return -1;
+            if(sync() == -1)    return traits_type::eof();
         }
 
-        // DEBT: Wrap with traits
-        return xsgetc();
+        return traits_type::to_int_type(xsgetc());
     }
 
     int_type uflow()
@@ -216,7 +231,7 @@ protected:
 
     void gbump(int count)
     {
-        buf_.poll(count);
+        buf_.poll(count * sizeof(char_type));
     }
 
     char_type xsgetc() const { return *gptr(); }
@@ -230,7 +245,7 @@ public:
 
     const char_type* egptr() const
     {
-        return gptr() + buf_.used();
+        return gptr() + buf_.peekable() / sizeof(char_type);
     }
 };
 
-- 
2.43.0


From a6ab36980a9cd0203b2332163e64c55dddb8b74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 47/92] fix: fill characters from @ to _ pad as themselves

---
 src/estd/internal/ios_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/ios_base.h b/src/estd/internal/ios_base.h
index c670124..3db3859 100644
--- a/src/estd/internal/ios_base.h
+++ b/src/estd/internal/ios_base.h
@@ -225,7 +225,7 @@ protected:
         positioning alignment : 2;  // DEBT: Unused
 
         // DEBT: Presumes ASCII, 7-bit.  Unicode and friends are out
-        char fillchar : 6;          // + 32 (from ' ' to '`' ASCII)
+        unsigned char fillchar : 6; // + 32 (from ' ' to '_' ASCII)
         //bool showbase : 1;          // DEBT: Unused
 
         ESTD_CPP_CONSTEXPR_RET ostream_internal() :
-- 
2.43.0


From f356dd0677cf5ca53ac604be0a1f04e2e1950ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 48/92] fix: padding goes to the side asked for, for characters
 and without an explicit side too

---
 src/estd/internal/locale/num_put.h  | 11 ++++-------
 src/estd/internal/ostream/integer.h |  7 +++++--
 src/estd/ostream.h                  | 13 +++++++++++--
 3 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/estd/internal/locale/num_put.h b/src/estd/internal/locale/num_put.h
index 37ecf0b..c6ba2ba 100644
--- a/src/estd/internal/locale/num_put.h
+++ b/src/estd/internal/locale/num_put.h
@@ -154,20 +154,17 @@ private:
             width -= result_width;
 
             const ios_base::fmtflags adj = str.flags() & ios_base::adjustfield;
-            if(adj == ios_base::right)
-            {
-                out = fill_n(out, width, fill);
-                return copy(result.ptr, buffer + N, out);
-            }
-            else if(adj == ios_base::left)
+            if(adj == ios_base::left)
             {
                 out = copy(result.ptr, buffer + N, out);
                 return fill_n(out, width, fill);
             }
             else
             {
+                // As per spec, anything but 'left' pads up front
                 // DEBT: 'internal' flavor, needs work
-                return out;
+                out = fill_n(out, width, fill);
+                return copy(result.ptr, buffer + N, out);
             }
         }
         else
diff --git a/src/estd/internal/ostream/integer.h b/src/estd/internal/ostream/integer.h
index 1316b71..f04b92a 100644
--- a/src/estd/internal/ostream/integer.h
+++ b/src/estd/internal/ostream/integer.h
@@ -17,13 +17,16 @@ void write_filled_buffer(
     const streamsize pad = out.width();
     out.width(0);
 
-    if(out.flags() & ios_base::right)   out.fill_n(pad - sz);
+    // As per spec, anything but 'left' pads up front
+    const bool left = (out.flags() & ios_base::adjustfield) == ios_base::left;
+
+    if(!left)   out.fill_n(pad - sz);
 #endif
 
     out.write(buffer, sz);
 
 #if FEATURE_ESTD_OSTREAM_SETW
-    if(out.flags() & ios_base::left)    out.fill_n(pad - sz);
+    if(left)    out.fill_n(pad - sz);
 #endif
 }
 
diff --git a/src/estd/ostream.h b/src/estd/ostream.h
index 4f23357..4fa8f9e 100644
--- a/src/estd/ostream.h
+++ b/src/estd/ostream.h
@@ -71,11 +71,20 @@ inline basic_ostream<TStreambuf, TBase>& operator <<(basic_ostream<TStreambuf, T
 #if FEATURE_ESTD_OSTREAM_SETW
     const streamsize pad = out.width();
 
-    out.fill_n(pad - 1);
+    const bool left = (out.flags() & ios_base::adjustfield) == ios_base::left;
+
     out.width(0);
+
+    if(!left)   out.fill_n(pad - 1);
 #endif
 
-    return out.put(ch);
+    out.put(ch);
+
+#if FEATURE_ESTD_OSTREAM_SETW
+    if(left)    out.fill_n(pad - 1);
+#endif
+
+    return out;
 }
 
 // Somehow, blackfin has the PRIXPTR and friends even though it doesn't have
-- 
2.43.0


From 499bee2ce3073e3c510324f4806ab974869d763e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:09 +0000
Subject: [PATCH 49/92] fix: istream counts what it extracted, and getline
 stays inside its buffer

---
 src/estd/internal/istream.h | 90 +++++++++++++++++++++++--------------
 1 file changed, 56 insertions(+), 34 deletions(-)

diff --git a/src/estd/internal/istream.h b/src/estd/internal/istream.h
index c8d2b42..ac4451e 100644
--- a/src/estd/internal/istream.h
+++ b/src/estd/internal/istream.h
@@ -98,16 +98,16 @@ public:
 public:
     int_type get()
     {
-#if FEATURE_ESTD_IOS_GCOUNT
-        ++_gcount;
-#endif
         int_type c = this->rdbuf()->sbumpc();
 
         if(c == traits_type::eof())
         {
+            gcount(0);
             base_type::setstate(
                 ios_base::failbit | ios_base::eofbit);
         }
+        else
+            gcount(1);
 
         return c;
     }
@@ -142,10 +142,17 @@ public:
         // otherwise read all of count
         streamsize m = estd::min(count, rdbuf.in_avail());
 
-#if FEATURE_ESTD_IOS_GCOUNT
-        _gcount = m;
-#endif
-        return rdbuf.sgetn(s, m);
+        // "If rdbuf()->in_avail() == -1, calls setstate(eofbit) and extracts no characters"
+        if(m < 0)
+        {
+            m = 0;
+            this->setstate(ios_base::eofbit);
+        }
+        else
+            m = rdbuf.sgetn(s, m);
+
+        gcount(m);
+        return m;
     }
 
     __istream_type& read(char_type* s, streamsize n)
@@ -153,13 +160,12 @@ public:
         // TODO: optimization point.  We want to do something
         // so that we don't inline this (and other read/write operations like it)
         // all over the place
-        if (this->rdbuf()->sgetn(s, n) != n)
-            // TODO: Consider setting _gcount here to what *was* returned
-            this->setstate(base_type::eofbit);
+        const streamsize actually_read = this->rdbuf()->sgetn(s, n);
 
-#if FEATURE_ESTD_IOS_GCOUNT
-        _gcount = n;
-#endif
+        if (actually_read != n)
+            this->setstate(base_type::failbit | base_type::eofbit);
+
+        gcount(actually_read);
 
         return *this;
     }
@@ -169,33 +175,43 @@ public:
     {
         streambuf_type* stream = this->rdbuf();
 
-#if FEATURE_ESTD_IOS_GCOUNT
-        _gcount = 0;
-#endif
+        // How many characters we extract, delimiter included
+        streamsize extracted = 0;
 
         for (;;)
         {
-            int_type c = stream->sbumpc();
+            int_type c = stream->sgetc();
 
-            if (traits_type::eq(c, traits_type::eof()))
+            if (c == traits_type::eof())
             {
                 this->setstate(base_type::eofbit);
+                // "If the function extracts no characters"
+                if(extracted == 0)  this->setstate(base_type::failbit);
+                break;
+            }
+
+            if (c == traits_type::to_int_type(delim))
+            {
+                stream->sbumpc();
+                ++extracted;
                 break;
             }
 
-            if (!count-- || traits_type::eq(c, delim))
+            // One is always set aside for null terminator
+            if (extracted + 1 >= count)
             {
                 this->setstate(base_type::failbit);
                 break;
             }
 
-            *s++ = c;
-#if FEATURE_ESTD_IOS_GCOUNT
-            _gcount++;
-#endif
+            *s++ = traits_type::to_char_type(c);
+            stream->sbumpc();
+            ++extracted;
         }
 
-        *s = 0;
+        gcount(extracted);
+
+        if(count > 0)   *s = 0;
 
         return *this;
     }
@@ -253,20 +269,22 @@ public:
     // delim test is disabled if delim is default value, which would be EOF
     basic_istream& ignore(streamsize count = 1)
     {
+        streamsize extracted = 0;
+
         while (count--)
         {
-            int_type ch = get();
+            int_type ch = this->rdbuf()->sbumpc();
 
             if (ch == traits_type::eof())
             {
                 this->setstate(ios_base::eofbit);
-                return *this;
+                break;
             }
 
-#if FEATURE_ESTD_IOS_GCOUNT
-            _gcount++;
-#endif
+            ++extracted;
         }
+
+        gcount(extracted);
         return *this;
     }
 
@@ -276,21 +294,25 @@ public:
         // "This [delimiter] test is disabled if delim is Traits::eof()"
         if (delim == traits_type::eof()) return ignore(count);
 
+        streamsize extracted = 0;
+
         while (count--)
         {
-            int_type ch = get();
+            int_type ch = this->rdbuf()->sbumpc();
 
             if (ch == traits_type::eof())
             {
                 this->setstate(ios_base::eofbit);
                 break;
             }
-            else if (ch == delim) break;
 
-#if FEATURE_ESTD_IOS_GCOUNT
-            _gcount++;
-#endif
+            ++extracted;
+
+            // "delim, which is extracted"
+            if (ch == delim) break;
         }
+
+        gcount(extracted);
         return *this;
     }
 
-- 
2.43.0


From bba289feb1d6ac2db66188132acda8c559e4a484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:09 +0000
Subject: [PATCH 50/92] fix: extracting into a full string stops instead of
 overflowing it

---
 src/estd/internal/istream_runtimearray.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/internal/istream_runtimearray.hpp b/src/estd/internal/istream_runtimearray.hpp
index a732392..938a4fe 100644
--- a/src/estd/internal/istream_runtimearray.hpp
+++ b/src/estd/internal/istream_runtimearray.hpp
@@ -53,6 +53,9 @@ void do_input(detail::basic_istream<TStreambuf, TBase>& in,
         }
         else if(isspace(traits_type::to_char_type(ch), loc)) break;
 
+        // "max_size() characters are stored", remainder stays in the stream
+        if(value.size() >= value.max_size()) break;
+
         // NOTE: += is defined and should have worked
         value.push_back(traits_type::to_char_type(ch));
         //value += (char_type)ch;
-- 
2.43.0


From dab7dfeba9c45e659acb59575296227d0d8c4379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:09 +0000
Subject: [PATCH 51/92] fix: reading a number without any digit fails, and an
 overflowing one is read to its end

---
 src/estd/internal/locale/iterated/num_get.h | 40 +++++++++++++++++----
 src/estd/internal/locale/num_get.h          |  2 +-
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index 34995e6..ef8f174 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -125,6 +125,9 @@ struct num_get
 
         if(n.has_value())
         {
+            // At least one digit is here, so no longer possible to end up with no number at all
+            state_.state_ = positive ? NominalPositive : NominalNegative;
+
             if (!raise_and_add<positive>(n.value(), v, is_integer(), is_signed<T>()))
             {
                 state_.state_ = Overflow;
@@ -147,7 +150,8 @@ struct num_get
             // TODO: Account for thousands separators
             // NOTE: Probably should use is_floating_point here instead, though so far
             // is_integer is in no danger of causing us grief
-            if(is_integer() == false && c == numpunct_type::decimal_point())
+            if(is_integer() == false && c == numpunct_type::decimal_point() &&
+                state_.decimal_place_ == 0)
             {
                 state_.decimal_place_ = 1;
                 return false;
@@ -213,11 +217,11 @@ struct num_get
                 // to ensure this hyphen compare is proper
                 if (is_signed<T>() && c == ctype_type::widen('-'))
                 {
-                    state_.state_ = NominalNegative;
+                    state_.state_ = FirstNegative;
                     return false;
                 }
                 else
-                    state_.state_ = NominalPositive;
+                    state_.state_ = FirstPositive;
 
 #if __has_cpp_attribute(fallthrough)
                 [[fallthrough]];
@@ -251,7 +255,7 @@ struct num_get
 
             case Overflow:
                 // Merely consumed numbers in this mode
-                return cbase_type::from_char(c).has_value();
+                return !cbase_type::from_char(c).has_value();
 
             // FIX: Just to satisfy compilation
             default:
@@ -260,13 +264,32 @@ struct num_get
     }
 
 
+    /// Call when input ends
+    void end_of_input(ios_base::iostate& err) const
+    {
+        err |= ios_base::eofbit;
+
+        // Not a single digit to be had
+        switch(state_.state_)
+        {
+            case Start:
+            case FirstNegative:
+            case FirstPositive:
+                err |= ios_base::failbit;
+                break;
+
+            default:
+                break;
+        }
+    }
+
     template <class TIter, class T>
     bool get(TIter& i, TIter end,
         ios_base::iostate& err, T& v)
     {
         if(i != end) return get(*i++, err, v);
 
-        err |= ios_base::eofbit;
+        end_of_input(err);
         return true;
     }
 
@@ -329,7 +352,8 @@ struct bool_get<TChar, TLocale, false> : num_get<2, TChar, TLocale>
     {
         if(i != end) return get(*i++, err, v);
 
-        err |= ios_base::eofbit;
+        v = false;
+        err |= ios_base::eofbit | ios_base::failbit;
         return true;
     }
 
@@ -380,7 +404,9 @@ struct bool_get<Char, Locale, true>
     {
         if(i != end) return get(*i++, err, v);
 
-        err |= ios_base::eofbit;
+        // Still undecided
+        v = false;
+        err |= ios_base::eofbit | ios_base::failbit;
         return true;
     }
 
diff --git a/src/estd/internal/locale/num_get.h b/src/estd/internal/locale/num_get.h
index 3282384..9cb8652 100644
--- a/src/estd/internal/locale/num_get.h
+++ b/src/estd/internal/locale/num_get.h
@@ -69,7 +69,7 @@ private:
                 }
             }
 
-            err |= ios_base::eofbit;
+            n.end_of_input(err);
             n.finalize(v, is_integer());
             return i;
         }
-- 
2.43.0


From a6772b635d577f9e968b2aafe3c13e1b23afa8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:30 +0000
Subject: [PATCH 52/92] fix: islower knows the letters past a

---
 src/estd/internal/locale/ctype.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/locale/ctype.h b/src/estd/internal/locale/ctype.h
index ce77fad..d3f8b2e 100644
--- a/src/estd/internal/locale/ctype.h
+++ b/src/estd/internal/locale/ctype.h
@@ -73,7 +73,7 @@ public:
 
     static bool islower(char ch)
     {
-        return 'a' <= ch && ch <= 'a';
+        return 'a' <= ch && ch <= 'z';
     }
 
     typedef char char_type;
-- 
2.43.0


From 884698227507ef2f5c4e6aa4bd39213e2ccd93c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:30 +0000
Subject: [PATCH 53/92] fix: chooser matches names from their first letter only
 and does not look past their end

---
 src/estd/internal/chooser.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/estd/internal/chooser.h b/src/estd/internal/chooser.h
index 043ed01..f79b8f2 100644
--- a/src/estd/internal/chooser.h
+++ b/src/estd/internal/chooser.h
@@ -54,6 +54,9 @@ public:
                     break;
                 }
             }
+
+            // Nobody starts with this
+            if(chosen_ == -1) return true;
         }
         else
         {
@@ -65,18 +68,18 @@ public:
                 chosen_ = -1;
                 return true;
             }
+        }
 
-            // TODO: Optimize, detect containers which require processing to deduce size.
-            // Likely this is most easily done in reverse, to tag containers which hold
-            // a size variable/constant and detect that
-            const unsigned sz = get_size(container);
+        // TODO: Optimize, detect containers which require processing to deduce size.
+        // Likely this is most easily done in reverse, to tag containers which hold
+        // a size variable/constant and detect that
+        const unsigned sz = get_size(containers[chosen_]);
 
-            // We try to match up to chosen length, and whatever result in chosen_ we have
-            // as far as we go.  This is a big reason why same-prefixed matches
-            // are a DEBT thing for chooser
-            if(i == sz - 1)
-                return true;
-        }
+        // We try to match up to chosen length, and whatever result in chosen_ we have
+        // as far as we go.  This is a big reason why same-prefixed matches
+        // are a DEBT thing for chooser
+        if(i == sz - 1)
+            return true;
 
         ++i;
         return false;
-- 
2.43.0


From 326a1c8623b05413cff394f0c8f34ba42c779648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:47 +0000
Subject: [PATCH 54/92] fix: ctype recognizes every category of a mask

---
 src/estd/internal/locale/ctype.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/locale/ctype.h b/src/estd/internal/locale/ctype.h
index d3f8b2e..47ed507 100644
--- a/src/estd/internal/locale/ctype.h
+++ b/src/estd/internal/locale/ctype.h
@@ -99,14 +99,19 @@ public:
             if(estd::cbase<char, 10, locale_type>::is_in_base(ch))
                 return true;
         }
-        if(m & upper)
+        if(m & (upper | alpha))
         {
             if(isupper(ch)) return true;
         }
-        else if(m & lower)
+        if(m & (lower | alpha))
         {
             if(islower(ch)) return true;
         }
+        if(m & punct)
+        {
+            // Printable ASCII which is neither letter, digit nor space
+            if('!' <= ch && ch <= '~' && !is(alnum, ch)) return true;
+        }
         return false;
     }
 };
-- 
2.43.0


From c1a5ba46e84d8768e00ced3157155c3955dbef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:13 +0000
Subject: [PATCH 55/92] fix: a wrapped streambuf passes single characters on

---
 src/estd/internal/impl/streambuf.h | 2 +-
 src/estd/internal/streambuf.h      | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/impl/streambuf.h b/src/estd/internal/impl/streambuf.h
index 30662a2..923ca1f 100644
--- a/src/estd/internal/impl/streambuf.h
+++ b/src/estd/internal/impl/streambuf.h
@@ -76,7 +76,7 @@ protected:
 
 public:
     // DEBT: Not well thought out, just getting things compiling
-    int_type sputc(char_type ch) { return overflow(ch); }
+    int_type sputc(char_type ch) { return overflow(traits_type::to_int_type(ch)); }
 };
 
 }}}
diff --git a/src/estd/internal/streambuf.h b/src/estd/internal/streambuf.h
index 1fb28c5..0d97daf 100644
--- a/src/estd/internal/streambuf.h
+++ b/src/estd/internal/streambuf.h
@@ -50,7 +50,9 @@ protected:
 
     virtual int_type overflow(int_type ch = traits_type::eof()) OVERRIDE
     {
-        return _rdbuf.overflow();
+        return ch == traits_type::eof() ?
+            _rdbuf.overflow(ch) :
+            _rdbuf.sputc(traits_type::to_char_type(ch));
     }
 
 public:
-- 
2.43.0


From c42139225630bbeaaf13aa4a7dfe5d67e8d08462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:04 +0000
Subject: [PATCH 56/92] fix: a stream over constant characters keeps 0xFF apart
 from the end

---
 src/estd/internal/impl/streambuf/span.h | 2 +-
 src/estd/istream.h                      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index e8dc144..ef7617f 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -139,7 +139,7 @@ public:
 // be implemented in a derived class
 // DEBT: Refactor this to take CharTraits directly
 template <class TChar,
-        class TCharTraits =  estd::char_traits<TChar>,
+        class TCharTraits = estd::char_traits<typename remove_const<TChar>::type>,
         std::size_t Extent = detail::dynamic_extent::value,
         class TBase = estd::experimental::instance_provider<estd::span<TChar, Extent> > >
 struct in_span_streambuf :
diff --git a/src/estd/istream.h b/src/estd/istream.h
index 007f613..000d92f 100644
--- a/src/estd/istream.h
+++ b/src/estd/istream.h
@@ -170,13 +170,13 @@ detail::basic_istream<Streambuf, Base>& operator >>(
 // live in estd itself rather than estd::detail
 namespace detail {
 
-template <class Char, class CharTraits = estd::char_traits<Char>>
+template <class Char, class CharTraits = estd::char_traits<remove_const_t<Char>>>
 using basic_ispanbuf = estd::internal::streambuf<estd::internal::impl::in_span_streambuf<Char, CharTraits> >;
 
 using ispanbuf = basic_ispanbuf<char>;
 
-template <class Char, class CharTraits = estd::char_traits<Char>>
-using basic_ispanstream = estd::detail::basic_istream<basic_ispanbuf<Char>>;
+template <class Char, class CharTraits = estd::char_traits<remove_const_t<Char>>>
+using basic_ispanstream = estd::detail::basic_istream<basic_ispanbuf<Char, CharTraits>>;
 
 using ispanstream = basic_ispanstream<char>;
 }
-- 
2.43.0


From c9c0dc2051576f78448967437f7785d037175da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:53 +0000
Subject: [PATCH 57/92] fix: extracting the character NUL stores it

---
 src/estd/istream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/istream.h b/src/estd/istream.h
index 000d92f..e399076 100644
--- a/src/estd/istream.h
+++ b/src/estd/istream.h
@@ -161,7 +161,7 @@ detail::basic_istream<Streambuf, Base>& operator >>(
 
     const typename traits::int_type c = in.get();
 
-    if(traits::not_eof(c))  value = traits::to_char_type(c);
+    if(c != traits::eof())  value = traits::to_char_type(c);
 
     return in;
 }
-- 
2.43.0


From 6e327146d8b428ca9a7de51cbdfd146ad7b163be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:24 +0000
Subject: [PATCH 58/92] fix: quantities and durations with the same fractional
 count add and compare

---
 src/estd/internal/promoted_type.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/estd/internal/promoted_type.h b/src/estd/internal/promoted_type.h
index 1b5b885..2e0a291 100644
--- a/src/estd/internal/promoted_type.h
+++ b/src/estd/internal/promoted_type.h
@@ -112,4 +112,12 @@ struct promoted_type
             typename internal::promote_type<aligned_more_bits_type>::type,
             aligned_more_bits_type>::type type;
 };
+
+// Both alike: nothing to promote.  Also serves types which have no signed/unsigned
+// flavors, such as floating point
+template<class T, bool auto_promote>
+struct promoted_type<T, T, auto_promote>
+{
+    typedef T type;
+};
 }
-- 
2.43.0


From 3d931180f1b3a5a93bbe435c9681e6e80b856fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:24 +0000
Subject: [PATCH 59/92] fix: converting a unit with an offset to another
 precision keeps its value

---
 src/estd/internal/units/base.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/units/base.h b/src/estd/internal/units/base.h
index 7f03925..86d863d 100644
--- a/src/estd/internal/units/base.h
+++ b/src/estd/internal/units/base.h
@@ -169,6 +169,19 @@ public:
         return convert_from<decltype(v.count()), Period2>(v.count());
     }
 
+    // Our root representation of an already projected count
+    template <class T, class T2>
+    static constexpr const T& unproject(const T& count, passthrough<T2>)
+    {
+        return count;
+    }
+
+    template <class T, class F2>
+    static constexpr Rep unproject(const T& count, F2)
+    {
+        return typename F2::reversal{}(count);
+    }
+
 protected:
     constexpr unit_base() = default;
 
@@ -183,7 +196,7 @@ public:
     // Converting only precision or F modified
     template <class Rep2, ESTD_CPP_CONCEPT(Adder<Rep2>) F2>
     constexpr unit_base(const unit_base<Rep2, Period, Tag, F2>& s) :    // NOLINT
-        rep_{s.count()}
+        rep_{unproject(s.count(), F{})}
     {
     }
 
-- 
2.43.0


From 9642f2612f3df54942a0684adf886baaa03c3a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:24 +0000
Subject: [PATCH 60/92] fix: fractions between -1 and 0 are shown with their
 sign

---
 src/estd/internal/units/ostream.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/units/ostream.h b/src/estd/internal/units/ostream.h
index 2fdf30e..5df9533 100644
--- a/src/estd/internal/units/ostream.h
+++ b/src/estd/internal/units/ostream.h
@@ -17,10 +17,15 @@ estd::detail::basic_ostream<TStreambuf, TBase>& operator <<(
     auto v_ = (int64_t)v;
     auto v_dec = (int64_t)(v * 100) % 100;
 
-    if(v_dec < 0)   v_dec = -v_dec;
+    const bool negative = v_dec < 0;
+
+    if(negative)    v_dec = -v_dec;
 
     // DEBT: I think ostream is supposed to auto reset to dec, but isn't
-    out << estd::dec << v_;
+    out << estd::dec;
+    // an integer part of 0 carries no sign of its own
+    if(v_ == 0 && negative) out << '-';
+    out << v_;
     out << '.';
     if(v_dec < 10) out << '0';
     out << v_dec;
-- 
2.43.0


From 743fb026eac54011d18482fd8f107f97254102ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 61/92] fix: leap years are not only those divisible by 400

---
 src/estd/internal/chrono/units.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/chrono/units.hpp b/src/estd/internal/chrono/units.hpp
index 4ca044b..ec682bb 100644
--- a/src/estd/internal/chrono/units.hpp
+++ b/src/estd/internal/chrono/units.hpp
@@ -76,7 +76,10 @@ public:
     static constexpr year min() NOEXCEPT { return year(-32767); }
     static constexpr year max() NOEXCEPT { return year(32767); }
 
-    constexpr bool is_leap() const NOEXCEPT { return value_ % 400 == 0; }
+    constexpr bool is_leap() const NOEXCEPT 
+    {
+        return (value_ % 4 == 0 && value_ % 100 != 0) || value_ % 400 == 0;
+    }
 
     // upper end of 16-bit value can never be out of range
     constexpr bool ok() const NOEXCEPT { return *this >= min(); }
-- 
2.43.0


From 3154be8c4973a58d48e41f872f661f59fb4a1ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 62/92] fix: the last day of a month compiles and knows about
 September

---
 src/estd/internal/chrono/formatter.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/chrono/formatter.hpp b/src/estd/internal/chrono/formatter.hpp
index 8cc5f08..2c5f325 100644
--- a/src/estd/internal/chrono/formatter.hpp
+++ b/src/estd/internal/chrono/formatter.hpp
@@ -91,13 +91,14 @@ public:
     {
         switch(month_.value())
         {
-            case 2: return year_.is_leap() ? day(29) : day(28);
+            case 2: return chrono::day(year_.is_leap() ? 29 : 28);
 
-            case 4: return day(30);
-            case 6: return day(30);
-            case 11: return day(30);
+            case 4:
+            case 6:
+            case 9:
+            case 11: return chrono::day(30);
 
-            default:    return day(31);
+            default:    return chrono::day(31);
         }
     }
 
-- 
2.43.0


From 9ca7bf253ad8e64b19bdb9ee9d16af3c6aa1ae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 63/92] fix: hh_mm_ss seconds are right past the 256th minute

---
 src/estd/internal/chrono/formatter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/chrono/formatter.hpp b/src/estd/internal/chrono/formatter.hpp
index 2c5f325..9b57699 100644
--- a/src/estd/internal/chrono/formatter.hpp
+++ b/src/estd/internal/chrono/formatter.hpp
@@ -184,7 +184,7 @@ public:
     inline seconds_type seconds() const NOEXCEPT
     {
         duration_type a = _abs();
-        auto v = a - minutes_type{a};
+        auto v = a - hours() - minutes();
         return seconds_type{v};
     }
 
-- 
2.43.0


From c7872e4c5ebf1cd06a9ab6f5cf70469eb80cdb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 64/92] fix: year_month_day follows the calendar instead of
 average months and years

---
 src/estd/internal/chrono/formatter.hpp | 37 +++++++++++++++++++-------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/estd/internal/chrono/formatter.hpp b/src/estd/internal/chrono/formatter.hpp
index 9b57699..862147e 100644
--- a/src/estd/internal/chrono/formatter.hpp
+++ b/src/estd/internal/chrono/formatter.hpp
@@ -26,28 +26,47 @@ class year_month_day
 
     sys_days days_;
 
+    struct fields
+    {
+        int year;       // relative to 1970
+        int month;
+        int day;
+    };
+
+    // Proleptic Gregorian calendar, epoch taken as 1970-01-01. As per
+    // https://howardhinnant.github.io/date_algorithms.html#civil_from_days
+    fields split() const NOEXCEPT
+    {
+        const int32_t z = int32_t(days_.time_since_epoch().count()) + 719468;
+        const int32_t era = (z >= 0 ? z : z - 146096) / 146097;
+        const int32_t doe = z - era * 146097;
+        const int32_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
+        const int32_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
+        const int32_t mp = (5 * doy + 2) / 153;     // months since March
+
+        fields f;
+        f.day = int(doy - (153 * mp + 2) / 5 + 1);
+        f.month = int(mp < 10 ? mp + 3 : mp - 9);
+        f.year = int(yoe + era * 400 + (f.month <= 2 ? 1 : 0) - 1970);
+        return f;
+    }
+
 public:
     chrono::day days() const NOEXCEPT
     {
-        chrono::months m = days_.time_since_epoch();
-        chrono::days d = days_.time_since_epoch() - m;
-        return clock_traits::adjust_epoch(chrono::day(d.count() + 1));
+        return clock_traits::adjust_epoch(chrono::day(split().day));
     }
 
     //constexpr
     chrono::month month() const NOEXCEPT
     {
-        chrono::years y = days_.time_since_epoch();
-        chrono::days d{y};
-        chrono::months m = days_.time_since_epoch() - d;
-        return clock_traits::adjust_epoch(chrono::month(m.count() + 1));
+        return clock_traits::adjust_epoch(chrono::month(split().month));
     }
 
     //constexpr
     chrono::year year() const NOEXCEPT
     {
-        chrono::years y = days_.time_since_epoch();
-        return clock_traits::adjust_epoch(chrono::year(y.count()));
+        return clock_traits::adjust_epoch(chrono::year(split().year));
     }
 
     constexpr year_month_day(const sys_days& dp) NOEXCEPT :
-- 
2.43.0


From 9a93e1d217b60f695a78c73dcea6c3b3f92bd050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:47 +0000
Subject: [PATCH 65/92] fix: the maximum octal length of 16 and 64 bit integers
 counts the last digit

---
 src/estd/internal/limits/traits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/limits/traits.h b/src/estd/internal/limits/traits.h
index 4153773..36d1fe9 100644
--- a/src/estd/internal/limits/traits.h
+++ b/src/estd/internal/limits/traits.h
@@ -32,10 +32,10 @@ template <unsigned bits>
 struct uint_strlen<16, bits> :
     estd::integral_constant<unsigned, bits / 4> {};
 
-// DEBT: calculation approximate, higher the bitcount the more wasted space
+// Each digit covers 3 bits, the last one perhaps fewer
 template <unsigned bits>
 struct uint_strlen<8, bits> :
-    estd::integral_constant<unsigned, (bits + 1) / 3> {};
+    estd::integral_constant<unsigned, (bits + 2) / 3> {};
 
 // Not the same as boost's version
 template <class T, bool is_signed_>
-- 
2.43.0


From f170a6dbdf6f3805a5d29e861ab0718da91bfed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:47 +0000
Subject: [PATCH 66/92] fix: isspace knows about tabs and line breaks

---
 src/estd/cctype.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/cctype.h b/src/estd/cctype.h
index 212a26a..0cb4b37 100644
--- a/src/estd/cctype.h
+++ b/src/estd/cctype.h
@@ -23,7 +23,7 @@ inline int isalpha(int ch)
 
 inline int isspace(int ch)
 {
-    return internal::ascii_isspace(ch);
+    return ch == ' ' || ('\t' <= ch && ch <= '\r');
 }
 
 inline int isdigit(int ch)
-- 
2.43.0


From 976915975dbdcf7ba3e6ce8007f72f7f748d9b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:57 +0000
Subject: [PATCH 67/92] fix: unique_lock knows whether it holds the mutex and
 gives it back when destroyed

---
 src/estd/mutex.h | 49 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/estd/mutex.h b/src/estd/mutex.h
index bc1be48..62aa4d5 100644
--- a/src/estd/mutex.h
+++ b/src/estd/mutex.h
@@ -50,52 +50,79 @@ class unique_lock : protected TBase
 {
     typedef TBase base_type;
 
+    // true when we are the one who must unlock the mutex
+    bool owns_;
+
 public:
     typedef TMutex mutex_type;
 
     mutex_type* mutex() const { return base_type::value(); }
 
+    bool owns_lock() const { return owns_; }
+
     mutex_type* release()
     {
         mutex_type* temp = mutex();
         base_type::value(NULLPTR);
+        owns_ = false;
         return temp;
     }
 
-    void lock() { mutex()->lock(); }
+    void lock()
+    {
+        mutex()->lock();
+        owns_ = true;
+    }
 
-    void unlock() { mutex()->unlock(); }
+    bool try_lock() { return owns_ = mutex()->try_lock(); }
+
+    void unlock()
+    {
+        mutex()->unlock();
+        owns_ = false;
+    }
 
 #ifdef FEATURE_ESTD_CHRONO2
     template< class Rep, class Period >
     bool try_lock_for( const estd::chrono::duration<Rep,Period>& timeout_duration )
     {
-        return mutex()->try_lock_for(timeout_duration);
+        return owns_ = mutex()->try_lock_for(timeout_duration);
     }
 #endif
 
-    unique_lock() : base_type(NULLPTR) {}
+    unique_lock() : base_type(NULLPTR), owns_(false) {}
+
+#ifdef FEATURE_CPP_DELETE_CTOR
+    unique_lock(const unique_lock&) = delete;
+    unique_lock& operator=(const unique_lock&) = delete;
+#endif
+
+    ~unique_lock()
+    {
+        if(owns_) mutex()->unlock();
+    }
 
-    explicit unique_lock(mutex_type& m) : base_type(&m)
+    explicit unique_lock(mutex_type& m) : base_type(&m), owns_(true)
     {
         m.lock();
     }
 
-    unique_lock(mutex_type& m, defer_lock_t) : base_type(&m) {}
-    unique_lock(mutex_type& m, adopt_lock_t) : base_type(&m) {}
+    unique_lock(mutex_type& m, defer_lock_t) : base_type(&m), owns_(false) {}
+    unique_lock(mutex_type& m, adopt_lock_t) : base_type(&m), owns_(true) {}
 
-    unique_lock( mutex_type& m, try_to_lock_t) : base_type(&m)
+    unique_lock( mutex_type& m, try_to_lock_t) :
+        base_type(&m),
+        owns_(m.try_lock())
     {
-        m.try_lock();
     }
 
 #ifdef FEATURE_ESTD_CHRONO2
     template< class Rep, class Period >
     unique_lock( mutex_type& m, 
              const estd::chrono::duration<Rep,Period>& timeout_duration ) :
-            base_type(&m)
+            base_type(&m),
+            owns_(m.try_lock_for(timeout_duration))
     {
-        m.try_lock_for(timeout_duration);
     }
 #endif
 };
-- 
2.43.0


From 6c972b444591cba90a044dd086a21c8d03d327ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:12 +0000
Subject: [PATCH 68/92] fix: strings assigned from a view of their own content
 keep all of it

The size was adjusted before the new content was copied, and for a null
terminated string that writes the terminator into the very characters still
to be copied.  The copy itself may overlap too, so memmove it.
---
 src/estd/internal/container/specializer.h |  3 ++-
 src/estd/internal/dynamic_array.h         | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/container/specializer.h b/src/estd/internal/container/specializer.h
index 75234fd..6e067d1 100644
--- a/src/estd/internal/container/specializer.h
+++ b/src/estd/internal/container/specializer.h
@@ -189,7 +189,8 @@ struct dynamic_array_helper<Impl, enable_if_t<
 
         // TODO: Do the m_impl.copy_from here
 
-        memcpy(dest, src, count * sizeof(value_type));
+        // dest may overlap us
+        memmove(dest, src, count * sizeof(value_type));
 
         a.cunlock();
 
diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index b5260be..d7ff86c 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -185,9 +185,13 @@ protected:
     // TODO: change to assign
     void assign(const_pointer buf, size_type len)   // NOLINT
     {
-        ensure_total_size(len);
+        // buf may point into our own content, so the size (which a null terminated
+        // array keeps inside its content) is adjusted only once buf has been copied
+        ensure_total_capacity(len);
 
         base_type::assign(buf, len);
+
+        impl().size(len);
     }
 
     // DEBT: Use a strictness feature flag to disallow falling back
@@ -634,8 +638,11 @@ public:
     {
         const unsigned len = copy_from.size();
 
-        ensure_total_size(len);
+        // copy_from may refer to our own content, so the size (which a null terminated
+        // array keeps inside its content) is adjusted only once it has been copied
+        ensure_total_capacity(len);
         helper::copy_from(*this, 0, copy_from, len);
+        impl().size(len);
     }
 
 
-- 
2.43.0


From 6a18478734577daf200b8ee342512d1668a7290a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:39 +0000
Subject: [PATCH 69/92] fix: inserting part of a string into itself inserts
 what it was

The characters behind the insert position are moved before the inserted ones
are copied, so a source inside the string itself was no longer where it was
said to be (or, in a growing string, had been freed).
---
 src/estd/internal/dynamic_array.h | 39 +++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index d7ff86c..69de6e4 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -326,6 +326,45 @@ protected:
     }
 
 
+    // Contiguous source, which may be part of our own content
+    bool raw_insert(unsigned to_insert_pos, const_pointer first, const_pointer last)
+    {
+        const size_type sz = impl().size();
+        const size_type input_sz = last - first;
+
+        const_pointer own = base_type::clock();
+        const bool aliased = first >= own && first < own + sz;
+        const size_type offset = aliased ? first - own : 0;
+        base_type::cunlock();
+
+        if(ensure_total_size(sz + input_sz) == false) return false;
+
+        pointer data = lock();
+
+        copy_assist(data + to_insert_pos,
+            data + sz,
+            data + sz + input_sz);
+
+        if(aliased)
+        {
+            // What we insert precedes the insert position (and is where it always was),
+            // follows it (and has just been moved over) or some of each
+            const size_type before = offset < to_insert_pos ?
+                estd::min(input_sz, (size_type)(to_insert_pos - offset)) : 0;
+
+            estd::copy_n(data + offset, before, data + to_insert_pos);
+            estd::copy_n(data + offset + input_sz + before,
+                input_sz - before,
+                data + to_insert_pos + before);
+        }
+        else
+            estd::copy(first, last, data + to_insert_pos);
+
+        unlock();
+        return true;
+    }
+
+
     void raw_insert(unsigned to_insert_pos, const_pointer to_insert_value)
     {
         // NOTE: may not be very efficient (underlying allocator may need to realloc/copy etc.
-- 
2.43.0


From cd12e3bfc15209a96ec619c81c0cd23f0a1389b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:39 +0000
Subject: [PATCH 70/92] fix: appending an element of a growing vector to itself

Growing may move the elements, and the one to append was read from where
they had been.
---
 src/estd/internal/dynamic_array.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 69de6e4..d05d97b 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -647,6 +647,14 @@ public:
 
     append_result push_back(const value_type& value)
     {
+        if(size() == capacity())
+        {
+            // Growing may move our content, and value may be part of it
+            const value_type copy(value);
+
+            return append(&copy, 1);
+        }
+
         return append(&value, 1);
     }
 
-- 
2.43.0


From df86701fda128551c6251ab43f4717cabfde34fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:00 +0000
Subject: [PATCH 71/92] fix: raw storage of arrays, shared references and pools
 is aligned for what it holds

---
 src/estd/exp/memory/memory_pool2.h | 3 +++
 src/estd/internal/array.h          | 7 +------
 src/estd/memory.h                  | 3 +++
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/estd/exp/memory/memory_pool2.h b/src/estd/exp/memory/memory_pool2.h
index 442f54b..0132d42 100644
--- a/src/estd/exp/memory/memory_pool2.h
+++ b/src/estd/exp/memory/memory_pool2.h
@@ -35,6 +35,9 @@ private:
         item* next;
         // NOTE: Usage of estd::array may implicitly bring along
         // raw_instance_provider behavior.
+#ifdef FEATURE_CPP_ALIGN
+        alignas(T)
+#endif
         estd::experimental::raw_instance_provider<T> value;
     };
 
diff --git a/src/estd/internal/array.h b/src/estd/internal/array.h
index ac95c54..e091cd5 100644
--- a/src/estd/internal/array.h
+++ b/src/estd/internal/array.h
@@ -35,14 +35,9 @@ struct uninitialized_array : array_base_size<N>
 
     struct container
     {
-        // as per pggcc-29, looks like arrays don't have to worry much about alignment
-#if UNUSED
 #ifdef FEATURE_CPP_ALIGN
+        // A byte array by itself may land anywhere, T may not
         alignas(T)
-#elif defined(__GNUC__)
-        // FIX: This gets mad for odd sizes
-        __attribute__((aligned(sizeof(T))))
-#endif
 #endif
         estd::byte data[sizeof(T)];
     };
diff --git a/src/estd/memory.h b/src/estd/memory.h
index 3d9495c..3f02cf1 100644
--- a/src/estd/memory.h
+++ b/src/estd/memory.h
@@ -346,6 +346,9 @@ struct shared_ptr_base :
     typedef experimental::instance_provider<TControlBlock> base_type;
     typedef typename TControlBlock::managed_type managed_type;
 
+#ifdef FEATURE_CPP_ALIGN
+    alignas(managed_type)
+#endif
     experimental::raw_instance_provider<managed_type, size> _provided;
 
     // FIX: clean up naming - getting 'value' collisions from multiple providers
-- 
2.43.0


From c2dcff430307ee4c49e5d1938f26c18e14c521b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:08 +0000
Subject: [PATCH 72/92] fix: assigning one element of a string or vector from
 another assigns the element

---
 .../internal/container/traditional_accessor.h    | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/estd/internal/container/traditional_accessor.h b/src/estd/internal/container/traditional_accessor.h
index 05f7fbc..ff25592 100644
--- a/src/estd/internal/container/traditional_accessor.h
+++ b/src/estd/internal/container/traditional_accessor.h
@@ -67,6 +67,22 @@ struct traditional_accessor : locking_accessor<impl::traditional_accessor<T> >
         base_type::operator=(copy_from);
         return *this;
     }
+
+#if __cpp_ref_qualifiers
+    traditional_accessor(const traditional_accessor&) = default;
+
+    // A kept accessor (i.e. within an iterator) is pointed elsewhere
+    traditional_accessor& operator=(const traditional_accessor&) & = default;
+
+    // A temporary one, as comes back from operator[] and friends, stands for the
+    // element itself - so v[0] = v[1] assigns that
+    traditional_accessor& operator=(const traditional_accessor& copy_from) &&
+    {
+        base_type::operator=(copy_from.clock());
+        copy_from.cunlock();
+        return *this;
+    }
+#endif
 };
 
 
-- 
2.43.0


From 7b092dbd40156c488f282958540a4be038f50f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:33 +0000
Subject: [PATCH 73/92] fix: a growing vector made from an initializer list
 allocates room for it

---
 src/estd/internal/dynamic_array.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index d05d97b..c2ffd15 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -409,8 +409,11 @@ public:
         base_type(p1) {}
 
 #if __cpp_initializer_lists
-    constexpr dynamic_array(std::initializer_list<value_type> initlist)
-        : base_type(initlist) {}
+    ESTD_CPP_CONSTEXPR(14) dynamic_array(std::initializer_list<value_type> initlist)
+    {
+        // makes room first, as it must when the allocator is one which grows
+        append(initlist.begin(), initlist.size());
+    }
 #endif
 
     // TODO: iterate through and destruct elements
-- 
2.43.0


From dc6fc6e2ea596db0410f73e3e05c29457b0a62cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:21 +0000
Subject: [PATCH 74/92] fix: C variadic functions are functions

---
 src/estd/internal/type_traits/is_function.h | 30 +++++++++------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/estd/internal/type_traits/is_function.h b/src/estd/internal/type_traits/is_function.h
index 5e2003c..82b706c 100644
--- a/src/estd/internal/type_traits/is_function.h
+++ b/src/estd/internal/type_traits/is_function.h
@@ -28,17 +28,15 @@ struct is_function<Ret(Args...) volatile> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) const volatile> : true_type {};
 
-#ifdef FEATURE_CPP_AMBIGUOUS_ELLIPSES
 // specialization for variadic functions such as printf
 template<class Ret, class... Args>
-struct is_function<Ret(Args......)> : true_type {};
+struct is_function<Ret(Args..., ...)> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const> : true_type {};
+struct is_function<Ret(Args..., ...) const> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) volatile> : true_type {};
+struct is_function<Ret(Args..., ...) volatile> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const volatile> : true_type {};
-#endif
+struct is_function<Ret(Args..., ...) const volatile> : true_type {};
 
 // specialization for function types that have ref-qualifiers
 template<class Ret, class... Args>
@@ -49,16 +47,14 @@ template<class Ret, class... Args>
 struct is_function<Ret(Args...) volatile &> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) const volatile &> : true_type {};
-#ifdef FEATURE_CPP_AMBIGUOUS_ELLIPSES
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) &> : true_type {};
+struct is_function<Ret(Args..., ...) &> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const &> : true_type {};
+struct is_function<Ret(Args..., ...) const &> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) volatile &> : true_type {};
+struct is_function<Ret(Args..., ...) volatile &> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const volatile &> : true_type {};
-#endif
+struct is_function<Ret(Args..., ...) const volatile &> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) &&> : true_type {};
 template<class Ret, class... Args>
@@ -67,16 +63,14 @@ template<class Ret, class... Args>
 struct is_function<Ret(Args...) volatile &&> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) const volatile &&> : true_type {};
-#ifdef FEATURE_CPP_AMBIGUOUS_ELLIPSES
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) &&> : true_type {};
+struct is_function<Ret(Args..., ...) &&> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const &&> : true_type {};
+struct is_function<Ret(Args..., ...) const &&> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) volatile &&> : true_type {};
+struct is_function<Ret(Args..., ...) volatile &&> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const volatile &&> : true_type {};
-#endif
+struct is_function<Ret(Args..., ...) const volatile &&> : true_type {};
 
 // specializations for noexcept versions of all the above (C++17 and later)
 
-- 
2.43.0


From b6ac4943293f8c4353353194bd66c2ab2976e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:21 +0000
Subject: [PATCH 75/92] fix: decay of a noexcept function type is a pointer to
 it

---
 src/estd/type_traits.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/estd/type_traits.h b/src/estd/type_traits.h
index a6785ca..7d155a4 100644
--- a/src/estd/type_traits.h
+++ b/src/estd/type_traits.h
@@ -83,6 +83,18 @@ template< class T, class... Args >
 struct add_pointer<T(Args..., ...), true> {
     using type = T(*)(Args..., ...);
 };
+
+#if __cplusplus >= 201703L
+template< class T, class... Args >
+struct add_pointer<T(Args...) noexcept, true> {
+    using type = T(*)(Args...) noexcept;
+};
+
+template< class T, class... Args >
+struct add_pointer<T(Args..., ...) noexcept, true> {
+    using type = T(*)(Args..., ...) noexcept;
+};
+#endif
 #endif
  
 } // namespace detail
-- 
2.43.0


From fa8bb9eeee5f21a3ad14bd473e4efd4affbb62d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:21 +0000
Subject: [PATCH 76/92] fix: only arithmetic types are unsigned

---
 src/estd/type_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/type_traits.h b/src/estd/type_traits.h
index 7d155a4..012c338 100644
--- a/src/estd/type_traits.h
+++ b/src/estd/type_traits.h
@@ -49,7 +49,7 @@ template<typename T>
 struct is_signed : internal::is_signed<T>::type {};
 
 template<typename T>
-struct is_unsigned : bool_constant<!is_signed<T>::value> {};
+struct is_unsigned : bool_constant<is_arithmetic<T>::value && !is_signed<T>::value> {};
 
 template< class T > struct is_pointer : internal::___is_pointer<typename remove_cv<T>::type> {};
 
-- 
2.43.0


From 094afc394a3709007be51aa1b53bd1cfc8afb2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:23 +0000
Subject: [PATCH 77/92] fix: a list that has a value more than once contains it

---
 src/estd/internal/variadic/integer_sequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/variadic/integer_sequence.h b/src/estd/internal/variadic/integer_sequence.h
index aa5b364..30d51c8 100644
--- a/src/estd/internal/variadic/integer_sequence.h
+++ b/src/estd/internal/variadic/integer_sequence.h
@@ -94,7 +94,7 @@ struct values :
         template <T v>
         using contains = bool_constant<
             selector<
-                internal::is_same_value_selector<T, v>>::values::size() == 1>;
+                internal::is_same_value_selector<T, v>>::values::size() != 0>;
     };
 
     template <class Eval>
-- 
2.43.0


From c6bd8eab85f0188b011c5f423f446f867261110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:35 +0000
Subject: [PATCH 78/92] fix: flushing a posix stream flushes its file

---
 src/estd/port/posix/streambuf.cpp | 5 +++++
 src/estd/port/posix/streambuf.h   | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/estd/port/posix/streambuf.cpp b/src/estd/port/posix/streambuf.cpp
index 524e5f7..9cd1880 100644
--- a/src/estd/port/posix/streambuf.cpp
+++ b/src/estd/port/posix/streambuf.cpp
@@ -43,6 +43,11 @@ int posix_streambuf::sgetc()
     return c;
 }
 
+int posix_streambuf::sync()
+{
+    return fflush(&this->stream) == 0 ? 0 : -1;
+}
+
 } } }
 
 #endif
diff --git a/src/estd/port/posix/streambuf.h b/src/estd/port/posix/streambuf.h
index 070baf2..db071d5 100644
--- a/src/estd/port/posix/streambuf.h
+++ b/src/estd/port/posix/streambuf.h
@@ -90,6 +90,7 @@ struct posix_streambuf :
     int sgetc();
     int sbumpc();
     int sputc(char);
+    int sync();
 
     // TODO: Might want this one day, but it will mandate carring that #include <stdio.h> around
     // though at the moment we have to do that anyway due to ::FILE
-- 
2.43.0


From af2b2e6edb18fbbfcda18fe906b70a8a439eafb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:49 +0000
Subject: [PATCH 79/92] fix: istreambuf_iterator on an exhausted buffer is an
 end iterator

---
 src/estd/internal/istreambuf_iterator.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/istreambuf_iterator.h b/src/estd/internal/istreambuf_iterator.h
index 81f5065..e93b6dc 100644
--- a/src/estd/internal/istreambuf_iterator.h
+++ b/src/estd/internal/istreambuf_iterator.h
@@ -40,7 +40,13 @@ private:
 
     //bool end() const { return ch == traits_type::eof(); }
     //bool end() const { return rdbuf_->in_avail() == -1; }
-    ESTD_CPP_CONSTEXPR_RET bool end() const { return rdbuf_ == NULLPTR; }
+    // A buffer which has nothing further to give is an 'end' iterator too, even
+    // before it has been stepped through
+    bool end() const
+    {
+        return rdbuf_ == NULLPTR ||
+            (rdbuf_->sgetc() == traits_type::eof() && rdbuf_->in_avail() == -1);
+    }
 
 
     // https://en.cppreference.com/w/cpp/iterator/istreambuf_iterator/equal
-- 
2.43.0


From d10789fcb67a059821d0f9f49b3b772876c9f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:49 +0000
Subject: [PATCH 80/92] fix: setbase of anything but 8 or 16 prints decimal,
 not octal

---
 src/estd/internal/locale/num_put.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/estd/internal/locale/num_put.h b/src/estd/internal/locale/num_put.h
index c6ba2ba..ba158e8 100644
--- a/src/estd/internal/locale/num_put.h
+++ b/src/estd/internal/locale/num_put.h
@@ -20,24 +20,22 @@ inline unsigned get_base2(const ios_base::fmtflags basefield)
     {
         return 16;
     }
-    else if(basefield == ios_base::dec)
+    else if(basefield == ios_base::oct)
     {
-        return 10;
+        return 8;
     }
     else
     {
-        return 8;
-        // oct
-        // basefield mask is guaranteed to produce one of these 3 options
-        // DEBT: Ensure there's a unit test to that effect elsewhere
+        return 10;
+        // dec, or no base in particular e.g. setbase(0)
     }
 }
 
 constexpr unsigned get_base(const ios_base::fmtflags basefield)
 {
     return basefield == ios_base::hex ? 16 :
-        basefield == ios_base::dec ? 10 :
-        8;
+        basefield == ios_base::oct ? 8 :
+        10;
 }
 
 // Integer core of num_put, no fill/width padding
-- 
2.43.0


From 08324162aa5b79b3705b1f7651472cd76f554bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:49 +0000
Subject: [PATCH 81/92] fix: ostreambuf_iterator: failed() was inverted and its
 state uninitialised

---
 src/estd/iterator.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/estd/iterator.h b/src/estd/iterator.h
index fcac627..a3508b1 100644
--- a/src/estd/iterator.h
+++ b/src/estd/iterator.h
@@ -86,21 +86,23 @@ public:
     }
 
     ostreambuf_iterator(streambuf_type* rdbuf) :
-        rdbuf(rdbuf)
+        rdbuf(rdbuf),
+        last_written(0)
     {
 
     }
 
     template <class TBase>
     ostreambuf_iterator(estd::detail::basic_ostream<TStreambuf, TBase>& stream) :
-        rdbuf(stream.rdbuf())
+        rdbuf(stream.rdbuf()),
+        last_written(0)
     {
 
     }
 
     ostreambuf_iterator& operator=(char_type c)
     {
-        if(rdbuf)
+        if(rdbuf && !failed())
             last_written = rdbuf->sputc(c);
 
         return *this;
@@ -121,7 +123,7 @@ public:
 
     bool failed() const
     {
-        return last_written != traits_type::eof();
+        return last_written == traits_type::eof();
     }
 };
 
-- 
2.43.0


From 12f993f226b20ded1648b7b28466bd8b6517b830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:21 +0000
Subject: [PATCH 82/92] fix: forward_list::remove_if gives back the nodes it
 unlinks

---
 src/estd/forward_list.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/forward_list.h b/src/estd/forward_list.h
index c7bfb86..df1e221 100644
--- a/src/estd/forward_list.h
+++ b/src/estd/forward_list.h
@@ -223,6 +223,8 @@ public:
                 else
                     set_next(previous, _next);
 
+                get_traits().deallocate(current);
+
                 if (first_only) return;
             }
             else
-- 
2.43.0


From 706d37b721a2d7af7eac82425e61ecfb37df8f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:21 +0000
Subject: [PATCH 83/92] fix: lists of values destroy a value along with its
 node

---
 src/estd/traits/list_node.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/traits/list_node.h b/src/estd/traits/list_node.h
index 06fc7d1..9ad394a 100644
--- a/src/estd/traits/list_node.h
+++ b/src/estd/traits/list_node.h
@@ -264,9 +264,10 @@ struct inlinevalue_node_traits_new_base :
         return h;
     }
 
+    // node holds the value, so that's destroyed along with it
     void deallocate(node_handle& h)
     {
-        base_t::deallocate_node(h);
+        base_t::destroy(h);
     }
 
 #ifdef FEATURE_CPP_VARIADIC
-- 
2.43.0


From 48f66b60df3abfaddd58d8673befdeebef2d91e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:39 +0000
Subject: [PATCH 84/92] fix: strings and arrays compare with and search for
 texts longer than their size type expresses

---
 src/estd/internal/runtime_array.h | 11 ++++++-----
 src/estd/internal/string.h        | 17 +++++++++--------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index 23902d5..7813769 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -402,7 +402,7 @@ public:
     /// @param npos value representing 'not found'
     /// @return
     ESTD_CPP_CONSTEXPR(14) size_type find(
-        const_pointer s, size_type pos, size_type count, size_type npos) const
+        const_pointer s, size_type pos, size_t count, size_type npos) const
     {
         const size_type sz = size();
 
@@ -433,7 +433,7 @@ public:
     /// @param npos value representing 'not found'
     /// @return
     ESTD_CPP_CONSTEXPR(14) size_type rfind(
-        const_pointer s, size_type pos, size_type count, size_type npos) const
+        const_pointer s, size_type pos, size_t count, size_type npos) const
     {
         const size_type sz = size();
 
@@ -463,7 +463,7 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find_first_of(
-        const_pointer s, size_type pos, size_type count, size_type npos) const
+        const_pointer s, size_type pos, size_t count, size_type npos) const
     {
         const size_type sz = size();
 
@@ -480,7 +480,7 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find_last_of(
-        const_pointer s, size_type pos, size_type count, size_type npos) const
+        const_pointer s, size_type pos, size_t count, size_type npos) const
     {
         const size_type sz = size();
 
@@ -502,7 +502,8 @@ public:
     ESTD_CPP_CONSTEXPR(14) bool operator ==(const allocated_array<Impl2>& compare_to) const
     {
         size_type raw_size = size();
-        size_type s_size = compare_to.size();
+        // compare_to's size may be more than our size_type can express
+        size_t s_size = compare_to.size();
 
         if(raw_size != s_size) return false;
 
diff --git a/src/estd/internal/string.h b/src/estd/internal/string.h
index 5524e22..31a1121 100644
--- a/src/estd/internal/string.h
+++ b/src/estd/internal/string.h
@@ -58,9 +58,10 @@ protected:
     ESTD_CPP_FORWARDING_CTOR(basic_string)
 
     template <typename InputIt>
-    int compare(InputIt s, size_type s_size) const
+    int compare(InputIt s, size_t s_size) const
     {
-        size_type raw_size = base_type::size();
+        // size_t since s may be longer than our size_type can express
+        const size_t raw_size = base_type::size();
 
         const int r = helper::compare(*this, s, estd::min(raw_size, s_size));
 
@@ -159,14 +160,14 @@ public:
     }
 
 
-    ESTD_CPP_CONSTEXPR(14) size_type find(const_pointer s, size_type pos, size_type count) const
+    ESTD_CPP_CONSTEXPR(14) size_type find(const_pointer s, size_type pos, size_t count) const
     {
         return base_type::find(s, pos, count, npos);
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find(const_pointer s, size_type pos = 0) const
     {
-        size_type count = traits_type::length(s);
+        size_t count = traits_type::length(s);
 
         return find(s, pos, count);
     }
@@ -182,14 +183,14 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type rfind(
-        const_pointer s, size_type pos, size_type count) const
+        const_pointer s, size_type pos, size_t count) const
     {
         return base_type::rfind(s, pos, count, npos);
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type rfind(const_pointer s, size_type pos = npos) const
     {
-        size_type count = traits_type::length(s);
+        size_t count = traits_type::length(s);
 
         return rfind(s, pos, count);
     }
@@ -205,7 +206,7 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find_first_of(
-        const_pointer s, size_type pos, size_type count) const
+        const_pointer s, size_type pos, size_t count) const
     {
         return base_type::find_first_of(s, pos, count, npos);
     }
@@ -227,7 +228,7 @@ public:
     }
 
     ESTD_CPP_CONSTEXPR(14) size_type find_last_of(
-        const_pointer s, size_type pos, size_type count) const
+        const_pointer s, size_type pos, size_t count) const
     {
         return base_type::find_last_of(s, pos, count, npos);
     }
-- 
2.43.0


From 392a315883135ab8494f856910bdaffcff1399bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:39 +0000
Subject: [PATCH 85/92] fix: copy with a count of npos and a position wraps
 around

---
 src/estd/internal/container/specializer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/container/specializer.h b/src/estd/internal/container/specializer.h
index 6e067d1..0a17674 100644
--- a/src/estd/internal/container/specializer.h
+++ b/src/estd/internal/container/specializer.h
@@ -44,7 +44,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
         // TODO: since we aren't gonna throw an exception, determine what to do if
         // pos > size()
 
-        if(pos + count > a.size())
+        if(count > a.size() - pos)
             count = a.size() - pos;
 
         estd::copy_n(src, count, dest);
@@ -184,7 +184,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
         // TODO: since we aren't gonna throw an exception, determine what to do if
         // pos > size()
 
-        if(pos + count > a.size())
+        if(count > a.size() - pos)
             count = a.size() - pos;
 
         // TODO: Do the m_impl.copy_from here
-- 
2.43.0


From fe0dd63fc738ac8fb59b87ddd8aad1dae9e9a0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:17 +0000
Subject: [PATCH 86/92] fix: unordered containers can erase and clear elements
 without a destructor in C++20

---
 src/estd/internal/container/unordered/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 0f3433c..7c3b693 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -67,7 +67,7 @@ protected:
     }
 
     template <class T, class Enable = enable_if_t<!has_destructor<T>::value>>
-    static ESTD_CPP_CONSTEVAL void destruct_ll(T& t, int = {})
+    static ESTD_CPP_CONSTEXPR(14) void destruct_ll(T& t, int = {})
     {
     }
 
-- 
2.43.0


From a2efb42366d11d656d780e78c82086a908bdc61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:02 +0000
Subject: [PATCH 87/92] fix: reading bytes above 0x7F from an Arduino stream
 gives the byte, not end of file

---
 src/estd/port/arduino/streambuf.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/port/arduino/streambuf.h b/src/estd/port/arduino/streambuf.h
index 822380b..ef9c326 100644
--- a/src/estd/port/arduino/streambuf.h
+++ b/src/estd/port/arduino/streambuf.h
@@ -80,7 +80,7 @@ public:
     int_type sbumpc()
     {
         int_type ch = underlying().read();
-        return ch == -1 ? traits_type::eof() : traits_type::to_char_type(ch);
+        return ch == -1 ? traits_type::eof() : traits_type::to_int_type(traits_type::to_char_type(ch));
     }
 
     // TODO: Document somewhere why we have xin_avail AND shomanyc
@@ -92,13 +92,13 @@ public:
     int_type underflow() const
     {
         int_type ch = underlying().peek();
-        return ch == -1 ? traits_type::eof() : traits_type::to_char_type(ch);
+        return ch == -1 ? traits_type::eof() : traits_type::to_int_type(traits_type::to_char_type(ch));
     }
 
     int_type uflow() const
     {
         int_type ch = underlying().read();
-        return ch == -1 ? traits_type::eof() : traits_type::to_char_type(ch);
+        return ch == -1 ? traits_type::eof() : traits_type::to_int_type(traits_type::to_char_type(ch));
     }
 
     streamsize xsgetn(char_type* s, streamsize count)
-- 
2.43.0


From 77cd9080d81c688bf8cd95141bacf1d9bab93d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:32 +0000
Subject: [PATCH 88/92] fix: estd's own char_traits compares characters as
 unsigned, as std::char_traits does

---
 src/estd/traits/char_traits.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/estd/traits/char_traits.h b/src/estd/traits/char_traits.h
index 5b242e6..b2e55cb 100644
--- a/src/estd/traits/char_traits.h
+++ b/src/estd/traits/char_traits.h
@@ -72,8 +72,9 @@ struct char_traits<char>
     {
         for(;count != 0; --count, ++s1, ++s2)
         {
-            if(*s1 < *s2) return -1;
-            if(*s1 > *s2) return 1;
+            // as unsigned char, like std::char_traits and memcmp
+            if(to_int_type(*s1) < to_int_type(*s2)) return -1;
+            if(to_int_type(*s1) > to_int_type(*s2)) return 1;
         }
 
         return 0;
-- 
2.43.0


From 61f73781938c8b7fcdcbcb44f28bc75a62e2b1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:32 +0000
Subject: [PATCH 89/92] fix: stream buffers count available characters as
 streamsize, not as the character's int_type

---
 src/estd/internal/impl/streambuf/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/impl/streambuf/base.h b/src/estd/internal/impl/streambuf/base.h
index 4fbe0c5..4257b91 100644
--- a/src/estd/internal/impl/streambuf/base.h
+++ b/src/estd/internal/impl/streambuf/base.h
@@ -99,7 +99,7 @@ protected:
     // Helper to produce showmanyc-style return values from regular
     // in avail style values.  Remember "0" for showmanyc means
     // unknown character availabity
-    inline static streamsize showmanyc(int_type avail, bool eof = true)
+    inline static streamsize showmanyc(streamsize avail, bool eof = true)
     {
         if(eof)
             // eof flag tells us whether there's any ambiguity about actually being end of buffer
-- 
2.43.0


From c7fed0924612fb6861037432571cf1d81968d982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:24 +0000
Subject: [PATCH 90/92] fix: hash of an empty optional does not read the absent
 value

---
 src/estd/optional.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/estd/optional.h b/src/estd/optional.h
index 152d86c..078c997 100644
--- a/src/estd/optional.h
+++ b/src/estd/optional.h
@@ -454,7 +454,18 @@ struct hash<optional<T, Base>>
     {
         using underlying = hash<estd::remove_const_t<T>>;
 
-        return underlying{}(*v);
+        // An empty one has no value to hash, and all empties must hash alike
+        return v.has_value() ? underlying{}(*v) : 0;
+    }
+};
+
+// Here an empty one does carry a value, the null one
+template <class T, T null_value>
+struct hash<optional<T, internal::layer1::optional_base<T, 0, null_value>>>
+{
+    constexpr size_t operator()(const optional<T, internal::layer1::optional_base<T, 0, null_value>>& v) const
+    {
+        return hash<estd::remove_const_t<T>>{}(*v);
     }
 };
 
-- 
2.43.0


From 3e289d2ace01cc3a3ad305a6eb537abb0b6b0820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:11:08 +0000
Subject: [PATCH 91/92] fix: virtual memory neither crashes, overlaps nor loses
 storage when exact, full or tidied up

---
 src/estd/exp/memory/memory_pool2.h | 32 ++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/estd/exp/memory/memory_pool2.h b/src/estd/exp/memory/memory_pool2.h
index 0132d42..7b6c5f4 100644
--- a/src/estd/exp/memory/memory_pool2.h
+++ b/src/estd/exp/memory/memory_pool2.h
@@ -208,7 +208,7 @@ struct virtual_memory
     handle_index allocate(size_type size)
     {
         item* i = free_head,
-            *prev;
+            *prev = NULLPTR;
 
         // TODO: coerce size to be aligned so that allocations and frees also have aligned size
 
@@ -221,17 +221,30 @@ struct virtual_memory
             handle_index hi;
             if(i->chunk_size == size)
             {
-                prev->next = i->next;
-
                 handle* h = get_free_handle(hi);
+
+                if(h == NULLPTR) return -1;
+
+                if(prev == NULLPTR)
+                    free_head = i->next;
+                else
+                    prev->next = i->next;
+
+                // maintenance may have been looking at the item we just took
+                mode = maintenance_mode::uninitialized;
+
                 h->data = (pointer) i;
                 h->chunk_size = size;
 
                 return hi;
             }
-            else if(i->chunk_size > size)
+            // what remains has to have enough space to track itself, too
+            else if(i->chunk_size >= size + sizeof(item))
             {
                 handle* h = get_free_handle(hi);
+
+                if(h == NULLPTR) return -1;
+
                 h->data = ((pointer) i) + (i->chunk_size - size);
                 h->chunk_size = size;
 
@@ -263,6 +276,9 @@ struct virtual_memory
         h.data = NULLPTR;
 
         free_head = i;
+
+        // maintenance may have been under way at the item following now
+        mode = maintenance_mode::uninitialized;
     }
 
     size_type total_free(size_type* node_counter = NULLPTR) const
@@ -308,7 +324,7 @@ struct virtual_memory
         item* i = compact_state.evaluating;
         item* i_prev = compact_state.evaluating_prev;
 
-        if(i->next == NULLPTR) return false;
+        if(i == NULLPTR || i->next == NULLPTR) return false;
 
         // if next free node is positioned before this one
         if(i->next < i)
@@ -332,16 +348,16 @@ struct virtual_memory
             else
                 i_prev->next = i_physical_0;
 
+            // the former is the one which remains
             if(maint_absorb(i_physical_0, i_physical_1))
-                i = i_physical_1;
+                i = i_physical_0;
         }
         else
         {
             item* i_physical_0 = i;
             item* i_physical_1 = i->next;
 
-            if(maint_absorb(i_physical_0, i_physical_1))
-                i = i_physical_1;
+            maint_absorb(i_physical_0, i_physical_1);
         }
 
         compact_state.evaluating_prev = i;
-- 
2.43.0


From b91b408029d7cb0216556ab9a1e70e0d035a1dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:02 +0000
Subject: [PATCH 92/92] fix: seekp returns the stream it moved

---
 src/estd/internal/ostream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/estd/internal/ostream.h b/src/estd/internal/ostream.h
index fd064cc..7ab3fd4 100644
--- a/src/estd/internal/ostream.h
+++ b/src/estd/internal/ostream.h
@@ -156,6 +156,7 @@ public:
     __ostream_type& seekp(off_type off, ios_base::seekdir dir)
     {
         this->rdbuf()->pubseekoff(off, dir, ios_base::out);
+        return *this;
     }
 
     // When the time comes, these will replace the old virtual ones
-- 
2.43.0

