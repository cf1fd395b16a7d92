From ea74b9c8d6e3cb0f199daae09cd285ff01e315d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 01/22] fix: compare the elements between both tail offsets in
 flex_vector equality

When the left operand keeps more elements in its tree than the right one,
the elements between both tail offsets were in general not compared.
---
 immer/detail/rbts/rrbtree.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index 843921b..4e1026b 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -320,10 +320,9 @@ struct rrbtree
                    ? make_leaf_sub_pos(tail, tail_size())
                          .visit(equals_visitor{}, other.tail)
                : tail_off > tail_off_other
-                   ? std::equal(tail->leaf(),
-                                tail->leaf() + (size - tail_off),
-                                other.tail->leaf() +
-                                    (tail_off - tail_off_other))
+                   ? std::equal(other.tail->leaf(),
+                                other.tail->leaf() + (size - tail_off_other),
+                                iter_t{*this} + tail_off_other)
                    /* otherwise */
                    : std::equal(tail->leaf(),
                                 tail->leaf() + (size - tail_off),
-- 
2.43.0


From 500cc3c0d5833f4b36ed9c3cb0bcefa0748b2329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:37 +0000
Subject: [PATCH 02/22] fix: count the reference to the left tail when
 prepending a transient r-value

The full tail of the left operand becomes a leaf of the new tree while the
left operand keeps its own reference to it, like in concat_mut_r.
---
 immer/detail/rbts/rrbtree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index 4e1026b..de94897 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -1203,6 +1203,7 @@ struct rrbtree
                 // are tagged with `er`
                 auto res =
                     l.push_tail(l.root, l.shift, tail_offst, l.tail, tail_size);
+                l.tail->inc();
                 r = {l.size + r.size, get<0>(res), get<1>(res), r.tail->inc()};
                 return;
             } else if (tail_size + r.size <= branches<BL>) {
-- 
2.43.0


From 1969422720b1a5a10298f50112807da4db4afdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 03/22] fix: destroy the copied elements when appending to the
 tail fails

The elements that were already copied live in the left tail, the right tail
keeps its own elements.
---
 immer/detail/rbts/rrbtree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index de94897..37e76e9 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -826,7 +826,7 @@ struct rrbtree
                     }
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy_n(r.tail->leaf() + tail_size, remaining);
+                    detail::destroy_n(l.tail->leaf() + tail_size, remaining);
                     IMMER_RETHROW;
                 }
             }
@@ -1104,7 +1104,7 @@ struct rrbtree
                     }
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy_n(r.tail->leaf() + tail_size, remaining);
+                    detail::destroy_n(l.tail->leaf() + tail_size, remaining);
                     IMMER_RETHROW;
                 }
             }
-- 
2.43.0


From c5bd04c7786abd37a445237529b93f521c498a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 04/22] fix: destroy the dropped elements when taking from an
 array in place

---
 immer/detail/arrays/with_capacity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index c80f706..0069147 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -302,7 +302,7 @@ struct with_capacity
     {
         assert(sz <= size);
         if (ptr->can_mutate(e)) {
-            detail::destroy_n(data() + size, size - sz);
+            detail::destroy_n(data() + sz, size - sz);
             size = sz;
         } else {
             auto cap = recommend_down(sz, capacity);
-- 
2.43.0


From c032bd8792ea9a0926865a326b69151f4fff40fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 05/22] fix: clamp the number of elements taken from an array
 to its size

---
 immer/detail/arrays/no_capacity.hpp   | 2 ++
 immer/detail/arrays/with_capacity.hpp | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/immer/detail/arrays/no_capacity.hpp b/immer/detail/arrays/no_capacity.hpp
index a24f6da..980538b 100644
--- a/immer/detail/arrays/no_capacity.hpp
+++ b/immer/detail/arrays/no_capacity.hpp
@@ -12,6 +12,7 @@
 #include <immer/config.hpp>
 #include <immer/detail/arrays/node.hpp>
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 #include <stdexcept>
@@ -201,6 +202,7 @@ struct no_capacity
 
     no_capacity take(std::size_t sz) const
     {
+        sz     = std::min(sz, size);
         auto p = node_t::copy_n(sz, ptr, sz);
         return {p, sz};
     }
diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index 0069147..88ab688 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -292,7 +292,7 @@ struct with_capacity
 
     with_capacity take(std::size_t sz) const
     {
-        assert(sz <= size);
+        sz       = std::min(sz, size);
         auto cap = recommend_down(sz, capacity);
         auto p   = node_t::copy_n(cap, ptr, sz);
         return {p, sz, cap};
@@ -300,7 +300,7 @@ struct with_capacity
 
     void take_mut(edit_t e, std::size_t sz)
     {
-        assert(sz <= size);
+        sz = std::min(sz, size);
         if (ptr->can_mutate(e)) {
             detail::destroy_n(data() + sz, size - sz);
             size = sz;
-- 
2.43.0


From e5258ebb43f654a7ca8527b5f4ce067cdbea4240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 06/22] fix: destroy each element once when replacing in a
 collision node fails

---
 immer/detail/hamts/node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/detail/hamts/node.hpp b/immer/detail/hamts/node.hpp
index 1801984..d9cc256 100644
--- a/immer/detail/hamts/node.hpp
+++ b/immer/detail/hamts/node.hpp
@@ -503,7 +503,7 @@ struct node
                     detail::uninitialized_copy(pos + 1, srcp + n, dstp);
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy(dst->collisions(), dstp);
+                    detail::destroy(dst->collisions() + 1, dstp);
                     IMMER_RETHROW;
                 }
             }
-- 
2.43.0


From a853db65ff169594538da272547f2c46e9d10cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:43 +0000
Subject: [PATCH 07/22] fix: keep the erased path alive until in-place set and
 map erasure cannot fail

---
 immer/detail/hamts/champ.hpp | 42 ++++++++++--------------------------
 1 file changed, 11 insertions(+), 31 deletions(-)

diff --git a/immer/detail/hamts/champ.hpp b/immer/detail/hamts/champ.hpp
index 0e04d57..d068093 100644
--- a/immer/detail/hamts/champ.hpp
+++ b/immer/detail/hamts/champ.hpp
@@ -1342,8 +1342,7 @@ struct champ
                               node_t* node,
                               const K& k,
                               hash_t hash,
-                              shift_t shift,
-                              void* store) const
+                              shift_t shift) const
     {
         auto mutate = node->can_mutate(e);
         if (shift == max_shift<B>) {
@@ -1352,14 +1351,9 @@ struct champ
             for (auto cur = fst; cur != lst; ++cur) {
                 if (Equal{}(*cur, k)) {
                     if (node->collision_count() <= 2) {
-                        if (mutate) {
-                            auto r = new (store)
-                                T{std::move(node->collisions()[cur == fst])};
-                            node_t::delete_collision(node);
-                            return sub_result_mut{r, true};
-                        } else {
-                            return sub_result_mut{fst + (cur == fst), false};
-                        }
+                        // the caller drops the node once the value is in use
+                        return sub_result_mut{
+                            fst + (cur == fst), mutate, false};
                     } else {
                         auto r = mutate
                                      ? node_t::move_collision_remove(node, cur)
@@ -1377,7 +1371,7 @@ struct champ
                 auto children = node->children();
                 auto child    = children[offset];
                 auto result =
-                    mutate ? do_sub_mut(e, child, k, hash, shift + B, store)
+                    mutate ? do_sub_mut(e, child, k, hash, shift + B)
                            : do_sub(child, k, hash, shift + B);
                 switch (result.kind) {
                 case sub_result::nothing:
@@ -1385,12 +1379,7 @@ struct champ
                 case sub_result::singleton:
                     if (node->datamap() == 0 && node->children_count() == 1 &&
                         shift > 0) {
-                        if (mutate) {
-                            node_t::delete_inner(node);
-                            if (!result.mutated && child->dec())
-                                node_t::delete_deep_shift(child, shift + B);
-                        }
-                        return {result.data.singleton, result.owned, mutate};
+                        return {result.data.singleton, result.owned, false};
                     } else {
                         auto r =
                             mutate ? node_t::move_inner_replace_inline(
@@ -1406,9 +1395,7 @@ struct champ
                                          bit,
                                          offset,
                                          *result.data.singleton);
-                        if (result.owned)
-                            detail::destroy_at(result.data.singleton);
-                        if (!result.mutated && mutate && child->dec())
+                        if (mutate && child->dec())
                             node_t::delete_deep_shift(child, shift + B);
                         return {node_t::owned_values(r, e), mutate};
                     }
@@ -1445,14 +1432,8 @@ struct champ
                         return {node_t::owned_values_safe(r, e), mutate};
                     } else if (nv == 2) {
                         if (shift > 0) {
-                            if (mutate_values) {
-                                auto r = new (store)
-                                    T{std::move(node->values()[!offset])};
-                                node_t::delete_inner(node);
-                                return {r, true};
-                            } else {
-                                return {node->values() + !offset, false};
-                            }
+                            return {
+                                node->values() + !offset, mutate_values, false};
                         } else {
                             auto& v = node->values()[!offset];
                             auto r  = node_t::make_inner_n(
@@ -1479,9 +1460,8 @@ struct champ
     template <typename K>
     void sub_mut(edit_t e, const K& k)
     {
-        auto store = aligned_storage_for<T>{};
-        auto hash  = Hash{}(k);
-        auto res   = do_sub_mut(e, root, k, hash, 0, &store);
+        auto hash = Hash{}(k);
+        auto res  = do_sub_mut(e, root, k, hash, 0);
         switch (res.kind) {
         case sub_result::nothing:
             break;
-- 
2.43.0


From 142513eaeabff444e7696b06fd108f435c7016a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:27 +0000
Subject: [PATCH 08/22] fix: let one thread at a time take from the free list
 heap

Two threads that take from the list at the same time raced on the successor
of its first node; when the node was taken, used and put back in between (ABA)
the list was left pointing to a block in use, which was then given out twice.
---
 immer/heap/free_list_heap.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/immer/heap/free_list_heap.hpp b/immer/heap/free_list_heap.hpp
index 15ae01d..3fe35a7 100644
--- a/immer/heap/free_list_heap.hpp
+++ b/immer/heap/free_list_heap.hpp
@@ -10,6 +10,7 @@
 
 #include <immer/heap/free_list_node.hpp>
 #include <immer/heap/with_data.hpp>
+#include <immer/lock/spinlock_policy.hpp>
 
 #include <atomic>
 #include <cassert>
@@ -36,14 +37,20 @@ struct free_list_heap : Base
         assert(size <= sizeof(free_list_node) + Size);
         assert(size >= sizeof(free_list_node));
 
-        free_list_node* n;
-        do {
+        free_list_node* n = head().data;
+        if (n) {
+            // Only one thread at a time takes from the list.  Otherwise the
+            // first node could be taken, used and put back by other threads
+            // between reading its successor and exchanging the head (ABA).
+            spinlock_policy::scoped_lock lock{head().taking};
             n = head().data;
-            if (!n) {
-                auto p = base_t::allocate(Size + sizeof(free_list_node));
-                return static_cast<free_list_node*>(p);
-            }
-        } while (!head().data.compare_exchange_weak(n, n->next));
+            while (n && !head().data.compare_exchange_weak(n, n->next))
+                continue;
+        }
+        if (!n) {
+            auto p = base_t::allocate(Size + sizeof(free_list_node));
+            return static_cast<free_list_node*>(p);
+        }
         head().count.fetch_sub(1u, std::memory_order_relaxed);
         return n;
     }
@@ -72,11 +79,12 @@ private:
     {
         std::atomic<free_list_node*> data;
         std::atomic<std::size_t> count;
+        spinlock_policy taking;
     };
 
     static head_t& head()
     {
-        static head_t head_{{nullptr}, {0}};
+        static head_t head_{{nullptr}, {0}, {}};
         return head_;
     }
 };
-- 
2.43.0


From 090b3608c7cf099026f01f29f9623fa71cfd792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 09/22] fix: keep blocks with a free list node aligned for any
 object

The header of 8 bytes left memory from the free list heaps, and so every node
under the default memory policy, unsuitable for elements aligned to 16 bytes.
---
 immer/heap/free_list_heap.hpp        | 2 --
 immer/heap/free_list_node.hpp        | 5 ++++-
 immer/heap/unsafe_free_list_heap.hpp | 2 --
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/immer/heap/free_list_heap.hpp b/immer/heap/free_list_heap.hpp
index 3fe35a7..6e6f983 100644
--- a/immer/heap/free_list_heap.hpp
+++ b/immer/heap/free_list_heap.hpp
@@ -35,7 +35,6 @@ struct free_list_heap : Base
     static void* allocate(std::size_t size, Tags...)
     {
         assert(size <= sizeof(free_list_node) + Size);
-        assert(size >= sizeof(free_list_node));
 
         free_list_node* n = head().data;
         if (n) {
@@ -59,7 +58,6 @@ struct free_list_heap : Base
     static void deallocate(std::size_t size, void* data, Tags...)
     {
         assert(size <= sizeof(free_list_node) + Size);
-        assert(size >= sizeof(free_list_node));
 
         // we use relaxed, because we are fine with temporarily having
         // a few more/less buffers in free list
diff --git a/immer/heap/free_list_node.hpp b/immer/heap/free_list_node.hpp
index acab477..0ca3f3d 100644
--- a/immer/heap/free_list_node.hpp
+++ b/immer/heap/free_list_node.hpp
@@ -10,9 +10,12 @@
 
 #include <immer/heap/with_data.hpp>
 
+#include <cstddef>
+
 namespace immer {
 
-struct free_list_node
+// Aligned so that the memory that follows it is aligned for any object.
+struct alignas(std::max_align_t) free_list_node
 {
     free_list_node* next;
 };
diff --git a/immer/heap/unsafe_free_list_heap.hpp b/immer/heap/unsafe_free_list_heap.hpp
index 9b41dfc..bd8372e 100644
--- a/immer/heap/unsafe_free_list_heap.hpp
+++ b/immer/heap/unsafe_free_list_heap.hpp
@@ -48,7 +48,6 @@ public:
     static void* allocate(std::size_t size, Tags...)
     {
         assert(size <= sizeof(free_list_node) + Size);
-        assert(size >= sizeof(free_list_node));
 
         auto n = storage::head().data;
         if (!n) {
@@ -64,7 +63,6 @@ public:
     static void deallocate(std::size_t size, void* data, Tags...)
     {
         assert(size <= sizeof(free_list_node) + Size);
-        assert(size >= sizeof(free_list_node));
 
         if (storage::head().count >= Limit)
             base_t::deallocate(Size + sizeof(free_list_node), data);
-- 
2.43.0


From 1d306ae773950625ebe554137dc948f31efbeb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 10/22] fix: release shared inner nodes whole when slicing on
 the right in place

---
 immer/detail/rbts/operations.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index d5ff679..f8b4cee 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -916,8 +916,10 @@ struct slice_right_mut_visitor
         if (Collapse && idx == 0) {
             auto res = mutate ? pos.towards_oh(this_t{}, last, idx, e)
                               : pos.towards_oh(no_mut_t{}, last, idx, e);
-            if (Mutating)
+            if (mutate)
                 pos.visit(dec_right_visitor{}, count_t{1});
+            else if (Mutating)
+                pos.visit(dec_visitor{});
             return res;
         } else {
             using std::get;
@@ -949,15 +951,19 @@ struct slice_right_mut_visitor
                         return std::make_tuple(pos.shift(), newn, ts, tail);
                     }
                 } else if (idx == 0) {
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{1});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift(), nullptr, ts, tail);
                 } else if (Collapse && idx == 1 && pos.shift() > BL) {
                     auto newn = pos.node()->inner()[0];
                     if (!mutate)
                         newn->inc();
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{2});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift() - B, newn, ts, tail);
                 } else {
                     if (mutate) {
@@ -994,8 +1000,10 @@ struct slice_right_mut_visitor
         if (Collapse && idx == 0) {
             auto res = mutate ? pos.towards_oh(this_t{}, last, idx, e)
                               : pos.towards_oh(no_mut_t{}, last, idx, e);
-            if (Mutating)
+            if (mutate)
                 pos.visit(dec_right_visitor{}, count_t{1});
+            else if (Mutating)
+                pos.visit(dec_visitor{});
             return res;
         } else {
             using std::get;
@@ -1019,15 +1027,19 @@ struct slice_right_mut_visitor
                         return std::make_tuple(pos.shift(), newn, ts, tail);
                     }
                 } else if (idx == 0) {
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{1});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift(), nullptr, ts, tail);
                 } else if (Collapse && idx == 1 && pos.shift() > BL) {
                     auto newn = pos.node()->inner()[0];
                     if (!mutate)
                         newn->inc();
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{2});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift() - B, newn, ts, tail);
                 } else {
                     if (mutate) {
-- 
2.43.0


From 433b2a13220df65ad719c07164ba2f715a6275bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 11/22] fix: keep replaced sizes of a relaxed node alive while
 positions refer to them

---
 immer/detail/rbts/node.hpp       | 58 +++++++++++++++++++++++++-------
 immer/detail/rbts/operations.hpp | 25 +++++++++-----
 2 files changed, 63 insertions(+), 20 deletions(-)

diff --git a/immer/detail/rbts/node.hpp b/immer/detail/rbts/node.hpp
index 55a512b..e59b4d5 100644
--- a/immer/detail/rbts/node.hpp
+++ b/immer/detail/rbts/node.hpp
@@ -863,7 +863,45 @@ struct node
 
     bool can_relax() const { return !embed_relaxed || relaxed(); }
 
-    relaxed_t* ensure_mutable_relaxed(edit_t e)
+    /*!
+     * Keeps the sizes that are replaced in a node alive.  Positions may refer
+     * to them until the operation is finished, while the last other node that
+     * shares them may be released by another thread.
+     */
+    class replaced_relaxed_t
+    {
+        relaxed_t* relaxed_ = nullptr;
+
+    public:
+        replaced_relaxed_t() = default;
+        replaced_relaxed_t(replaced_relaxed_t&& other)
+            : relaxed_{other.relaxed_}
+        {
+            other.relaxed_ = nullptr;
+        }
+        replaced_relaxed_t& operator=(replaced_relaxed_t&&) = delete;
+
+        void keep(relaxed_t* r)
+        {
+            assert(!relaxed_);
+            relaxed_ = r;
+        }
+
+        ~replaced_relaxed_t()
+        {
+            if (relaxed_)
+                static_if<!embed_relaxed>([&](auto) {
+                    if (node_t::refs(relaxed_).dec())
+                        heap::deallocate(
+                            node_t::ownee(relaxed_).owned()
+                                ? node_t::max_sizeof_relaxed
+                                : node_t::sizeof_relaxed_n(relaxed_->d.count),
+                            relaxed_);
+                });
+        }
+    };
+
+    relaxed_t* ensure_mutable_relaxed(edit_t e, replaced_relaxed_t& old)
     {
         auto src_r = relaxed();
         return static_if<embed_relaxed, relaxed_t*>(
@@ -879,9 +917,7 @@ struct node
                         auto n = dst_r->d.count = src_r->d.count;
                         std::copy(
                             src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
-                        if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
-                                             src_r);
+                        old.keep(src_r);
                     }
                     node_t::ownee(dst_r) = e;
                     return dst_r;
@@ -889,7 +925,8 @@ struct node
             });
     }
 
-    relaxed_t* ensure_mutable_relaxed_e(edit_t e, edit_t ec)
+    relaxed_t*
+    ensure_mutable_relaxed_e(edit_t e, edit_t ec, replaced_relaxed_t& old)
     {
         auto src_r = relaxed();
         return static_if<embed_relaxed, relaxed_t*>(
@@ -906,9 +943,7 @@ struct node
                         auto n = dst_r->d.count = src_r->d.count;
                         std::copy(
                             src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
-                        if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
-                                             src_r);
+                        old.keep(src_r);
                     }
                     node_t::ownee(dst_r) = ec;
                     return dst_r;
@@ -916,7 +951,8 @@ struct node
             });
     }
 
-    relaxed_t* ensure_mutable_relaxed_n(edit_t e, count_t n)
+    relaxed_t*
+    ensure_mutable_relaxed_n(edit_t e, count_t n, replaced_relaxed_t& old)
     {
         auto src_r = relaxed();
         return static_if<embed_relaxed, relaxed_t*>(
@@ -931,9 +967,7 @@ struct node
                     if (src_r) {
                         std::copy(
                             src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
-                        if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
-                                             src_r);
+                        old.keep(src_r);
                     }
                     dst_r->d.count                   = n;
                     node_t::ownee(dst_r)             = e;
diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index f8b4cee..08f23d0 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -704,7 +704,8 @@ struct push_tail_mut_visitor
 
         if (mutate) {
             auto count             = new_idx + 1;
-            auto relaxed           = node->ensure_mutable_relaxed_n(e, new_idx);
+            auto old               = typename node_t::replaced_relaxed_t{};
+            auto relaxed = node->ensure_mutable_relaxed_n(e, new_idx, old);
             node->inner()[new_idx] = new_child;
             relaxed->d.sizes[new_idx] = pos.size() + ts;
             relaxed->d.count          = count;
@@ -932,7 +933,8 @@ struct slice_right_mut_visitor
             IMMER_TRY {
                 if (next) {
                     if (mutate) {
-                        auto nodr = node->ensure_mutable_relaxed_n(e, idx);
+                        auto old  = typename node_t::replaced_relaxed_t{};
+                        auto nodr = node->ensure_mutable_relaxed_n(e, idx, old);
                         pos.each_right(dec_visitor{}, idx + 1);
                         node->inner()[idx] = next;
                         nodr->d.sizes[idx] = last + 1 - ts;
@@ -968,7 +970,9 @@ struct slice_right_mut_visitor
                 } else {
                     if (mutate) {
                         pos.each_right(dec_visitor{}, idx + 1);
-                        node->ensure_mutable_relaxed_n(e, idx)->d.count = idx;
+                        auto old = typename node_t::replaced_relaxed_t{};
+                        node->ensure_mutable_relaxed_n(e, idx, old)->d.count =
+                            idx;
                         return std::make_tuple(pos.shift(), node, ts, tail);
                     } else {
                         auto newn = node_t::copy_inner_r_e(e, node, idx);
@@ -1273,8 +1277,9 @@ struct slice_left_mut_visitor
             return r;
         } else {
             using std::get;
-            auto newn     = mutate ? (node->ensure_mutable_relaxed(e), node)
-                                   : node_t::make_inner_r_e(e);
+            auto old  = typename node_t::replaced_relaxed_t{};
+            auto newn = mutate ? (node->ensure_mutable_relaxed(e, old), node)
+                               : node_t::make_inner_r_e(e);
             auto newr     = newn->relaxed();
             auto newcount = count - idx;
             auto new_child_size = child_size - child_dropped_size;
@@ -2038,6 +2043,9 @@ struct concat_merger_mut
     node_t* candidate_  = nullptr;
     edit_t candidate_e_ = Node::memory::transience_t::noone;
 
+    typename node_t::replaced_relaxed_t lreplaced_;
+    typename node_t::replaced_relaxed_t rreplaced_;
+
     concat_merger_mut(edit_t ec,
                       shift_t shift,
                       count_t* counts,
@@ -2050,7 +2058,7 @@ struct concat_merger_mut
         , result_{shift + B, nullptr, 0}
     {
         if (candidate) {
-            candidate->ensure_mutable_relaxed_e(candidate_e, ec);
+            candidate->ensure_mutable_relaxed_e(candidate_e, ec, lreplaced_);
             result_.nodes_[0] = candidate;
         } else {
             result_.nodes_[0] = node_t::make_inner_r_e(ec);
@@ -2079,7 +2087,7 @@ struct concat_merger_mut
             n_ -= branches<B>;
             if (candidate_) {
                 parent = candidate_;
-                parent->ensure_mutable_relaxed_e(candidate_e_, ec_);
+                parent->ensure_mutable_relaxed_e(candidate_e_, ec_, rreplaced_);
                 candidate_ = nullptr;
             } else
                 parent = node_t::make_inner_r_e(ec_);
@@ -2167,11 +2175,12 @@ struct concat_merger_mut
             auto from_offset = count_t{};
             auto from_data   = from->inner();
             auto from_mutate = from->can_relax() && from->can_mutate(e);
+            auto replaced    = typename node_t::replaced_relaxed_t{};
             do {
                 if (!to_) {
                     if (from_mutate) {
                         node_t::ownee(from) = ec_;
-                        from->ensure_mutable_relaxed_e(e, ec_);
+                        from->ensure_mutable_relaxed_e(e, ec_, replaced);
                         to_ = from;
                     } else {
                         to_ = node_t::make_inner_r_e(ec_);
-- 
2.43.0


From 33d359c03844f6827f9acc5f58524cdf06fe6bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 12/22] fix: copy shared sizes before changing a relaxed node
 in place

push_tail_mut_visitor and slice_right_mut_visitor allocated the new sizes of
a uniquely owned relaxed node after its child had already been changed in
place.  When that allocation failed the node was left referring to a child
that had been released or replaced.
---
 immer/detail/rbts/operations.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index 08f23d0..00ef208 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -688,7 +688,12 @@ struct push_tail_mut_visitor
 
         if (new_idx >= branches<B>)
             return nullptr;
-        else if (idx == new_idx) {
+
+        // this may throw, so it comes before anything is changed in place
+        auto old     = typename node_t::replaced_relaxed_t{};
+        auto relaxed = mutate ? node->ensure_mutable_relaxed(e, old) : nullptr;
+
+        if (idx == new_idx) {
             new_child =
                 mutate ? pos.last_oh_csh(this_t{}, idx, children, e, tail, ts)
                        : pos.last_oh_csh(
@@ -703,11 +708,10 @@ struct push_tail_mut_visitor
             new_child = node_t::make_path_e(e, level - B, tail);
 
         if (mutate) {
-            auto count             = new_idx + 1;
-            auto old               = typename node_t::replaced_relaxed_t{};
-            auto relaxed = node->ensure_mutable_relaxed_n(e, new_idx, old);
-            node->inner()[new_idx] = new_child;
-            relaxed->d.sizes[new_idx] = pos.size() + ts;
+            auto count                = new_idx + 1;
+            auto size                 = pos.size() + ts;
+            node->inner()[new_idx]    = new_child;
+            relaxed->d.sizes[new_idx] = size;
             relaxed->d.count          = count;
             assert(relaxed->d.sizes[new_idx]);
             return node;
@@ -924,6 +928,9 @@ struct slice_right_mut_visitor
             return res;
         } else {
             using std::get;
+            // this may throw, so it comes before anything is changed in place
+            auto old  = typename node_t::replaced_relaxed_t{};
+            auto nodr = mutate ? node->ensure_mutable_relaxed(e, old) : nullptr;
             auto subs =
                 mutate ? pos.towards_oh(no_collapse_t{}, last, idx, e)
                        : pos.towards_oh(no_collapse_no_mut_t{}, last, idx, e);
@@ -933,8 +940,6 @@ struct slice_right_mut_visitor
             IMMER_TRY {
                 if (next) {
                     if (mutate) {
-                        auto old  = typename node_t::replaced_relaxed_t{};
-                        auto nodr = node->ensure_mutable_relaxed_n(e, idx, old);
                         pos.each_right(dec_visitor{}, idx + 1);
                         node->inner()[idx] = next;
                         nodr->d.sizes[idx] = last + 1 - ts;
@@ -970,9 +975,7 @@ struct slice_right_mut_visitor
                 } else {
                     if (mutate) {
                         pos.each_right(dec_visitor{}, idx + 1);
-                        auto old = typename node_t::replaced_relaxed_t{};
-                        node->ensure_mutable_relaxed_n(e, idx, old)->d.count =
-                            idx;
+                        nodr->d.count = idx;
                         return std::make_tuple(pos.shift(), node, ts, tail);
                     } else {
                         auto newn = node_t::copy_inner_r_e(e, node, idx);
-- 
2.43.0


From 483bd2e3e3a18cb1088c64a01eab5d501b65df58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:35 +0000
Subject: [PATCH 13/22] fix: own the copy made by array_transient::set so later
 sets are done in place

---
 immer/detail/arrays/with_capacity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index 88ab688..69d7495 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -243,7 +243,7 @@ struct with_capacity
         if (ptr->can_mutate(e)) {
             data()[idx] = std::move(value);
         } else {
-            auto p = node_t::copy_n(capacity, ptr, size);
+            auto p = node_t::copy_e(e, capacity, ptr, size);
             IMMER_TRY {
                 p->data()[idx] = std::move(value);
                 *this          = {p, size, capacity};
-- 
2.43.0


From 352fa5fafc351d1ca0fafdc77d07aee18c929c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:53 +0000
Subject: [PATCH 14/22] fix: descend to the right node in dvektor push_back
 when the focus is elsewhere

---
 immer/experimental/detail/dvektor_impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/immer/experimental/detail/dvektor_impl.hpp b/immer/experimental/detail/dvektor_impl.hpp
index 7a21f1f..e2a2583 100644
--- a/immer/experimental/detail/dvektor_impl.hpp
+++ b/immer/experimental/detail/dvektor_impl.hpp
@@ -275,6 +275,7 @@ struct ref
                                 ->inner()[(new_index >> shift) & mask<B>];
                 display[display_idx] =
                     node ? std::move(node) : make_node(inner_t{});
+                shift -= B;
             }
             display[0] = make_node(leaf_t{});
         }
-- 
2.43.0


From 56ee79af5305d4ad9d321b136bb579fdb9205ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:03 +0000
Subject: [PATCH 15/22] fix: move dvektor iterators only when dereferenced, the
 end has no block to move to

---
 immer/experimental/detail/dvektor_impl.hpp | 60 ++++++----------------
 1 file changed, 17 insertions(+), 43 deletions(-)

diff --git a/immer/experimental/detail/dvektor_impl.hpp b/immer/experimental/detail/dvektor_impl.hpp
index e2a2583..9c7cb9b 100644
--- a/immer/experimental/detail/dvektor_impl.hpp
+++ b/immer/experimental/detail/dvektor_impl.hpp
@@ -421,73 +421,39 @@ struct iterator
     iterator(const impl<T, B, MP>& v)
         : p_{v.p}
         , i_{0}
-        , base_{0}
+        , base_{v.focus & ~mask<B>}
     {
         if (v.dirty)
             p_.stabilize(v.focus);
-        p_.goto_pos(0, 0 ^ v.focus);
-        curr_ = p_.display[0]->leaf().begin();
     }
 
     iterator(const impl<T, B, MP>& v, end_t)
         : p_{v.p}
         , i_{v.size}
-        , base_{(v.size - 1) & ~mask<B>}
+        , base_{v.focus & ~mask<B>}
     {
         if (v.dirty)
             p_.stabilize(v.focus);
-        p_.goto_pos(base_, base_ ^ v.focus);
-        curr_ = p_.display[0]->leaf().begin() + (i_ - base_);
     }
 
 private:
     friend class boost::iterator_core_access;
-    using leaf_iterator = typename leaf_node<T, B>::const_iterator;
 
-    ref<T, B, MP> p_;
+    // The display only moves when the iterator is dereferenced: there
+    // may be no block at the index that it has, when it is at the end.
+    mutable ref<T, B, MP> p_;
     std::size_t i_;
-    std::size_t base_;
-    leaf_iterator curr_;
+    mutable std::size_t base_;
 
-    void increment()
-    {
-        ++i_;
-        if (i_ - base_ < branches<B>) {
-            ++curr_;
-        } else {
-            auto new_base = base_ + branches<B>;
-            p_.goto_next_block_start(new_base, base_ ^ new_base);
-            base_ = new_base;
-            curr_ = p_.display[0]->leaf().begin();
-        }
-    }
+    void increment() { ++i_; }
 
     void decrement()
     {
         assert(i_ > 0);
         --i_;
-        if (i_ >= base_) {
-            --curr_;
-        } else {
-            auto new_base = base_ - branches<B>;
-            p_.goto_pos(new_base, base_ ^ new_base);
-            base_ = new_base;
-            curr_ = std::prev(p_.display[0]->leaf().end());
-        }
     }
 
-    void advance(std::ptrdiff_t n)
-    {
-        i_ += n;
-        if (i_ <= base_ && i_ - base_ < branches<B>) {
-            curr_ += n;
-        } else {
-            auto new_base = i_ & ~mask<B>;
-            p_.goto_pos(new_base, base_ ^ new_base);
-            base_ = new_base;
-            curr_ = p_.display[0]->leaf().begin() + (i_ - base_);
-        }
-    }
+    void advance(std::ptrdiff_t n) { i_ += n; }
 
     bool equal(const iterator& other) const { return i_ == other.i_; }
 
@@ -497,7 +463,15 @@ private:
                              : -static_cast<std::ptrdiff_t>(i_ - other.i_);
     }
 
-    const T& dereference() const { return *curr_; }
+    const T& dereference() const
+    {
+        auto base = i_ & ~mask<B>;
+        if (base != base_) {
+            p_.goto_pos(base, base ^ base_);
+            base_ = base;
+        }
+        return p_.display[0]->leaf()[i_ & mask<B>];
+    }
 };
 
 } /* namespace dvektor */
-- 
2.43.0


From 2369818b919b4e6a4456a63c0a8e0a5c9398a4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:16 +0000
Subject: [PATCH 16/22] fix: arrays from an iterator and a sentinel, and from
 iterators that throw

uninitialized_copy() of trivially copyable elements is noexcept and passes
what it is given on to std::copy(): a range of user defined iterators that
throw ended in std::terminate(), and one with a sentinel did not compile.
---
 immer/detail/util.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/immer/detail/util.hpp b/immer/detail/util.hpp
index f1af9d0..40de342 100644
--- a/immer/detail/util.hpp
+++ b/immer/detail/util.hpp
@@ -143,15 +143,23 @@ auto uninitialized_move(Iter1 first, Iter1 last, Iter2 out)
     }
 }
 
+// Iterators of other types may throw, and `std::copy` takes no sentinels
+template <typename SourceIter, typename Sent, typename SinkIter>
+constexpr bool can_trivially_copy_range =
+    can_trivially_copy<SourceIter, SinkIter>&& std::is_pointer<
+        SourceIter>::value&& std::is_same<SourceIter, Sent>::value;
+
 template <typename SourceIter, typename Sent, typename SinkIter>
 auto uninitialized_copy(SourceIter first, Sent last, SinkIter out) noexcept
-    -> std::enable_if_t<can_trivially_copy<SourceIter, SinkIter>, SinkIter>
+    -> std::enable_if_t<can_trivially_copy_range<SourceIter, Sent, SinkIter>,
+                        SinkIter>
 {
     return std::copy(first, last, out);
 }
 template <typename SourceIter, typename Sent, typename SinkIter>
 auto uninitialized_copy(SourceIter first, Sent last, SinkIter out)
-    -> std::enable_if_t<!can_trivially_copy<SourceIter, SinkIter>, SinkIter>
+    -> std::enable_if_t<!can_trivially_copy_range<SourceIter, Sent, SinkIter>,
+                        SinkIter>
 {
     using value_t = typename std::iterator_traits<SinkIter>::value_type;
     auto current  = out;
-- 
2.43.0


From a453d54eaf71a617b91ac11af531ae20a992b185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:00 +0000
Subject: [PATCH 17/22] fix: let collectors see the owner tokens in the sizes
 of relaxed nodes

---
 immer/detail/rbts/node.hpp       | 4 ++--
 immer/detail/rbts/operations.hpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/immer/detail/rbts/node.hpp b/immer/detail/rbts/node.hpp
index e59b4d5..e048813 100644
--- a/immer/detail/rbts/node.hpp
+++ b/immer/detail/rbts/node.hpp
@@ -238,7 +238,7 @@ struct node
             mr = reinterpret_cast<unsigned char*>(mp) + sizeof_inner_n(n);
         } else {
             IMMER_TRY {
-                mr = heap::allocate(sizeof_relaxed_n(n), norefs_tag{});
+                mr = heap::allocate(sizeof_relaxed_n(n));
             }
             IMMER_CATCH (...) {
                 heap::deallocate(sizeof_inner_r_n(n), mp);
@@ -280,7 +280,7 @@ struct node
             mr = reinterpret_cast<unsigned char*>(mp) + max_sizeof_inner;
         } else {
             IMMER_TRY {
-                mr = heap::allocate(max_sizeof_relaxed, norefs_tag{});
+                mr = heap::allocate(max_sizeof_relaxed);
             }
             IMMER_CATCH (...) {
                 heap::deallocate(max_sizeof_inner_r, mp);
diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index 00ef208..cb00f97 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -1347,9 +1347,9 @@ struct slice_left_mut_visitor
             // magic should be moved as a `node<...>` static method...
             auto newcount = count - idx;
             auto newn =
-                mutate ? (node->impl.d.data.inner.relaxed = new (
-                              node_t::heap::allocate(node_t::max_sizeof_relaxed,
-                                                     norefs_tag{})) relaxed_t,
+                mutate ? (node->impl.d.data.inner.relaxed =
+                              new (node_t::heap::allocate(
+                                  node_t::max_sizeof_relaxed)) relaxed_t,
                           node)
                        : node_t::make_inner_r_e(e);
             auto newr = newn->relaxed();
-- 
2.43.0


From 1f182bfe9cbe5370753defbe48dda482765602a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:27 +0000
Subject: [PATCH 18/22] fix: find the elements of vectors with more than six
 levels

Random access only descends from the first six levels of a tree, unless
IMMER_DESCENT_DEEP, which config.hpp sets to 0 unconditionally.  A
vector<int, default_memory_policy, 1, 1> has seven levels with 131
elements, and a vector<int, default_memory_policy, 2, 2> with 16389: the
switch then falls into IMMER_UNREACHABLE.
---
 immer/config.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/config.hpp b/immer/config.hpp
index af34e5f..1808895 100644
--- a/immer/config.hpp
+++ b/immer/config.hpp
@@ -111,7 +111,7 @@
 // #define IMMER_PREFETCH(p)    __builtin_prefetch(p)
 #endif
 
-#define IMMER_DESCENT_DEEP 0
+#define IMMER_DESCENT_DEEP 1
 
 #ifndef IMMER_ENABLE_DEBUG_SIZE_HEAP
 #ifdef NDEBUG
-- 
2.43.0


From a0695d6ecaa22534c825ec6eaa16ffb27dfc0add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:27 +0000
Subject: [PATCH 19/22] fix: do not overflow in vector::max_size()

When B divides 64 - BL, 2^BL * (2^B)^((64 - BL) / B) is 2^64, and
max_size() was 0: for vectors of elements of 16 bytes, for example.
---
 immer/detail/rbts/rbtree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/immer/detail/rbts/rbtree.hpp b/immer/detail/rbts/rbtree.hpp
index c8fa425..165760c 100644
--- a/immer/detail/rbts/rbtree.hpp
+++ b/immer/detail/rbts/rbtree.hpp
@@ -37,7 +37,8 @@ struct rbtree
 
     constexpr static size_t max_size()
     {
-        auto S = sizeof(size_t) * 8;
+        // 2^S itself does not fit in a size_t
+        auto S = sizeof(size_t) * 8 - 1;
         return (size_t{1} << BL) * ipow(size_t{1} << B, (S - BL) / B);
     }
 
-- 
2.43.0


From 0811637f203988d6382329c623c5ac10a1634146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:11 +0000
Subject: [PATCH 20/22] fix: look keys up by the same hash that they were
 inserted with

Insertions convert what the hash function returns to hash_t before they
shift it, lookups shifted the type that it returns.  With hash functions
that return a negative int, keys of equal hash were never found.
---
 immer/detail/hamts/champ.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/immer/detail/hamts/champ.hpp b/immer/detail/hamts/champ.hpp
index d068093..476f628 100644
--- a/immer/detail/hamts/champ.hpp
+++ b/immer/detail/hamts/champ.hpp
@@ -533,8 +533,8 @@ struct champ
     template <typename Project, typename Default, typename K>
     decltype(auto) get(const K& k) const
     {
-        auto node = root;
-        auto hash = Hash{}(k);
+        auto node   = root;
+        hash_t hash = Hash{}(k);
         for (auto i = count_t{}; i < max_depth<B>; ++i) {
             auto bit = bitmap_t{1u} << (hash & mask<B>);
             if (node->nodemap() & bit) {
-- 
2.43.0


From 8b6f7374742689327f5ece81db566929d7c6d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:32 +0000
Subject: [PATCH 21/22] fix: construct elements from values, not from lists of
 them

T{std::move(value)} is a list with one element when T has a constructor
from initializer lists of values that it converts to, as JSON-like types
and std::vector<std::any> have: what push_back() or insert() put in the
container was not the value that they were given.  All of these
expressions have the value type T, so that T(std::move(value)) is the
same for all other types.
---
 immer/detail/arrays/no_capacity.hpp   |  2 +-
 immer/detail/arrays/with_capacity.hpp |  6 +++---
 immer/detail/hamts/node.hpp           | 24 ++++++++++++------------
 immer/detail/rbts/node.hpp            |  6 +++---
 immer/detail/rbts/rbtree.hpp          |  2 +-
 immer/detail/rbts/rrbtree.hpp         |  2 +-
 6 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/immer/detail/arrays/no_capacity.hpp b/immer/detail/arrays/no_capacity.hpp
index 980538b..7a19a45 100644
--- a/immer/detail/arrays/no_capacity.hpp
+++ b/immer/detail/arrays/no_capacity.hpp
@@ -163,7 +163,7 @@ struct no_capacity
     {
         auto p = node_t::copy_n(size + 1, ptr, size);
         IMMER_TRY {
-            new (p->data() + size) T{std::move(value)};
+            new (p->data() + size) T(std::move(value));
             return {p, size + 1};
         }
         IMMER_CATCH (...) {
diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index 69d7495..4aabc78 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -197,7 +197,7 @@ struct with_capacity
         auto cap = recommend_up(size + 1, capacity);
         auto p   = node_t::copy_n(cap, ptr, size);
         IMMER_TRY {
-            new (p->data() + size) T{std::move(value)};
+            new (p->data() + size) T(std::move(value));
             return {p, size + 1, cap};
         }
         IMMER_CATCH (...) {
@@ -209,13 +209,13 @@ struct with_capacity
     void push_back_mut(edit_t e, T value)
     {
         if (ptr->can_mutate(e) && capacity > size) {
-            new (data() + size) T{std::move(value)};
+            new (data() + size) T(std::move(value));
             ++size;
         } else {
             auto cap = recommend_up(size + 1, capacity);
             auto p   = node_t::copy_e(e, cap, ptr, size);
             IMMER_TRY {
-                new (p->data() + size) T{std::move(value)};
+                new (p->data() + size) T(std::move(value));
                 *this = {p, size + 1, cap};
             }
             IMMER_CATCH (...) {
diff --git a/immer/detail/hamts/node.hpp b/immer/detail/hamts/node.hpp
index d9cc256..d2c8a59 100644
--- a/immer/detail/hamts/node.hpp
+++ b/immer/detail/hamts/node.hpp
@@ -284,7 +284,7 @@ struct node
         auto p                       = make_inner_n(n, 1);
         p->impl.d.data.inner.datamap = bitmap;
         IMMER_TRY {
-            new (p->values()) T{std::move(x)};
+            new (p->values()) T(std::move(x));
         }
         IMMER_CATCH (...) {
             deallocate_inner(p, n, 1);
@@ -303,9 +303,9 @@ struct node
         auto assign = [&](auto&& x1, auto&& x2) {
             auto vp = p->values();
             IMMER_TRY {
-                new (vp) T{std::move(x1)};
+                new (vp) T(std::move(x1));
                 IMMER_TRY {
-                    new (vp + 1) T{std::move(x2)};
+                    new (vp + 1) T(std::move(x2));
                 }
                 IMMER_CATCH (...) {
                     immer::detail::hamts::destroy_at(vp);
@@ -345,9 +345,9 @@ struct node
         p->impl.d.data.collision.count = 2;
         auto cols                      = p->collisions();
         IMMER_TRY {
-            new (cols) T{std::move(v1)};
+            new (cols) T(std::move(v1));
             IMMER_TRY {
-                new (cols + 1) T{std::move(v2)};
+                new (cols + 1) T(std::move(v2));
             }
             IMMER_CATCH (...) {
                 cols->~T();
@@ -395,7 +395,7 @@ struct node
         auto srcp = src->collisions();
         auto dstp = dst->collisions();
         IMMER_TRY {
-            new (dstp) T{std::move(v)};
+            new (dstp) T(std::move(v));
             IMMER_TRY {
                 detail::uninitialized_copy(srcp, srcp + n, dstp + 1);
             }
@@ -419,7 +419,7 @@ struct node
         auto srcp = src->collisions();
         auto dstp = dst->collisions();
         IMMER_TRY {
-            new (dstp) T{std::move(v)};
+            new (dstp) T(std::move(v));
             IMMER_TRY {
                 detail::uninitialized_move(srcp, srcp + n, dstp + 1);
             }
@@ -496,7 +496,7 @@ struct node
         auto dstp = dst->collisions();
         assert(pos >= srcp && pos < srcp + n);
         IMMER_TRY {
-            new (dstp) T{std::move(v)};
+            new (dstp) T(std::move(v));
             IMMER_TRY {
                 dstp = detail::uninitialized_copy(srcp, pos, dstp + 1);
                 IMMER_TRY {
@@ -701,7 +701,7 @@ struct node
                 detail::uninitialized_copy(
                     src->values(), src->values() + voffset, dst->values());
             IMMER_TRY {
-                new (dst->values() + voffset) T{std::move(value)};
+                new (dst->values() + voffset) T(std::move(value));
                 IMMER_TRY {
                     if (nv)
                         detail::uninitialized_copy(src->values() + voffset,
@@ -756,7 +756,7 @@ struct node
                         src->values(), src->values() + voffset, dst->values());
             }
             IMMER_TRY {
-                new (dst->values() + voffset) T{std::move(value)};
+                new (dst->values() + voffset) T(std::move(value));
                 IMMER_TRY {
                     if (nv) {
                         if (mutate_values)
@@ -902,7 +902,7 @@ struct node
                 detail::uninitialized_copy(
                     src->values(), src->values() + offset, dst->values());
             IMMER_TRY {
-                new (dst->values() + offset) T{std::move(v)};
+                new (dst->values() + offset) T(std::move(v));
                 IMMER_TRY {
                     if (nv)
                         detail::uninitialized_copy(src->values() + offset,
@@ -950,7 +950,7 @@ struct node
                         src->values(), src->values() + offset, dst->values());
             }
             IMMER_TRY {
-                new (dst->values() + offset) T{std::move(v)};
+                new (dst->values() + offset) T(std::move(v));
                 IMMER_TRY {
                     if (nv) {
                         if (mutate_values)
diff --git a/immer/detail/rbts/node.hpp b/immer/detail/rbts/node.hpp
index e048813..0da1cfc 100644
--- a/immer/detail/rbts/node.hpp
+++ b/immer/detail/rbts/node.hpp
@@ -461,7 +461,7 @@ struct node
         assert(n >= 1);
         auto p = make_leaf_n(n);
         IMMER_TRY {
-            new (p->leaf()) T{std::forward<U>(x)};
+            new (p->leaf()) T(std::forward<U>(x));
         }
         IMMER_CATCH (...) {
             heap::deallocate(node_t::sizeof_leaf_n(n), p);
@@ -475,7 +475,7 @@ struct node
     {
         auto p = make_leaf_e(e);
         IMMER_TRY {
-            new (p->leaf()) T{std::forward<U>(x)};
+            new (p->leaf()) T(std::forward<U>(x));
         }
         IMMER_CATCH (...) {
             heap::deallocate(node_t::max_sizeof_leaf, p);
@@ -784,7 +784,7 @@ struct node
     {
         auto dst = copy_leaf_n(n + 1, src, n);
         IMMER_TRY {
-            new (dst->leaf() + n) T{std::forward<U>(x)};
+            new (dst->leaf() + n) T(std::forward<U>(x));
         }
         IMMER_CATCH (...) {
             detail::destroy_n(dst->leaf(), n);
diff --git a/immer/detail/rbts/rbtree.hpp b/immer/detail/rbts/rbtree.hpp
index 165760c..bd0cf9e 100644
--- a/immer/detail/rbts/rbtree.hpp
+++ b/immer/detail/rbts/rbtree.hpp
@@ -275,7 +275,7 @@ struct rbtree
         auto ts       = size - tail_off;
         if (ts < branches<BL>) {
             ensure_mutable_tail(e, ts);
-            new (&tail->leaf()[ts]) T{std::move(value)};
+            new (&tail->leaf()[ts]) T(std::move(value));
         } else {
             auto new_tail = node_t::make_leaf_e(e, std::move(value));
             IMMER_TRY {
diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index 37e76e9..0ad5f45 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -447,7 +447,7 @@ struct rrbtree
         auto ts = tail_size();
         if (ts < branches<BL>) {
             ensure_mutable_tail(e, ts);
-            new (&tail->leaf()[ts]) T{std::move(value)};
+            new (&tail->leaf()[ts]) T(std::move(value));
         } else {
             using std::get;
             auto new_tail = node_t::make_leaf_e(e, std::move(value));
-- 
2.43.0


From b2428b8f677119dad020f85f4ed0ef63fa0e128c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:24 +0000
Subject: [PATCH 22/22] fix: do not turn exceptions off when another header
 defines __has_feature

GCC before 14 has no __has_feature, and many headers (of the sanitizers,
protobuf, spdlog, Eigen, LLVM) then define it as 0.  When one of them was
included before config.hpp, at() terminated the program instead of
throwing, and operations that failed leaked.
---
 immer/config.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/immer/config.hpp b/immer/config.hpp
index 1808895..0a53482 100644
--- a/immer/config.hpp
+++ b/immer/config.hpp
@@ -23,7 +23,8 @@
 #endif
 
 #ifdef __has_feature
-#if !__has_feature(cxx_exceptions)
+// other headers define __has_feature(x) to 0 for compilers that lack it
+#if !__has_feature(cxx_exceptions) && !defined(__cpp_exceptions)
 #define IMMER_NO_EXCEPTIONS
 #endif
 #endif
-- 
2.43.0

