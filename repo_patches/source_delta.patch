From 0c500d571a20dadd87cdd060ad0d7619473895f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:23 +0000
Subject: [PATCH 01/12] fix: caches and hash tables of size 0 or 1 wrote out of
 bounds

---
 sdd/mem/cache.hh      | 3 ++-
 sdd/mem/hash_table.hh | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdd/mem/cache.hh b/sdd/mem/cache.hh
index e37a761..df3dffe 100644
--- a/sdd/mem/cache.hh
+++ b/sdd/mem/cache.hh
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include <algorithm> // max
 #include <memory> // unique_ptr
 #include <tuple>
 
@@ -196,7 +197,7 @@ public:
     : cxt_(context)
     , set_(size, max_load_factor)
     , lru_list_()
-    , max_size_(set_.bucket_count() * max_load_factor)
+    , max_size_(std::max<std::size_t>(set_.bucket_count() * max_load_factor, 1))
     , stats_()
     , pool_(max_size_)
   {}
diff --git a/sdd/mem/hash_table.hh b/sdd/mem/hash_table.hh
index 1b55f4c..ac0bdcd 100644
--- a/sdd/mem/hash_table.hh
+++ b/sdd/mem/hash_table.hh
@@ -6,7 +6,7 @@
 
 #pragma once
 
-#include <algorithm>   // fill
+#include <algorithm>   // fill, max
 #include <cassert>
 #include <functional>  // hash
 #include <memory>      // unique_ptr
@@ -68,7 +68,7 @@ private:
 public:
 
   hash_table(std::size_t size, double max_load_factor = 0.75)
-    : nb_buckets_(util::next_power_of_2(size))
+    : nb_buckets_(util::next_power_of_2(std::max<std::size_t>(size, 1)))
     , size_(0)
     , buckets_(std::make_unique<Data*[]>(nb_buckets_))
     , max_load_factor_(max_load_factor)
-- 
2.43.0


From 5d9719c8ef5fec92d395875b913c099a3ba14e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:23 +0000
Subject: [PATCH 02/12] fix: clearing a cache left its entries in the LRU list

---
 sdd/mem/cache.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdd/mem/cache.hh b/sdd/mem/cache.hh
index df3dffe..010f866 100644
--- a/sdd/mem/cache.hh
+++ b/sdd/mem/cache.hh
@@ -271,6 +271,7 @@ public:
                                 x->~cache_entry_type();
                                 pool_.deallocate(x);
                               });
+    lru_list_.clear();
   }
 
   /// @brief Get the number of cached operations.
-- 
2.43.0


From a3dc69f716339c0ac71dbf3a21d080144d76f85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:23 +0000
Subject: [PATCH 03/12] fix: flat_set::insert returned an iterator into a
 destroyed temporary

---
 sdd/values/flat_set.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdd/values/flat_set.hh b/sdd/values/flat_set.hh
index 158caba..139d605 100644
--- a/sdd/values/flat_set.hh
+++ b/sdd/values/flat_set.hh
@@ -96,7 +96,7 @@ public:
       fs.shrink_to_fit();
       ptr_ = create(std::move(fs));
     }
-    return insertion;
+    return {ptr_->data().find(x), insertion.second};
   }
 
   /// @brief Returns an iterator pointing to the first element in the flat set.
-- 
2.43.0


From 4cdad2f2299539332461ce2311e90fe0c2c9083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:23 +0000
Subject: [PATCH 04/12] fix: init() did not detect an already initialized
 manager of values

---
 sdd/manager.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdd/manager.hh b/sdd/manager.hh
index 2fe1bc8..92b6553 100644
--- a/sdd/manager.hh
+++ b/sdd/manager.hh
@@ -36,7 +36,7 @@ manager<C>
 init(const C& configuration = C{})
 {
   using values_type = typename C::Values;
-  if (*global_ptr<C>() == nullptr and *global_ptr<values_type>() == nullptr)
+  if (*global_ptr<C>() == nullptr and *global_values_ptr<values_type>() == nullptr)
   {
     auto vm_ptr = std::make_unique<values_manager<values_type>>(configuration);
     *global_values_ptr<values_type>() = vm_ptr.get();
-- 
2.43.0


From 96a991f5049877f7628a5eb61acf08adfa943328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:01 +0000
Subject: [PATCH 05/12] fix: assigning a handle to itself, or from a handle
 owned by the data it releases, used freed memory

---
 sdd/mem/ptr.hh | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sdd/mem/ptr.hh b/sdd/mem/ptr.hh
index 9594e20..d8d5d8b 100644
--- a/sdd/mem/ptr.hh
+++ b/sdd/mem/ptr.hh
@@ -97,6 +97,9 @@ public:
   noexcept
   {
     assert(other.x_ != nullptr); // Don't copy from an already moved ptr.
+    // First get what we need from other: it may be *this, or be owned by the data we release.
+    Unique* const x = other.x_;
+    x->increment_reference_counter();
     if (x_ != nullptr)
     {
       x_->decrement_reference_counter();
@@ -105,8 +108,7 @@ public:
         deletion_handler<Unique>()(x_);
       }
     }
-    x_ = other.x_;
-    x_->increment_reference_counter();
+    x_ = x;
     return *this;
   }
 
@@ -123,6 +125,8 @@ public:
   operator=(ptr&& other)
   noexcept
   {
+    Unique* const x = other.x_;
+    other.x_ = nullptr;
     if (x_ != nullptr)
     {
       x_->decrement_reference_counter();
@@ -131,8 +135,7 @@ public:
         deletion_handler<Unique>()(x_);
       }
     }
-    x_ = other.x_;
-    other.x_ = nullptr;
+    x_ = x;
     return *this;
   }
 
-- 
2.43.0


From f2255f562668d7cccd32a8248024f8285657d5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:11 +0000
Subject: [PATCH 06/12] fix: configurations sharing a stateless type of values
 can still be initialized together

---
 sdd/manager.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdd/manager.hh b/sdd/manager.hh
index 92b6553..8ee4304 100644
--- a/sdd/manager.hh
+++ b/sdd/manager.hh
@@ -36,7 +36,9 @@ manager<C>
 init(const C& configuration = C{})
 {
   using values_type = typename C::Values;
-  if (*global_ptr<C>() == nullptr and *global_values_ptr<values_type>() == nullptr)
+  // Configurations can share a type of values only if the latter is stateless.
+  constexpr bool stateful = values::values_traits<values_type>::stateful;
+  if (*global_ptr<C>() == nullptr and (not stateful or *global_values_ptr<values_type>() == nullptr))
   {
     auto vm_ptr = std::make_unique<values_manager<values_type>>(configuration);
     *global_values_ptr<values_type>() = vm_ptr.get();
-- 
2.43.0


From ff67fb9c0df9f69264d3a581f6c2bf7dcd3838cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:48 +0000
Subject: [PATCH 07/12] fix: comparing or hashing a bitset with values beyond
 64 terminated the program

---
 sdd/values/bitset.hh | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/sdd/values/bitset.hh b/sdd/values/bitset.hh
index 30478c2..f39695f 100644
--- a/sdd/values/bitset.hh
+++ b/sdd/values/bitset.hh
@@ -78,7 +78,18 @@ public:
   operator<(const bitset& lhs, const bitset& rhs)
   noexcept
   {
-    return lhs.content_.to_ulong() < rhs.content_.to_ulong();
+    if (Size <= std::numeric_limits<unsigned long>::digits)
+    {
+      return lhs.content_.to_ulong() < rhs.content_.to_ulong();
+    }
+    for (std::size_t i = Size; i > 0; --i)
+    {
+      if (lhs.content_[i - 1] != rhs.content_[i - 1])
+      {
+        return rhs.content_[i - 1];
+      }
+    }
+    return false;
   }
 
   bitset&
@@ -214,7 +225,11 @@ struct hash<sdd::values::bitset<Size>>
   operator()(const sdd::values::bitset<Size>& b)
   const noexcept
   {
-    return sdd::hash::seed(b.content_.to_ulong());
+    if (Size <= std::numeric_limits<unsigned long>::digits)
+    {
+      return sdd::hash::seed(b.content_.to_ulong());
+    }
+    return sdd::hash::seed(b.content_);
   }
 };
   
-- 
2.43.0


From 9b6cb6906e40e368b11d3066bd9571c47e6719ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:02 +0000
Subject: [PATCH 08/12] fix: equal orders did not have equal hashes

---
 sdd/order/order.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdd/order/order.hh b/sdd/order/order.hh
index 819fd1f..c8337a3 100644
--- a/sdd/order/order.hh
+++ b/sdd/order/order.hh
@@ -365,7 +365,8 @@ struct hash<sdd::order<C>>
   const noexcept
   {
     using namespace sdd::hash;
-    return seed(o.nodes_ptr_.get()) (val(o.head_));
+    // Equality is structural: only hash what equal orders have in common.
+    return o.empty() ? seed() : seed(o.position()) (val(o.identifier()));
   }
 };
 
-- 
2.43.0


From fc705d5678b12c339207dbb2402c438b4bf0012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:45 +0000
Subject: [PATCH 09/12] fix: an inductive homomorphism with skip() aborted, or
 skipped the whole level, on artificial levels

---
 sdd/hom/inductive.hh | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sdd/hom/inductive.hh b/sdd/hom/inductive.hh
index c8fbbda..cbefe05 100644
--- a/sdd/hom/inductive.hh
+++ b/sdd/hom/inductive.hh
@@ -192,10 +192,8 @@ private:
   noexcept
   -> decltype(h.skip(o.identifier().user()))
   {
-    // We can safely pass the order_identifier as a user one because only hierarchical levels
-    // can be artificial.
-    assert(not o.identifier().artificial());
-    return h.skip(o.identifier().user());
+    // An artificial level is unknown to the user, who thus can't ask to skip it.
+    return not o.identifier().is_artificial() and h.skip(o.identifier().user());
   }
 
   /// @brief Called when the user's inductive doesn't have skip().
-- 
2.43.0


From 0d7378d8947572e9de72016f2130929590c1a184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:17 +0000
Subject: [PATCH 10/12] fix: order::flat() overwrote its output after a
 hierarchy with plain output iterators

---
 sdd/order/order.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdd/order/order.hh b/sdd/order/order.hh
index c8337a3..c59a5cb 100644
--- a/sdd/order/order.hh
+++ b/sdd/order/order.hh
@@ -214,21 +214,22 @@ private:
   /// @brief Recursion on the order to get flat nodes
   template <typename OutputIterator>
   static
-  void
+  OutputIterator
   flat_impl(OutputIterator it, const order_node<C>* current)
   {
     if (current != nullptr)
     {
       if (current->nested())
       {
-        flat_impl(it, current->nested());
+        it = flat_impl(it, current->nested());
       }
       else
       {
         *it++ = current->identifier().user();
       }
-      flat_impl(it, current->next());
+      it = flat_impl(it, current->next());
     }
+    return it;
   }
 
   /// @brief Construct with a shallow copy an already existing order.
-- 
2.43.0


From 6f30ae5e3c91e78e236b1bcc57bd54446536d99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:17 +0000
Subject: [PATCH 11/12] fix: identifiers_per_hierarchy(0) never returned

---
 sdd/order/strategies/identifiers_per_hierarchy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdd/order/strategies/identifiers_per_hierarchy.hh b/sdd/order/strategies/identifiers_per_hierarchy.hh
index 0880b1c..edc60b3 100644
--- a/sdd/order/strategies/identifiers_per_hierarchy.hh
+++ b/sdd/order/strategies/identifiers_per_hierarchy.hh
@@ -33,7 +33,7 @@ public:
   operator()(order_builder<C> ob)
   const
   {
-    if (ob.empty() or nb_variables == 1)
+    if (ob.empty() or nb_variables <= 1)
     {
       return ob;
     }
-- 
2.43.0


From cc91a30b91c391a63b8c66ec9e54de10f1262819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:11 +0000
Subject: [PATCH 12/12] fix: FORCE returned its last order instead of the one
 with the smallest span

---
 sdd/order/strategies/force.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdd/order/strategies/force.hh b/sdd/order/strategies/force.hh
index 59e5463..f44d447 100644
--- a/sdd/order/strategies/force.hh
+++ b/sdd/order/strategies/force.hh
@@ -60,7 +60,7 @@ public:
 
     // Keep a copy of the order with the smallest span.
     auto best_order = std::vector<std::reference_wrapper<vertex_type>>{sorted_vertices};
-    const auto smallest_span = std::numeric_limits<double>::max();
+    auto smallest_span = std::numeric_limits<double>::max();
 
     while (iterations-- != 0)
     {
@@ -100,6 +100,7 @@ public:
       {
         // We keep the order that minimizes the span.
         best_order = sorted_vertices;
+        smallest_span = span;
       }
     }
 
-- 
2.43.0

