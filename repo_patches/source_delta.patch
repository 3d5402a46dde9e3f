From 58e102141dc648d6dff896b98ad5dfeddc93f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:38 +0000
Subject: [PATCH 01/79] fix: binary_search_tree::clear released only the root
 (and the sentinel when empty)

---
 include/altruct/structure/container/binary_search_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/binary_search_tree.h b/include/altruct/structure/container/binary_search_tree.h
index f714a76..e5af415 100644
--- a/include/altruct/structure/container/binary_search_tree.h
+++ b/include/altruct/structure/container/binary_search_tree.h
@@ -335,7 +335,7 @@ public: // constructor & size
     }
 
     void clear() {
-        _free(root_ptr());
+        _free_all(root_ptr());
         nil->left = nil;
         nil->right = nil;
     }
-- 
2.43.0


From ade85f02f3c4ff6023ef0547252482cd4a22322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:00 +0000
Subject: [PATCH 02/79] fix: bounded_contiguous_allocator copies and swaps
 shared (and double freed) the storage

---
 .../container/bounded_contiguous_allocator.h  | 32 +++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/include/altruct/structure/container/bounded_contiguous_allocator.h b/include/altruct/structure/container/bounded_contiguous_allocator.h
index 89206cf..a0b65c2 100644
--- a/include/altruct/structure/container/bounded_contiguous_allocator.h
+++ b/include/altruct/structure/container/bounded_contiguous_allocator.h
@@ -1,6 +1,9 @@
 #pragma once
 
+#include <cstdlib>
 #include <memory>
+#include <new>
+#include <utility>
 
 #if _MSC_VER < 1900
 #define NOEXCEPT
@@ -35,6 +38,35 @@ struct bounded_contiguous_allocator {
         clear();
     }
 
+    // a copy has the same capacity, but it does not share the storage
+    bounded_contiguous_allocator(const bounded_contiguous_allocator& allocator) NOEXCEPT
+        : bounded_contiguous_allocator(allocator.capacity()) {
+    }
+
+    bounded_contiguous_allocator(bounded_contiguous_allocator&& allocator) NOEXCEPT
+        : bounded_contiguous_allocator(allocator.capacity()) {
+        swap(allocator);
+    }
+
+    bounded_contiguous_allocator& operator= (const bounded_contiguous_allocator& allocator) NOEXCEPT{
+        if (this == &allocator) return *this;
+        clear();
+        available_ = capacity_ = allocator.capacity();
+        return *this;
+    }
+
+    bounded_contiguous_allocator& operator= (bounded_contiguous_allocator&& allocator) NOEXCEPT{
+        swap(allocator);
+        return *this;
+    }
+
+    void swap(bounded_contiguous_allocator& allocator) NOEXCEPT{
+        std::swap(capacity_, allocator.capacity_);
+        std::swap(data_, allocator.data_);
+        std::swap(available_, allocator.available_);
+        std::swap(ptrs_, allocator.ptrs_);
+    }
+
     template <class U>
     bounded_contiguous_allocator(const bounded_contiguous_allocator<U>& allocator) NOEXCEPT
         : bounded_contiguous_allocator(allocator.capacity()) {
-- 
2.43.0


From 78906b5f7ffe4148c338e38473c1d92d1618c026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:47 +0000
Subject: [PATCH 03/79] fix: bit_vector shifts by whole words overwrote their
 source, overran the buffer and left bits above the size

---
 include/altruct/structure/container/bit_vector.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/altruct/structure/container/bit_vector.h b/include/altruct/structure/container/bit_vector.h
index e87fc01..3dd80ef 100644
--- a/include/altruct/structure/container/bit_vector.h
+++ b/include/altruct/structure/container/bit_vector.h
@@ -2,6 +2,7 @@
 
 #include "altruct/algorithm/math/bits.h"
 
+#include <algorithm>
 #include <string>
 #include <vector>
 #include <iterator>
@@ -87,7 +88,7 @@ public:
 
     bit_vector& operator >>= (int cnt) {
         size_t wsz = words.size() - 1; // there is always one extra 0-word at the end
-        size_t q = cnt / L; int r = cnt % L;
+        size_t q = std::min(size_t(cnt / L), wsz); int r = cnt % L;
         for (size_t i = 0; i < wsz - q; i++) {
             words[i] = word_at(i + q, r);
         }
@@ -99,14 +100,15 @@ public:
 
     bit_vector& operator <<= (int cnt) {
         size_t wsz = words.size() - 1; // there is always one extra 0-word at the end
-        size_t q = cnt / L; int r = cnt % L;
-        for (size_t i = q + 1; i < wsz; i++) {
+        size_t q = std::min(size_t(cnt / L), wsz); int r = cnt % L;
+        for (size_t i = wsz; --i > q && i < wsz; ) { // backwards, so that each word is read before it is written
             words[i] = (r == 0) ? words[i - q] : ((words[i - q - 1] >> (L - r)) | (words[i - q] << r));
         }
-        words[q] = (words[0] << r); // words[-1] is considered to be 0
+        if (q < wsz) words[q] = (words[0] << r); // words[-1] is considered to be 0
         for (size_t i = 0; i < q; i++) {
             words[i] = W0;
         }
+        words[sz / L] &= first_bits(sz % L); // the bits above the size must remain 0
         return *this;
     }
 
-- 
2.43.0


From 50eeb4a2f9b52d2a32e6beb21c6cd9ec95346b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:38 +0000
Subject: [PATCH 04/79] fix: sqrt_map and lohi_map subscript after erase or
 reset_max returned the erased value; lohi_map::at did not throw for absent
 low keys

---
 include/altruct/structure/container/lohi_map.h | 10 ++++++++--
 include/altruct/structure/container/sqrt_map.h |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/altruct/structure/container/lohi_map.h b/include/altruct/structure/container/lohi_map.h
index c989713..05a4e46 100644
--- a/include/altruct/structure/container/lohi_map.h
+++ b/include/altruct/structure/container/lohi_map.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <vector>
+#include <stdexcept>
 #include <unordered_map>
 
 namespace altruct {
@@ -25,6 +26,10 @@ class lohi_map {
 
     int get_and_set(int& cnt, int new_cnt) { int prev_cnt = cnt; cnt = new_cnt; return prev_cnt; }
 
+    void check_lo(const I& k) const { if (!cnt_lo.at(k)) throw std::out_of_range("invalid lohi_map<I, T> key"); }
+    const T& at_lo(const I& k) const { check_lo(k); return tbl_lo[k]; }
+    T& at_lo(const I& k) { check_lo(k); return tbl_lo[k]; }
+
 public:
     typedef I key_type;
     typedef T mapped_type;
@@ -40,11 +45,11 @@ public:
     }
 
     const T& at(const I& k) const {
-        return (k <= max_lo_key) ? tbl_lo.at(k) : tbl_hi.at(k);
+        return (k <= max_lo_key) ? at_lo(k) : tbl_hi.at(k);
     }
 
     T& at(const I& k) {
-        return (k <= max_lo_key) ? tbl_lo.at(k) : tbl_hi.at(k);
+        return (k <= max_lo_key) ? at_lo(k) : tbl_hi.at(k);
     }
 
     T& operator [] (const I& k) {
@@ -65,6 +70,7 @@ public:
     }
 
     int erase(const I& k) {
+        if (k <= max_lo_key) tbl_lo[k] = T();
         return (k <= max_lo_key) ? get_and_set(cnt_lo[k], 0) : (int)tbl_hi.erase(k);
     }
 };
diff --git a/include/altruct/structure/container/sqrt_map.h b/include/altruct/structure/container/sqrt_map.h
index dc85e06..c12231a 100644
--- a/include/altruct/structure/container/sqrt_map.h
+++ b/include/altruct/structure/container/sqrt_map.h
@@ -60,7 +60,7 @@ public:
     void reset_max(I max_key = 0) {
         this->max_key = max_key;
         cnt_hi.assign(max_key / max_lo_key + 1, 0);
-        tbl_hi.resize(max_key / max_lo_key + 1);
+        tbl_hi.assign(max_key / max_lo_key + 1, T());
     }
 
     int count(const I& k) const {
@@ -160,6 +160,7 @@ public:
     }
 
     int erase(const I& k) {
+        el(k) = T();
         return (k <= max_lo_key) ? get_and_set(cnt_lo[k], 0) : get_and_set(cnt_hi[max_key / k], 0);
     }
 };
-- 
2.43.0


From 159f2371c07ac9bb8e98eb04ba3f25d9eaed0f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:59 +0000
Subject: [PATCH 05/79] fix: lazy_treap::get did not compile (misplaced
 parenthesis)

---
 include/altruct/structure/container/lazy_treap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/container/lazy_treap.h b/include/altruct/structure/container/lazy_treap.h
index 2769297..4b7ec5a 100644
--- a/include/altruct/structure/container/lazy_treap.h
+++ b/include/altruct/structure/container/lazy_treap.h
@@ -301,7 +301,7 @@ public: // query & update
         }
         T re = id;
         for (bool was_right = true; e != a; e = e.parent()) {
-            if (was_right) dummy = re, re = *e, f_up(re, _val_or_id(e.left(), dummy)); // aggregate e and its left child
+            if (was_right) dummy = re, re = *e, f_up(re, _val_or_id(e.left()), dummy); // aggregate e and its left child
             was_right = (e == e.parent().right());
         }
         T r = *a; f_up(r, rb, re); // aggregate a
-- 
2.43.0


From ae07a8167d172dbf310fb74e34be246e8ca1b360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:59 +0000
Subject: [PATCH 06/79] fix: lazy_treap::swap left the aggregation functors
 behind

---
 include/altruct/structure/container/lazy_treap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/altruct/structure/container/lazy_treap.h b/include/altruct/structure/container/lazy_treap.h
index 4b7ec5a..3e96221 100644
--- a/include/altruct/structure/container/lazy_treap.h
+++ b/include/altruct/structure/container/lazy_treap.h
@@ -154,6 +154,8 @@ public:
     void swap(lazy_treap& rhs) {
         tree.swap(rhs.tree);
         std::swap(rnd, rhs.rnd);
+        std::swap(f_up, rhs.f_up);
+        std::swap(f_down, rhs.f_down);
     }
 
     void clear() {
-- 
2.43.0


From 383697f4091f699fbea19e4042410c51e8cc68e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:19 +0000
Subject: [PATCH 07/79] fix: lazy_treap insertion left stale aggregates in
 nodes rotated below the new one

---
 include/altruct/structure/container/lazy_treap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/altruct/structure/container/lazy_treap.h b/include/altruct/structure/container/lazy_treap.h
index 3e96221..0156dc5 100644
--- a/include/altruct/structure/container/lazy_treap.h
+++ b/include/altruct/structure/container/lazy_treap.h
@@ -366,8 +366,10 @@ protected: // balancing
         while (it.balance() < it.parent().balance()) {
             if (it.parent().left() == it) {
                 tree.rotate_right(it.parent());
+                f_up(*it.right(), _val_or_id(it.right().left()), _val_or_id(it.right().right()));
             } else {
                 tree.rotate_left(it.parent());
+                f_up(*it.left(), _val_or_id(it.left().left()), _val_or_id(it.left().right()));
             }
         }
         return it;
-- 
2.43.0


From 3f859e6d63a243db269f2c1fd221cfaaebc05c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:57 +0000
Subject: [PATCH 08/79] fix: copies of direct_rmq (and suffix_array) kept
 pointers into the original

---
 .../structure/container/range_minimum_query.h  | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/experimental/include/altruct/structure/container/range_minimum_query.h b/experimental/include/altruct/structure/container/range_minimum_query.h
index 15abb68..08b3e6c 100644
--- a/experimental/include/altruct/structure/container/range_minimum_query.h
+++ b/experimental/include/altruct/structure/container/range_minimum_query.h
@@ -69,19 +69,19 @@ public:
     index_t get_index(index_t begin, index_t end) const {
         index_t l = begin, r = end - 1;
         index_t x = l / BLOCK_SIZE, y = r / BLOCK_SIZE, z = y - x;
-        if (z == 0) return x * BLOCK_SIZE + _block_tree[x]->idx[l % BLOCK_SIZE][r % BLOCK_SIZE];
+        if (z == 0) return x * BLOCK_SIZE + _trees[_block_tree[x]].idx[l % BLOCK_SIZE][r % BLOCK_SIZE];
         if (z == 1) return min_index(
-            x * BLOCK_SIZE + _block_tree[x]->idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
-            y * BLOCK_SIZE + _block_tree[y]->idx[0][r % BLOCK_SIZE]);
+            x * BLOCK_SIZE + _trees[_block_tree[x]].idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
+            y * BLOCK_SIZE + _trees[_block_tree[y]].idx[0][r % BLOCK_SIZE]);
         int k = log2_32(z - 2);
         return min_index(
             min_index(
-                x * BLOCK_SIZE + _block_tree[x]->idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
+                x * BLOCK_SIZE + _trees[_block_tree[x]].idx[l % BLOCK_SIZE][BLOCK_SIZE - 1],
                 _sparse_table[x + 1 + blocks * k]
             ),
             min_index(
                 _sparse_table[y + blocks * k - (1 << k)],
-                y * BLOCK_SIZE + _block_tree[y]->idx[0][r % BLOCK_SIZE]
+                y * BLOCK_SIZE + _trees[_block_tree[y]].idx[0][r % BLOCK_SIZE]
             ));
     }
 
@@ -94,7 +94,7 @@ private:
     index_t blocks;
     std::vector<value_t> _array;
     std::vector<tree_t> _trees;
-    std::vector<tree_t*> _block_tree;
+    std::vector<int> _block_tree;
     std::vector<index_t> _sparse_table;
     int _ballot[BLOCK_SIZE + 1][BLOCK_SIZE + 1];
 
@@ -116,9 +116,9 @@ private:
                 }
                 rp[q + j - BLOCK_SIZE + 1] = p[j];
             }
-            _block_tree[i] = &_trees[N];
+            _block_tree[i] = N;
             // populate tree
-            tree_t* table = _block_tree[i];
+            tree_t* table = &_trees[N];
             if (table->idx[0][0] != -1) continue;
             for (int left = 0; left < BLOCK_SIZE; left++) {
                 int min_idx = left;
@@ -138,7 +138,7 @@ private:
         if (height == 0) return;
         index_t *b = _sparse_table.data();
         for (index_t i = 0; i < blocks; i++) {
-            b[i] = i * BLOCK_SIZE + _block_tree[i]->idx[0][BLOCK_SIZE - 1];
+            b[i] = i * BLOCK_SIZE + _trees[_block_tree[i]].idx[0][BLOCK_SIZE - 1];
         }
         for (index_t t = 1; t * 2 < blocks; t *= 2) {
             std::copy(b, b + blocks, b + blocks);
-- 
2.43.0


From 22178eab486d309e2af01d037ac9883617fa013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:58 +0000
Subject: [PATCH 09/79] fix: suffix_array of an empty string dereferenced the
 end iterator

---
 experimental/include/altruct/structure/container/suffix_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/structure/container/suffix_array.h b/experimental/include/altruct/structure/container/suffix_array.h
index da69bfc..4ccd4c0 100644
--- a/experimental/include/altruct/structure/container/suffix_array.h
+++ b/experimental/include/altruct/structure/container/suffix_array.h
@@ -45,7 +45,7 @@ private:
 
     template<typename It>
     void build_suffix_array(It begin, It end) {
-        alpha_t max_elem = *std::max_element(begin, end);
+        alpha_t max_elem = (begin != end) ? *std::max_element(begin, end) : alpha_t(0);
         build_suffix_array(begin, end, (index_t)max_elem + 1);
     }
 
-- 
2.43.0


From 79fe528c38fdf749d981588764f76e606575b123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:27 +0000
Subject: [PATCH 10/79] fix: suffix_array compared the element past the end of
 the string while sorting LMS substrings

---
 experimental/include/altruct/structure/container/suffix_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/structure/container/suffix_array.h b/experimental/include/altruct/structure/container/suffix_array.h
index 4ccd4c0..75885f7 100644
--- a/experimental/include/altruct/structure/container/suffix_array.h
+++ b/experimental/include/altruct/structure/container/suffix_array.h
@@ -108,7 +108,7 @@ private:
                 diff = true;
             } else {
                 for (index_t j = pos, k = prev_pos;; j++, k++) {
-                    if (str[j] != str[k] || types[j] != types[k]) {
+                    if (j == n || k == n || str[j] != str[k] || types[j] != types[k]) {
                         diff = true;
                         break;
                     } else if (j != pos && ((types[j] && !types[j - 1]) || (types[k] && !types[k - 1]))) {
-- 
2.43.0


From b684e3ce1e16d407cb60638ca157aa6066a91ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 11/79] fix: prim_spanning_tree reparented nodes that were
 already in the tree, producing cycles

---
 .../include/altruct/algorithm/graph/prim_spanning_tree.h      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h b/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
index 0b2853b..034e23f 100644
--- a/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
+++ b/experimental/include/altruct/algorithm/graph/prim_spanning_tree.h
@@ -23,15 +23,17 @@ namespace graph {
 template<typename E, typename W>
 std::vector<E> prim_spanning_tree(const graph<E>& g, int root, W inf) {
     std::vector<E> res(g.size(), { -1, inf });
+    std::vector<char> done(g.size()); // whether the node has already been added to the tree
     res[root] = { root, 0 };
     std::set<std::pair<W, int>> q{ { 0, root } };
     while (!q.empty()) {
         int u = q.begin()->second;
         q.erase(q.begin());
+        done[u] = 1;
         for (const auto& e : g[u]) {
             int v = e.v;
             auto d_new = e.w;
-            if (d_new < res[v].w && res[u].v != v) {
+            if (!done[v] && d_new < res[v].w) {
                 q.erase({ res[v].w, v });
                 res[v] = { u, d_new };
                 q.insert({ res[v].w, v });
-- 
2.43.0


From a27c25217a9b5ac2b8bf03eed668a87383e94d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 12/79] fix: heavy_light_decomposition moved the heavy edge's
 target but not its weight

---
 .../include/altruct/algorithm/graph/heavy_light_decomposition.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h b/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
index 6ea2c31..089127c 100644
--- a/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
+++ b/experimental/include/altruct/algorithm/graph/heavy_light_decomposition.h
@@ -58,7 +58,7 @@ public:
                     heavy_i = i, heavy_size = sizes[v];
                 }
             }
-            std::swap(g[u][0].v, g[u][heavy_i].v);
+            std::swap(g[u][0], g[u][heavy_i]);
         }
         int pos = 0, par = -2;
         iterative_dfs(g, [&](int root, int parent, int node, int depth) {
-- 
2.43.0


From 817bfe6032131723cf00dc53a1ca34d4554330a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:18 +0000
Subject: [PATCH 13/79] fix: hungarian did not compile (unqualified min and
 max)

---
 experimental/include/altruct/algorithm/graph/hungarian.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/include/altruct/algorithm/graph/hungarian.h b/experimental/include/altruct/algorithm/graph/hungarian.h
index 54e2136..d9fd7b0 100644
--- a/experimental/include/altruct/algorithm/graph/hungarian.h
+++ b/experimental/include/altruct/algorithm/graph/hungarian.h
@@ -114,7 +114,7 @@ private:
         for (x = 0; x < n; x++) {
             lx[x] = cost(x, 0);
             for (y = 0; y < n; y++) {
-                lx[x] = max(lx[x], cost(x, y));
+                lx[x] = std::max(lx[x], cost(x, y));
             }
         }
 
@@ -158,7 +158,7 @@ private:
                 for (y = 0; y < n; y++)                              // initial delta (instead of INF)
                     if (!T[y]) { delta = slack[y]; break; }
                 for (y = 0; y < n; y++)                              // calculate delta using slack
-                    if (!T[y]) delta = min(delta, slack[y]);
+                    if (!T[y]) delta = std::min(delta, slack[y]);
                 for (y = 0; y < n; y++)                              // update slack array
                     if (!T[y]) slack[y] -= delta;
                 for (x = 0; x < n; x++)                              // update X labels
-- 
2.43.0


From 0af936b230be4970ee2fcb947ff3f2b05f67da16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:18 +0000
Subject: [PATCH 14/79] fix: bipartite_matching selected every copy of a
 repeated matched edge

---
 .../include/altruct/algorithm/graph/bipartite_matching.h      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/experimental/include/altruct/algorithm/graph/bipartite_matching.h b/experimental/include/altruct/algorithm/graph/bipartite_matching.h
index c0c51da..fd3d851 100644
--- a/experimental/include/altruct/algorithm/graph/bipartite_matching.h
+++ b/experimental/include/altruct/algorithm/graph/bipartite_matching.h
@@ -29,7 +29,9 @@ std::vector<E> bipartite_matching(int nodes, const std::vector<E>& edges) {
     d.calc_max_flow(src, sink);
     std::vector<E> selected;
     for (const auto& e : edges) {
-        if (d.flow[e.u][e.v]) selected.push_back(e);
+        if (!d.flow[e.u][e.v]) continue;
+        d.flow[e.u][e.v] = 0; // each matched pair is selected once, even if its edge is repeated
+        selected.push_back(e);
     }
     return selected;
 }
-- 
2.43.0


From 8ad2534b819e6c6ed7e2396b36843cfe4ebd7c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:18 +0000
Subject: [PATCH 15/79] fix: graph::add_edge2 read its edge after reallocating
 the list the edge may live in

---
 include/altruct/structure/graph/graph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/graph/graph.h b/include/altruct/structure/graph/graph.h
index 2096603..70a1bf8 100644
--- a/include/altruct/structure/graph/graph.h
+++ b/include/altruct/structure/graph/graph.h
@@ -84,7 +84,7 @@ public:
     int add_node() { adjl.push_back({}); return size() - 1; }
     void add_edge(int u, const E& e) { adjl[u].push_back(e); }
 
-    void add_edge2(int u, const E& e) {
+    void add_edge2(int u, E e) {
         adjl[u].push_back(e);
         adjl[e.v].push_back(e);
         adjl[e.v].back().v = u;
-- 
2.43.0


From ab3cf42d61b0205939f012558811c6eb9c0f8f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:31 +0000
Subject: [PATCH 16/79] fix: parallel_execute called the worker provider from
 several threads at once

---
 include/altruct/concurrency/concurrency.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/altruct/concurrency/concurrency.h b/include/altruct/concurrency/concurrency.h
index b42992a..0ecb08c 100644
--- a/include/altruct/concurrency/concurrency.h
+++ b/include/altruct/concurrency/concurrency.h
@@ -53,8 +53,11 @@ template<typename RESULT_COLLECTOR, typename JOB_PROVIDER, typename WORKER_PROVI
 void parallel_execute(RESULT_COLLECTOR& result_collector, JOB_PROVIDER& job_provider, WORKER_PROVIDER& worker_provider, int num_threads) {
     std::mutex job_provider_mutex;
     std::mutex result_collector_mutex;
+    std::mutex worker_provider_mutex;
     auto func = [&]() {
+        std::unique_lock<std::mutex> worker_provider_lock(worker_provider_mutex);
         auto worker = worker_provider.create_worker();
+        worker_provider_lock.unlock();
         while (true) {
             std::unique_lock<std::mutex> job_provider_lock(job_provider_mutex);
             if (!job_provider.has_next_job()) break;
-- 
2.43.0


From 68a798a2ccfd22c446aa10ebf65082832dab75ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:31 +0000
Subject: [PATCH 17/79] fix: readers reported bytes above 0x7f as negative and
 0xff as end of input

---
 include/altruct/io/fast_io.h | 2 +-
 include/altruct/io/reader.h  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index dfc0eef..c513919 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -115,7 +115,7 @@ public:
             refill();
             if (ptr >= end) return -1;
         }
-        return *ptr++;
+        return (unsigned char)*ptr++;
     }
 
     // Reads a string of characters until a whitespace.
diff --git a/include/altruct/io/reader.h b/include/altruct/io/reader.h
index 190d3e5..06e9c7a 100644
--- a/include/altruct/io/reader.h
+++ b/include/altruct/io/reader.h
@@ -108,7 +108,7 @@ public:
             read_failed = true;
             return -1;
         }
-        return in[pos++];
+        return (unsigned char)in[pos++];
     }
 
     size_t read(char* buffer, size_t count) override {
@@ -232,7 +232,7 @@ public:
             read_failed = true;
             return -1;
         }
-        return *ptr++;
+        return (unsigned char)*ptr++;
     }
 
     size_t read(char* buffer, size_t count) override {
@@ -268,7 +268,7 @@ public:
     std::string read_line(char delimiter = '\n') {
         std::string s;
         int c = read_char();
-        while (c != delimiter && c != -1) {
+        while (c != (unsigned char)delimiter && c != -1) {
             s.push_back((char)c);
             c = read_char();
         }
-- 
2.43.0


From fd518590dd09284db1b40771e327f250d568d4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:31 +0000
Subject: [PATCH 18/79] fix: fast_read skipped past the end of its buffer and
 left stale characters after the end of the data

---
 include/altruct/io/fast_io.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index c513919..e1e0feb 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -60,6 +60,7 @@ public:
             available += len;
             end += len;
         }
+        *end = 0;
         return available;
     }
 
@@ -98,7 +99,12 @@ public:
 
     // Skips `count` characters.
     void skip(size_t count) {
-        ptr += count;
+        while (count > 0) {
+            size_t len = std::min(count, reserve(1));
+            if (len == 0) break;
+            ptr += len;
+            count -= len;
+        }
     }
 
     // Unreads the last read character.
-- 
2.43.0


From 5fbf8fc3666346396bed4d4ad073d6342ff6a31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:53 +0000
Subject: [PATCH 19/79] fix: reading the most negative integer overflowed

---
 include/altruct/io/fast_io.h | 9 ++++-----
 include/altruct/io/reader.h  | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index e1e0feb..aaa60ee 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -156,13 +156,13 @@ public:
         return +1;
     }
 
-    // Reads decimal digits.
+    // Reads decimal digits; they get subtracted instead if `negative` is set.
     template<typename T>
-    T read_digits(T d = 0, int* cnt = nullptr) {
+    T read_digits(T d = 0, int* cnt = nullptr, bool negative = false) {
         int l = 0;
         int c = read_char();
         while ('0' <= c && c <= '9') {
-            d = d * 10 + (c - '0');
+            d = negative ? d * 10 - (c - '0') : d * 10 + (c - '0');
             l++;
             c = read_char();
         }
@@ -176,8 +176,7 @@ public:
     I read_integral_number() {
         skip_whitespaces();
         int s = read_sign();
-        I d = read_digits<I>();
-        return (s < 0) ? -d : d;
+        return read_digits<I>(0, nullptr, s < 0);
     }
 
     // Reads a single signed decimal floating-point number of type F.
diff --git a/include/altruct/io/reader.h b/include/altruct/io/reader.h
index 06e9c7a..5762349 100644
--- a/include/altruct/io/reader.h
+++ b/include/altruct/io/reader.h
@@ -307,13 +307,13 @@ public:
         return +1;
     }
 
-    // Reads decimal digits.
+    // Reads decimal digits; they get subtracted instead if `negative` is set.
     template<typename T>
-    T read_digits(T d = 0, int* cnt = nullptr) {
+    T read_digits(T d = 0, int* cnt = nullptr, bool negative = false) {
         int l = 0;
         int c = read_char();
         while ('0' <= c && c <= '9') {
-            d = d * 10 + (c - '0');
+            d = negative ? d * 10 - (c - '0') : d * 10 + (c - '0');
             l++;
             c = read_char();
         }
@@ -327,8 +327,7 @@ public:
     I read_integral_number() {
         skip_whitespaces();
         int s = read_sign();
-        I d = read_digits<I>();
-        return (s < 0) ? -d : d;
+        return read_digits<I>(0, nullptr, s < 0);
     }
 
     // Reads a single signed decimal floating-point number of type F.
-- 
2.43.0


From 0b26a932bd494e3d0c55838f6eeb9188bce55919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:53 +0000
Subject: [PATCH 20/79] fix: writing the most negative integer produced garbage

---
 include/altruct/io/fast_io.h | 11 ++++++-----
 include/altruct/io/writer.h  | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index aaa60ee..4a33a81 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -332,13 +332,14 @@ public:
     template<typename I>
     fast_write& write_integral_number(I d, int len = 1) {
         int i;
-        static char tc[50];
-        if (d < 0) {
-            d = -d;
+        char tc[50];
+        bool negative = d < 0;
+        if (negative) {
             write_char('-');
         }
-        for (i = 0; (d > 0 || i < len) && i < sizeof(tc); i++) {
-            tc[i] = (d % 10) + '0';
+        for (i = 0; (d != 0 || i < len) && i < sizeof(tc); i++) {
+            int r = (int)(d % 10); // not positive for a negative `d`, which might not have its opposite
+            tc[i] = (negative ? -r : r) + '0';
             d /= 10;
         }
         while (i > 0) {
diff --git a/include/altruct/io/writer.h b/include/altruct/io/writer.h
index 1766d93..d471d36 100644
--- a/include/altruct/io/writer.h
+++ b/include/altruct/io/writer.h
@@ -245,13 +245,14 @@ public:
     template<typename I>
     simple_writer& write_integral_number(I d, int len = 1) {
         int i;
-        static char tc[50];
-        if (d < 0) {
-            d = -d;
+        char tc[50];
+        bool negative = d < 0;
+        if (negative) {
             write_char('-');
         }
-        for (i = 0; (d > 0 || i < len) && i < sizeof(tc); i++) {
-            tc[i] = (d % 10) + '0';
+        for (i = 0; (d != 0 || i < len) && i < sizeof(tc); i++) {
+            int r = (int)(d % 10); // not positive for a negative `d`, which might not have its opposite
+            tc[i] = (negative ? -r : r) + '0';
             d /= 10;
         }
         while (i > 0) {
-- 
2.43.0


From 2716ae417782616da3058da293b5b5330dc2ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:53 +0000
Subject: [PATCH 21/79] fix: floating-point numbers that round up to a power of
 ten were written with a ':' digit

---
 include/altruct/io/fast_io.h | 6 +++++-
 include/altruct/io/writer.h  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index 4a33a81..ab0fc18 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -357,10 +357,14 @@ public:
         int e = 1, g = exponent(f);
         if (scientific) {
             f /= pow(F(10), g);
+        }
+        f += pow(F(10), -precision) / 2; // round
+        if (scientific) {
+            if (f >= 10) f /= 10, g++; // rounded up to the next power of ten
         } else {
+            g = exponent(f); // rounding might have added a digit
             e = std::max(g, 0) + 1;
         }
-        f += pow(F(10), -precision) / 2; // round
         while (e > -precision) {
             if (e == 0) {
                 write_char('.');
diff --git a/include/altruct/io/writer.h b/include/altruct/io/writer.h
index d471d36..ca55030 100644
--- a/include/altruct/io/writer.h
+++ b/include/altruct/io/writer.h
@@ -270,10 +270,14 @@ public:
         int e = 1, g = exponent(f);
         if (scientific) {
             f /= pow(F(10), g);
+        }
+        f += pow(F(10), -precision) / 2; // round
+        if (scientific) {
+            if (f >= 10) f /= 10, g++; // rounded up to the next power of ten
         } else {
+            g = exponent(f); // rounding might have added a digit
             e = std::max(g, 0) + 1;
         }
-        f += pow(F(10), -precision) / 2; // round
         while (e > -precision) {
             if (e == 0) {
                 write_char('.');
-- 
2.43.0


From 0eed5a513b511ef9673d1449fcb8c552fc938481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:53 +0000
Subject: [PATCH 22/79] fix: fast_write truncated strings at an embedded null
 character

---
 include/altruct/io/fast_io.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index ab0fc18..48b414f 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -326,7 +326,10 @@ public:
     }
 
     fast_write& write_string(const std::string& s) {
-        return write_string(s.c_str());
+        for (char c : s) {
+            write_char(c);
+        }
+        return *this;
     }
 
     template<typename I>
-- 
2.43.0


From c189523e1a020b61cf0d09cd30d19ac9726ad39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:41 +0000
Subject: [PATCH 23/79] fix: data() of a reader that has not read anything yet
 pointed to uninitialised characters

---
 include/altruct/io/fast_io.h | 1 +
 include/altruct/io/reader.h  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/altruct/io/fast_io.h b/include/altruct/io/fast_io.h
index 48b414f..dd0bf4c 100644
--- a/include/altruct/io/fast_io.h
+++ b/include/altruct/io/fast_io.h
@@ -38,6 +38,7 @@ public:
         buff = new char[capacity+1];
         buff[capacity] = 0;
         ptr = end = buff;
+        *end = 0;
         cnt = 0;
     }
 
diff --git a/include/altruct/io/reader.h b/include/altruct/io/reader.h
index 5762349..b69ef7e 100644
--- a/include/altruct/io/reader.h
+++ b/include/altruct/io/reader.h
@@ -149,6 +149,7 @@ public:
         buff = new char[capacity + 1];
         buff[capacity] = 0;
         ptr = end = buff;
+        *end = 0;
     }
 
     ~buffered_reader() {
-- 
2.43.0


From e372869d80b35cc8f7ec0ad86b0f2e29b69f3c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:48 +0000
Subject: [PATCH 24/79] fix: a prefix operator must not complete pending
 operators of higher precedence before their operand

---
 include/altruct/algorithm/parser/shunting_yard.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/parser/shunting_yard.h b/include/altruct/algorithm/parser/shunting_yard.h
index 8e484e3..2565fdd 100644
--- a/include/altruct/algorithm/parser/shunting_yard.h
+++ b/include/altruct/algorithm/parser/shunting_yard.h
@@ -93,7 +93,11 @@ std::vector<postfix_token> infix_to_postfix(
                 res.push_back({ postfix_token::type_t::OPERAND, t.id, 0 });
                 break;
             case infix_token::type_t::OPERATOR:
-                pop_operators(t.id);
+                // a prefix operator doesn't end the operand of any pending operator
+                if (operators[t.id].arity != operator_desc::arity_t::UNARY ||
+                    operators[t.id].associativity != operator_desc::assoc_t::RIGHT) {
+                    pop_operators(t.id);
+                }
                 stk.push_back(t);
                 break;
             case infix_token::type_t::LEFT_PARENTHESIS:
-- 
2.43.0


From 8f75f022020a19b20f3d58615bc5ae0d94135c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:49 +0000
Subject: [PATCH 25/79] fix: a function call without arguments was given one
 argument

---
 include/altruct/algorithm/parser/shunting_yard.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/parser/shunting_yard.h b/include/altruct/algorithm/parser/shunting_yard.h
index 2565fdd..e5fcd99 100644
--- a/include/altruct/algorithm/parser/shunting_yard.h
+++ b/include/altruct/algorithm/parser/shunting_yard.h
@@ -79,6 +79,7 @@ std::vector<postfix_token> infix_to_postfix(
     int num_args = 0;
     std::vector<postfix_token> res;
     std::vector<infix_token> stk;
+    auto prev_type = infix_token::type_t::SEPARATOR;
     auto pop_operators = [&](int id) {
         while (!stk.empty() && stk.back().type == infix_token::type_t::OPERATOR &&
             (id < 0 || operators[id] < operators[stk.back().id])) {
@@ -105,7 +106,7 @@ std::vector<postfix_token> infix_to_postfix(
                 break;
             case infix_token::type_t::RIGHT_PARENTHESIS:
                 pop_operators(-1);
-                num_args = 1;
+                num_args = (prev_type == infix_token::type_t::LEFT_PARENTHESIS) ? 0 : 1;
                 while (!stk.empty() && stk.back().type == infix_token::type_t::SEPARATOR) {
                     num_args++; stk.pop_back();
                 }
@@ -125,6 +126,7 @@ std::vector<postfix_token> infix_to_postfix(
                 stk.push_back(t);
                 break;
         }
+        prev_type = t.type;
     }
     pop_operators(-1);
     return res;
@@ -152,7 +154,7 @@ std::vector<T> evaluate_postfix(
                 break;
             case postfix_token::type_t::FUNCTION:
                 int pos = (int)stk.size() - t.num_args;
-                T r = evaluators[t.id](&stk[pos]);
+                T r = evaluators[t.id](stk.data() + pos);
                 stk.resize(pos);
                 stk.push_back(r);
                 break;
-- 
2.43.0


From 35f3650713b3a266cb53b1c50e758439aafcac08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:46 +0000
Subject: [PATCH 26/79] fix: cumulative_hash::assign kept the hashes of the
 previous sequence

---
 include/altruct/algorithm/hash/polynomial_hash.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/altruct/algorithm/hash/polynomial_hash.h b/include/altruct/algorithm/hash/polynomial_hash.h
index e679f7a..f52d97f 100644
--- a/include/altruct/algorithm/hash/polynomial_hash.h
+++ b/include/altruct/algorithm/hash/polynomial_hash.h
@@ -279,6 +279,7 @@ public:
         HASH h;
         size_t pos = 0;
         h.ensure(std::distance(begin, end));
+        vh.clear();
         for (It it = begin; it != end; ++it) {
             h.add(*it, pos++);
             vh.push_back(h);
-- 
2.43.0


From 70508b517aeca48be8be80e13b0a5b1da3cd8c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:22 +0000
Subject: [PATCH 27/79] fix: integer square and cube roots failed near the
 limits of the type

---
 include/altruct/algorithm/math/base.h | 32 +++++++++----------
 src/algorithm/math/base.cpp           | 46 ++++++++++++++++-----------
 2 files changed, 43 insertions(+), 35 deletions(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 97b7e7d..8abfcf1 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -241,6 +241,12 @@ T lcm(const T& a, const T& b) {
     return a * (b / gcd(a, b));
 }
 
+/**
+ * Integer part of the square & cube root.
+ */
+uint32_t usqrt(uint64_t x);
+uint32_t ucbrt(uint64_t x);
+
 /**
  * Integer square & square root.
  */
@@ -269,7 +275,7 @@ T sqT(T x) {
  * Note: for negative `x` result is `-sqrtT(-x)`.
  * Base implementation uses the Newton-Raphson method in O(log3(n)).
  */
-template<typename T>
+template<typename T, typename std::enable_if_t<!std::is_integral<T>::value, bool> = true>
 T sqrtT(T x, T eps = T(1), size_t max_iter = 0) {
     if (x < 0) return -sqrtT<T>(-x, eps, max_iter);
     if (x == 0) return 0;
@@ -285,14 +291,10 @@ T sqrtT(T x, T eps = T(1), size_t max_iter = 0) {
 template<> inline float sqrtT(float x, float, size_t) { return sqrt(x); }
 template<> inline double sqrtT(double x, double, size_t) { return sqrt(x); }
 template<> inline long double sqrtT(long double x, long double, size_t) { return sqrt(x); }
-template<> inline int8_t sqrtT(int8_t x, int8_t, size_t) { return isqrt(x); }
-template<> inline uint8_t sqrtT(uint8_t x, uint8_t, size_t) { return isqrt(x); }
-template<> inline int16_t sqrtT(int16_t x, int16_t, size_t) { return isqrt(x); }
-template<> inline uint16_t sqrtT(uint16_t x, uint16_t, size_t) { return isqrt(x); }
-template<> inline int32_t sqrtT(int32_t x, int32_t, size_t) { return isqrt(x); }
-template<> inline uint32_t sqrtT(uint32_t x, uint32_t, size_t) { return isqrt(x); }
-template<> inline int64_t sqrtT(int64_t x, int64_t, size_t) { return isqrt(x); }
-template<> inline uint64_t sqrtT(uint64_t x, uint64_t, size_t) { return isqrt(x); }
+template<typename I, typename std::enable_if_t<std::is_integral<I>::value, bool> = true>
+I sqrtT(I x, I = I(1), size_t = 0) {
+    return (x < 0) ? I(-int64_t(usqrt(-uint64_t(x)))) : I(usqrt(x));
+}
 
 /**
  * Tests whether `x` is a square.
@@ -316,7 +318,7 @@ T cbT(T x) {
  * Note: for negative `x` result is `-cbrtT(-x)`.
  * Base implementation uses the Newton-Raphson method in O(log3(n)).
  */
-template<typename T>
+template<typename T, typename std::enable_if_t<!std::is_integral<T>::value, bool> = true>
 T cbrtT(T x, T eps = T(1), size_t max_iter = 0) {
     if (x < 0) return -cbrtT<T>(-x, eps, max_iter);
     if (x == 0) return 0;
@@ -333,12 +335,10 @@ T cbrtT(T x, T eps = T(1), size_t max_iter = 0) {
 }
 template<> inline float cbrtT(float x, float, size_t) { return cbrt(x); }
 template<> inline double cbrtT(double x, double, size_t) { return cbrt(x); }
-template<> inline int16_t cbrtT(int16_t x, int16_t, size_t) { return icbrt(x); }
-template<> inline uint16_t cbrtT(uint16_t x, uint16_t, size_t) { return icbrt(x); }
-template<> inline int32_t cbrtT(int32_t x, int32_t, size_t) { return icbrt(x); }
-template<> inline uint32_t cbrtT(uint32_t x, uint32_t, size_t) { return icbrt(x); }
-template<> inline int64_t cbrtT(int64_t x, int64_t, size_t) { return icbrt(x); }
-template<> inline uint64_t cbrtT(uint64_t x, uint64_t, size_t) { return icbrt(x); }
+template<typename I, typename std::enable_if_t<std::is_integral<I>::value, bool> = true>
+I cbrtT(I x, I = I(1), size_t = 0) {
+    return (x < 0) ? I(-int64_t(ucbrt(-uint64_t(x)))) : I(ucbrt(x));
+}
 
 /**
  * Tests whether `x` is a cube.
diff --git a/src/algorithm/math/base.cpp b/src/algorithm/math/base.cpp
index e618580..b777bde 100644
--- a/src/algorithm/math/base.cpp
+++ b/src/algorithm/math/base.cpp
@@ -6,6 +6,26 @@
 namespace altruct {
 namespace math {
 
+// integer part of the square & cube root
+
+uint32_t usqrt(uint64_t x) {
+    const uint64_t max_q = 4294967295u; // the root of 2^64 - 1
+    uint64_t q = uint64_t(sqrt(double(x)));
+    if (q > max_q) q = max_q;
+    while (q * q > x) q--;
+    while (q < max_q && (q + 1) * (q + 1) <= x) q++;
+    return uint32_t(q);
+}
+
+uint32_t ucbrt(uint64_t x) {
+    const uint64_t max_q = 2642245u; // the root of 2^64 - 1
+    uint64_t q = uint64_t(cbrt(double(x)));
+    if (q > max_q) q = max_q;
+    while (q * q * q > x) q--;
+    while (q < max_q && (q + 1) * (q + 1) * (q + 1) <= x) q++;
+    return uint32_t(q);
+}
+
 // integer square & square root
 
 int64_t isq(int64_t x) {
@@ -13,19 +33,13 @@ int64_t isq(int64_t x) {
 }
 
 int32_t isqrt(int64_t x) {
-    if (x < 0) return -isqrt(-x);
-    int32_t q = int32_t(floor(sqrt(double(x))));
-    while (isq(q) > x) q--;
-    while (isq(q + 1) <= x) q++;
-    return q;
+    return (x < 0) ? -int32_t(usqrt(-uint64_t(x))) : int32_t(usqrt(x));
 }
 
 int32_t isqrtc(int64_t x) {
     if (x < 0) return -isqrtc(-x);
-    int32_t q = int32_t(ceil(sqrt(double(x))));
-    while (isq(q) < x) q++;
-    while (q > 0 && isq(q - 1) >= x) q--;
-    return q;
+    int32_t q = isqrt(x);
+    return (isq(q) < x) ? q + 1 : q;
 }
 
 // integer cube & cube root
@@ -35,19 +49,13 @@ int64_t icb(int64_t x) {
 }
 
 int32_t icbrt(int64_t x) {
-    if (x < 0) return -icbrt(-x);
-    int32_t q = int32_t(floor(pow(double(x), 1.0 / 3)));
-    while (icb(q) > x) q--;
-    while (icb(q + 1) <= x) q++;
-    return q;
+    return (x < 0) ? -int32_t(ucbrt(-uint64_t(x))) : int32_t(ucbrt(x));
 }
 
 int32_t icbrtc(int64_t x) {
-    if (x < 0) return -icbrtc(-x);
-    int32_t q = int32_t(ceil(pow(double(x), 1.0 / 3)));
-    while (icb(q) < x) q++;
-    while (icb(q - 1) >= x) q--;
-    return q;
+    int32_t q = icbrt(x);
+    if (icb(q) == x) return q;
+    return (x < 0) ? q - 1 : q + 1;
 }
 
 } // math
-- 
2.43.0


From dccad46718de0e0b96c0798d6f65b9e6e0add6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:22 +0000
Subject: [PATCH 28/79] fix: rounding divisions overflowed on operands near the
 limits of the type

---
 include/altruct/algorithm/math/base.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/altruct/algorithm/math/base.h b/include/altruct/algorithm/math/base.h
index 8abfcf1..440abc6 100644
--- a/include/altruct/algorithm/math/base.h
+++ b/include/altruct/algorithm/math/base.h
@@ -353,20 +353,26 @@ bool is_cube(I x) {
  */
 template<typename I>
 I div_floor(I a, I b) {
-    if (b < 0) a = -a, b = -b;
-    return (a < 0) ? I((a + 1) / b - 1) : I(a / b);
+    I q = a / b, r = a % b;
+    return (r != 0 && (r < 0) != (b < 0)) ? I(q - 1) : q;
 }
 
 template<typename I>
 I div_ceil(I a, I b) {
-    if (b < 0) a = -a, b = -b;
-    return (a > 0) ? I((a - 1) / b + 1) : I(a / b);
+    I q = a / b, r = a % b;
+    return (r != 0 && (r < 0) == (b < 0)) ? I(q + 1) : q;
 }
 
 template<typename I>
 I div_round(I a, I b) {
-    if (b < 0) a = -a, b = -b;
-    return (a > 0) ? I((a + b / 2) / b) : I((a - b / 2) / b);
+    I q = a / b, r = a % b;
+    if (r == 0) return q;
+    // `|r| >= |b| - |r|` without leaving the range of `I`
+    if ((r < 0) == (b < 0)) {
+        return ((r < 0) ? (r <= b - r) : (r >= b - r)) ? I(q + 1) : q;
+    } else {
+        return ((r < 0) ? (r <= -(b + r)) : (r >= -(b + r))) ? I(q - 1) : q;
+    }
 }
 
 /**
-- 
2.43.0


From 098c5370370afd34cb56439521e5ba694e7bf458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:44 +0000
Subject: [PATCH 29/79] fix: modulo_normalize recursed endlessly on the least
 value of a signed type

---
 include/altruct/structure/math/modulo.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/modulo.h b/include/altruct/structure/math/modulo.h
index bd6d54d..0b83869 100644
--- a/include/altruct/structure/math/modulo.h
+++ b/include/altruct/structure/math/modulo.h
@@ -132,8 +132,10 @@ I modulo_normalize(U v, I M) {
 }
 template<typename S, typename I, typename std::enable_if_t<std::is_signed<S>::value && std::is_integral<I>::value, bool> = true>
 I modulo_normalize(S v, I M) {
-    if (v < 0) return modulo_neg_int(modulo_normalize(-v, M), M);
-    return modulo_normalize(static_cast<typename std::make_unsigned<S>::type>(v), M);
+    using U = typename std::make_unsigned<S>::type;
+    // negated as unsigned, because the absolute value of the least `S` is not an `S`
+    if (v < 0) return modulo_neg_int(modulo_normalize(static_cast<U>(-static_cast<U>(v)), M), M);
+    return modulo_normalize(static_cast<U>(v), M);
 }
 
 
-- 
2.43.0


From b861f9f5cd67789e652e5eb6eedf2d675deb6099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:14 +0000
Subject: [PATCH 30/79] fix: modular addition of signed integers relied on
 signed overflow

---
 include/altruct/structure/math/modulo.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/altruct/structure/math/modulo.h b/include/altruct/structure/math/modulo.h
index 0b83869..7890516 100644
--- a/include/altruct/structure/math/modulo.h
+++ b/include/altruct/structure/math/modulo.h
@@ -53,9 +53,10 @@ U modulo_add_uint(U x, U y, U M) { // y = M is allowed
 }
 template<typename S>
 S modulo_add_int(S x, S y, S M) { // y = M is allowed
-    // TODO: use add_overflow when MSVC adds intrinsics
-    S r = x + y; bool of = (r < 0);
-    return (!of && r < M) ? r : (r - M);
+    // added as unsigned (which can't overflow), because signed overflow is undefined
+    using U = typename std::make_unsigned<S>::type;
+    U r = U(x) + U(y);
+    return S((r < U(M)) ? r : U(r - U(M)));
 }
 template<typename U, typename std::enable_if_t<std::is_unsigned<U>::value, bool> = true>
 U modulo_add(U x, U y, U M) { return modulo_add_uint(x, y, M); }
-- 
2.43.0


From 6c91444160b8d97d1f19005c3dc5c971ea53fc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:14 +0000
Subject: [PATCH 31/79] fix: modular multiplication truncated long long
 operands to 32 bits

---
 include/altruct/structure/math/modulo.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/modulo.h b/include/altruct/structure/math/modulo.h
index 7890516..d67c13b 100644
--- a/include/altruct/structure/math/modulo.h
+++ b/include/altruct/structure/math/modulo.h
@@ -81,7 +81,10 @@ I modulo_mul_int_long(I x, I y, I M) {
 }
 template<typename U, typename std::enable_if_t<std::is_unsigned<U>::value, bool> = true>
 U modulo_mul(U x, U y, U M) {
-    return (uint32_t(x) * uint32_t(y)) % uint32_t(M);
+    if (sizeof(U) < sizeof(uint32_t)) return U((uint32_t(x) * uint32_t(y)) % uint32_t(M));
+    // `unsigned long` or `unsigned long long`, whichever is not `uint64_t` or `uint32_t`
+    using W = typename std::conditional<(sizeof(U) > sizeof(uint32_t)), uint64_t, uint32_t>::type;
+    return U(modulo_mul<W>(W(x), W(y), W(M)));
 }
 template<> inline uint32_t modulo_mul(uint32_t x, uint32_t y, uint32_t M) {
     return (uint64_t(x) * y) % M;
-- 
2.43.0


From 12fb021f36f7183475a116a61d8fb21af6fcdceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:03 +0000
Subject: [PATCH 32/79] fix: make_ones shifted by the full width of the type

---
 include/altruct/algorithm/math/bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/bits.h b/include/altruct/algorithm/math/bits.h
index 33e798e..3f517c9 100644
--- a/include/altruct/algorithm/math/bits.h
+++ b/include/altruct/algorithm/math/bits.h
@@ -25,7 +25,7 @@ const int bit_size<T>::value;
 /** Makes the bit at the given position. */
 template<typename T> T make_bit(int pos) { return T(1) << pos; }
 /** Makes `cnt` ones in a row. */
-template<typename T> T make_ones(int cnt) { return make_bit<T>(cnt) - 1; }
+template<typename T> T make_ones(int cnt) { return (cnt < bit_size<T>::value) ? make_bit<T>(cnt) - 1 : ~T(0); }
 /** Gets the bit at the given position. */
 template<typename T> T get_bit(T val, int pos) { return (val >> pos) & 1; }
 /** Sets the bit at the given position. */
-- 
2.43.0


From afb7ea2ff1376e776a8ad05bdfdb386df401f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:25 +0000
Subject: [PATCH 33/79] fix: powers, roots and cycle notations of equal
 permutations compared unequal

---
 include/altruct/structure/math/permutation.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/altruct/structure/math/permutation.h b/include/altruct/structure/math/permutation.h
index 3433019..e13d266 100644
--- a/include/altruct/structure/math/permutation.h
+++ b/include/altruct/structure/math/permutation.h
@@ -32,8 +32,8 @@ public:
 
     // identity
     permutation(I n = 0) : n(n) {}
-    // from cycles notation
-    permutation(const cycles_t& cycles, I n) : cycles(cycles), n(n) {}
+    // from cycles notation; brought to the form given by `line_to_cycles` so that equal permutations have equal cycles
+    permutation(const cycles_t& cycles, I n) : permutation(cycles_to_line(cycles, n)) {}
     // from line notation
     permutation(const line_t& line) : cycles(line_to_cycles(line)), n((I)line.size()) {}
     // from transpositions
@@ -116,7 +116,7 @@ public:
         int wrong_parity = (parity >= 0) && (transpositions % 2 != parity);
         if (wrong_parity && parity_len == -1) return permutation(); // root doesn't exist
         // build result
-        permutation result(n);
+        cycles_t result;
         for (I l = 0; l <= n; l++) {
             if (len_to_cycles[l].empty()) continue;
             I m = (I)len_to_cycles[l].size();
@@ -133,10 +133,10 @@ public:
                         c[k + j] = len_to_cycles[l][i + j][h];
                     }
                 }
-                result.cycles.push_back(c);
+                result.push_back(c);
             }
         }
-        return result;
+        return permutation(result, n);
     }
 
     // static methods
-- 
2.43.0


From a9522c4d322164f83b1cc57575064405d5470570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:25 +0000
Subject: [PATCH 34/79] fix: nth_permutation overflowed the factorial for large
 indices

---
 include/altruct/algorithm/math/combinatorics.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/altruct/algorithm/math/combinatorics.h b/include/altruct/algorithm/math/combinatorics.h
index 00fd1b4..34a98ce 100644
--- a/include/altruct/algorithm/math/combinatorics.h
+++ b/include/altruct/algorithm/math/combinatorics.h
@@ -65,15 +65,14 @@ bool next_partition(BidIt begin, BidIt end) {
 template<typename It, typename I>
 void nth_permutation(It begin, It end, I o) {
     auto d = std::distance(begin, end);
-    int i = 0; I f = 1;
-    while (i < d && f <= o) f *= ++i;
-    while (i > 1) {
-        o %= f;
-        while (i > 1 && f > o) f /= i--;
-        It it = end - i - 1;
-        for (int k = int(o / f); k > 0; k--) {
+    int i = 1; I f = 1; // f = (i - 1)!
+    while (i < d && o / f >= I(i)) f *= i++;
+    for (; i > 1; f /= --i) {
+        It it = end - i;
+        for (int k = int(o / f % I(i)); k > 0; k--) {
             std::swap(*(it + k), *(it + k - 1));
         }
+        o %= f;
     }
 }
 
-- 
2.43.0


From 4e07bb20a2c75f2a9d4caa3b9e217ad7fc7b76f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:00 +0000
Subject: [PATCH 35/79] fix: next_partition did not advance over zeros of
 unsigned types

---
 include/altruct/algorithm/math/combinatorics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/combinatorics.h b/include/altruct/algorithm/math/combinatorics.h
index 34a98ce..fead3a8 100644
--- a/include/altruct/algorithm/math/combinatorics.h
+++ b/include/altruct/algorithm/math/combinatorics.h
@@ -44,7 +44,7 @@ bool next_partition(BidIt begin, BidIt end) {
         --it; l = l + 1;
          x += *it;
         I xm = *it - 1;
-        if (xm > 0 && (x - 1) / xm <= (l - 1)) {
+        if (*it > 1 && (x - 1) / xm <= (l - 1)) {
             for (; x > xm; x -= xm) {
                 *it++ = xm;
             }
-- 
2.43.0


From 962f08ef38109255ce9f22c1c1807e32b90de284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:13 +0000
Subject: [PATCH 36/79] fix: next_combination skipped combinations of equal
 elements

---
 .../altruct/algorithm/math/combinatorics.h    | 30 +++++++++----------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/include/altruct/algorithm/math/combinatorics.h b/include/altruct/algorithm/math/combinatorics.h
index fead3a8..d438021 100644
--- a/include/altruct/algorithm/math/combinatorics.h
+++ b/include/altruct/algorithm/math/combinatorics.h
@@ -12,24 +12,22 @@ namespace math {
  */
 template<typename BidIt>
 bool next_combination(BidIt begin, BidIt mid, BidIt end) {
-    BidIt rd, wr;
-    for (BidIt cur = mid; cur != begin;) {
-        for (BidIt cmp = wr = --cur; wr != mid; cmp = wr, ++wr) {
-            for (rd = wr; rd != end && !(*cmp < *rd); ++rd);
-            if (rd != end) {
-                std::swap(*wr, *rd);
-                // bubble(wr, rd, end)
-                for (BidIt next = rd; --next, next != wr && *rd < *next; rd = next) std::swap(*next, *rd);
-                for (BidIt next = rd; ++next, next != end && *next < *rd; rd = next) std::swap(*next, *rd);
-            } else {
-                ++cmp;
-                // merge(cur, cmp, end)
-                std::sort(cur, end);
-                break;
-            }
+    if (begin == mid || mid == end) return false;
+    BidIt last = end; --last;
+    for (BidIt wr = mid; wr != begin;) {
+        if (*--wr < *last) {
+            // the smallest of the rest that is greater, followed by the next ones in order
+            BidIt rd = mid;
+            while (!(*wr < *rd)) ++rd;
+            std::iter_swap(wr, rd);
+            std::rotate(++wr, ++rd, end);
+            // what didn't fit ends at `end`, and belongs after the smaller ones
+            for (wr = mid; rd != end; ++rd) ++wr;
+            std::rotate(mid, wr, end);
+            return true;
         }
-        if (wr == mid) return true;
     }
+    std::rotate(begin, mid, end);
     return false;
 }
 
-- 
2.43.0


From 521d1b9c3332544237fdb15f39458aaccc9ec99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:05 +0000
Subject: [PATCH 37/79] fix: permutation roots of the wrong parity were
 returned for unsigned index types

---
 include/altruct/structure/math/permutation.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/permutation.h b/include/altruct/structure/math/permutation.h
index e13d266..0a025d6 100644
--- a/include/altruct/structure/math/permutation.h
+++ b/include/altruct/structure/math/permutation.h
@@ -102,7 +102,7 @@ public:
         std::vector<cycles_t> len_to_cycles(n + 1);
         for (const auto& c : vc) len_to_cycles[c.size()].push_back(c);
         // calc min number of transpositions, and parity changing length
-        I parity_len = -1;
+        I parity_len = 0; // none
         I transpositions = 0;
         for (I l = 0; l <= n; l++) {
             if (len_to_cycles[l].empty()) continue;
@@ -114,7 +114,7 @@ public:
             transpositions += I((L - 1) * (m / g));
         }
         int wrong_parity = (parity >= 0) && (transpositions % 2 != parity);
-        if (wrong_parity && parity_len == -1) return permutation(); // root doesn't exist
+        if (wrong_parity && parity_len == 0) return permutation(); // root doesn't exist
         // build result
         cycles_t result;
         for (I l = 0; l <= n; l++) {
-- 
2.43.0


From 230eabefbb8997b24445a6c8c2e8300f72376d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:07 +0000
Subject: [PATCH 38/79] fix: polynomials modulo M > 2^32 were multiplied with
 truncated coefficients

---
 include/altruct/algorithm/math/polynom_mod.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/polynom_mod.h b/include/altruct/algorithm/math/polynom_mod.h
index 94140d0..ae21385 100644
--- a/include/altruct/algorithm/math/polynom_mod.h
+++ b/include/altruct/algorithm/math/polynom_mod.h
@@ -194,7 +194,7 @@ struct polynom_mul<modulo<I, ID, STORAGE_TYPE>, std::enable_if_t<std::is_integra
     static void impl(mod* pr, int lr, const mod* p1, int l1, const mod* p2, int l2) {
         if (l2 < 48) { // LONG_THRESHOLD
             polynom<mod>::_mul_long(pr, lr, p1, l1, p2, l2);
-        } else if (l2 < 100 || l1 < 450 || cost_karatsuba(l1, l2) < cost_fft(l1, l2)) {
+        } else if (l2 < 100 || l1 < 450 || cost_karatsuba(l1, l2) < cost_fft(l1, l2) || uint64_t(p1->M()) >> 32 != 0) {
             polynom<mod>::_mul_karatsuba(pr, lr, p1, l1, p2, l2);
         } else if (l1 + l2 <= 100000) {
             _mul_fft(pr, lr, p1, l1, p2, l2);
-- 
2.43.0


From 5a7ea1315287de5568d50d00ff4924553ff52e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:50 +0000
Subject: [PATCH 39/79] fix: shifting a series by N or more places read out of
 bounds

---
 include/altruct/structure/math/series.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/altruct/structure/math/series.h b/include/altruct/structure/math/series.h
index 19aff45..94717f9 100644
--- a/include/altruct/structure/math/series.h
+++ b/include/altruct/structure/math/series.h
@@ -140,15 +140,11 @@ public:
 
     // s(x)*x^l - shifts coefficients of s(x) by l places
     series shift(int l) const {
-        if (l < 0) {
-            polynom<T> t(p.c.begin() - l, p.c.end());
-            t.c.insert(t.c.end(), -l, p.ZERO_COEFF);
-            return series(t, this->N());
-        } else {
-            polynom<T> t(p.c.begin(), p.c.end() - l);
-            t.c.insert(t.c.begin(), l, p.ZERO_COEFF);
-            return series(t, this->N());
+        series s(polynom<T>{ p.ZERO_COEFF }, this->N());
+        for (int i = std::max(0, l); i < this->N() && i - l < this->N(); i++) {
+            s[i] = p[i - l];
         }
+        return s;
     }
 
     // s(x*a)
-- 
2.43.0


From 80f1382867ba3518e1debc15336a8d113e4155b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:50 +0000
Subject: [PATCH 40/79] fix: large powers of the zero series and of multiples
 of x recursed forever or overflowed

---
 include/altruct/structure/math/series.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/series.h b/include/altruct/structure/math/series.h
index 94717f9..d6304d6 100644
--- a/include/altruct/structure/math/series.h
+++ b/include/altruct/structure/math/series.h
@@ -320,7 +320,8 @@ public:
             return powT(*this, a);
         } else if (p[0] == p.ZERO_COEFF) {
             int l = p.lowest();
-            return shift(-p.lowest()).pow(a).shift(p.lowest() * int(a));
+            if (a > 0 && (p[l] == p.ZERO_COEFF || l > (this->N() - 1) / a)) return zeroOf(*this);
+            return shift(-l).pow(a).shift(l * int(a));
         } else if (p[0] == id_coeff()) {
             return (ln() * castOf(p[0], a)).exp();
         } else {
-- 
2.43.0


From ea0c90049232131db6605713eeb9726a6a9e2594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:28 +0000
Subject: [PATCH 41/79] fix: matrix rank was wrong for singular matrices with a
 skipped column

---
 include/altruct/structure/math/matrix.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/altruct/structure/math/matrix.h b/include/altruct/structure/math/matrix.h
index d4d2422..26ce173 100644
--- a/include/altruct/structure/math/matrix.h
+++ b/include/altruct/structure/math/matrix.h
@@ -173,26 +173,26 @@ public:
                 det = e0;
                 continue;
             }
-            rank++;
+            int r = rank++;
             // rows transposition
-            if (i != j) {
-                std::swap(mat.a[i], mat.a[j]);
-                std::swap(inv.a[i], inv.a[j]);
+            if (i != r) {
+                std::swap(mat.a[i], mat.a[r]);
+                std::swap(inv.a[i], inv.a[r]);
                 det = -det;
             }
             // normalize row
-            T pi = e1 / mat.a[j][j];
-            det *= mat.a[j][j];
+            T pi = e1 / mat.a[r][j];
+            det *= mat.a[r][j];
             for (k = 0; k < n; k++) {
-                mat.a[j][k] *= pi;
-                inv.a[j][k] *= pi;
+                mat.a[r][k] *= pi;
+                inv.a[r][k] *= pi;
             }
             // eliminate below
             for (i = rank; i < n; i++) {
                 T p = mat.a[i][j]; if (p == e0) continue;
                 for (k = 0; k < n; k++) {
-                    mat.a[i][k] -= mat.a[j][k] * p;
-                    inv.a[i][k] -= inv.a[j][k] * p;
+                    mat.a[i][k] -= mat.a[r][k] * p;
+                    inv.a[i][k] -= inv.a[r][k] * p;
                 }
             }
         }
-- 
2.43.0


From d8950ea2ea9f5070b3f2e5413ddc676415dc074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:28 +0000
Subject: [PATCH 42/79] fix: scaling a matrix by one of its own elements used
 the already scaled value

---
 include/altruct/structure/math/matrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/matrix.h b/include/altruct/structure/math/matrix.h
index 26ce173..f80e833 100644
--- a/include/altruct/structure/math/matrix.h
+++ b/include/altruct/structure/math/matrix.h
@@ -117,7 +117,8 @@ public:
         return matrix(*this) *= rhs;
     }
 
-    matrix& operator *= (const T& s) {
+    matrix& operator *= (const T& s0) {
+        T s = s0; // may be an element of this matrix
         int n = rows(), m = cols();
         for (int i = 0; i < n; i++) {
             for (int j = 0; j < m; j++) {
@@ -137,7 +138,8 @@ public:
         return matrix(*this) *= rhs.inverse();
     }
 
-    matrix& operator /= (const T& s) {
+    matrix& operator /= (const T& s0) {
+        T s = s0; // may be an element of this matrix
         int n = rows(), m = cols();
         for (int i = 0; i < n; i++) {
             for (int j = 0; j < m; j++) {
-- 
2.43.0


From 87b5801db7ba959c15efd002949486ca0a94f386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:28 +0000
Subject: [PATCH 43/79] fix: scaling a polynomial by one of its own
 coefficients used the already scaled value

---
 include/altruct/structure/math/polynom.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/polynom.h b/include/altruct/structure/math/polynom.h
index 3d4b5ed..22aa76f 100644
--- a/include/altruct/structure/math/polynom.h
+++ b/include/altruct/structure/math/polynom.h
@@ -274,7 +274,8 @@ public:
 
     // pr = p1 * s; O(l1)
     // it is allowed for `p1` and `pr` to be the same instance
-    static void mul(polynom &pr, const polynom &p1, const T &s) {
+    static void mul(polynom &pr, const polynom &p1, const T &s0) {
+        T s = s0; // may be a coefficient of `pr`
         int lr = p1.deg();
         pr.resize(lr + 1, p1.ZERO_COEFF);
         for (int i = 0; i <= lr; i++) {
@@ -284,7 +285,8 @@ public:
 
     // pr = p1 / s; O(l1)
     // it is allowed for `p1` and `pr` to be the same instance
-    static void div(polynom &pr, const polynom &p1, const T &s) {
+    static void div(polynom &pr, const polynom &p1, const T &s0) {
+        T s = s0; // may be a coefficient of `pr`
         int lr = p1.deg();
         pr.resize(lr + 1, p1.ZERO_COEFF);
         for (int i = 0; i <= lr; i++) {
-- 
2.43.0


From 824a2052569a60e38a175d6db2fee6a2e57e9342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:42 +0000
Subject: [PATCH 44/79] fix: scale a quadratic by one of its own components
 correctly

---
 include/altruct/structure/math/quadratic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/structure/math/quadratic.h b/include/altruct/structure/math/quadratic.h
index 2f49b94..4c6c726 100644
--- a/include/altruct/structure/math/quadratic.h
+++ b/include/altruct/structure/math/quadratic.h
@@ -81,8 +81,8 @@ public:
     quadratic& operator /= (const quadratic& rhs) { return *this = *this * rhs.conjugate() / rhs.norm(); }
     quadratic& operator %= (const quadratic& rhs) { return *this = *this - rhs * (*this / rhs); }
 
-    quadratic& operator *= (const T& rhs) { a *= rhs; b *= rhs; return *this; }
-    quadratic& operator /= (const T& rhs) { a /= rhs; b /= rhs; return *this; }
+    quadratic& operator *= (const T& rhs) { T r = rhs; a *= r; b *= r; return *this; }
+    quadratic& operator /= (const T& rhs) { T r = rhs; a /= r; b /= r; return *this; }
 
     quadratic conjugate() const { return quadratic(a, -b, this->D()); }
     T norm() const { return a * a - b * b * this->D(); }
-- 
2.43.0


From f2b29d7a9f4fcee5b734a0685de5d37bdda40a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:42 +0000
Subject: [PATCH 45/79] fix: keep the negation of infinity infinite

---
 include/altruct/structure/math/with_infinity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/with_infinity.h b/include/altruct/structure/math/with_infinity.h
index 4a3f38b..70ca98a 100644
--- a/include/altruct/structure/math/with_infinity.h
+++ b/include/altruct/structure/math/with_infinity.h
@@ -47,7 +47,7 @@ public:
 
     with_infinity  operator +  (const with_infinity &rhs) const { with_infinity t(*this); t += rhs; return t; }
     with_infinity  operator -  (const with_infinity &rhs) const { with_infinity t(*this); t -= rhs; return t; }
-    with_infinity  operator -  ()                         const { with_infinity t(-v);              return t; }
+    with_infinity  operator -  ()                         const { with_infinity t(-v, is_inf);      return t; }
     with_infinity  operator *  (const with_infinity &rhs) const { with_infinity t(*this); t *= rhs; return t; }
     with_infinity  operator /  (const with_infinity &rhs) const { with_infinity t(*this); t /= rhs; return t; }
     with_infinity  operator %  (const with_infinity &rhs) const { with_infinity t(*this); t %= rhs; return t; }
-- 
2.43.0


From 4873bd789c3e22451bd416c6bfcf7d35ad67b0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:20 +0000
Subject: [PATCH 46/79] fix: sqrt_mod overflowed on prime powers above the
 square root of the type's range, and compiled for int only

---
 include/altruct/algorithm/math/modulos.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/math/modulos.h b/include/altruct/algorithm/math/modulos.h
index 2ccf959..16fc5a8 100644
--- a/include/altruct/algorithm/math/modulos.h
+++ b/include/altruct/algorithm/math/modulos.h
@@ -192,7 +192,7 @@ std::vector<I> sqrt_mod(I y, const std::vector<std::pair<P, int>>& vf) {
     I m = 1;
     std::unordered_set<I> sr{ 0 };
     auto add = [&](std::unordered_set<I>& sr0, I x, I q) {
-        if ((x * x - y) % q != 0) return;
+        if (modulo_mul(x, x, q) != modulo_normalize(y, q)) return;
         for (I r0 : sr0) {
             sr.insert(chinese_remainder(r0, m, x, q));
             sr.insert(chinese_remainder(r0, m, modulo_neg(x, q), q));
@@ -203,12 +203,12 @@ std::vector<I> sqrt_mod(I y, const std::vector<std::pair<P, int>>& vf) {
         sr0.swap(sr);
         I q = powT<I>(f.first, f.second);
         if (f.first == 2) {
-            auto x = sqrt_hensel_lift_p2(y, f.second);
+            auto x = sqrt_hensel_lift_p2<I>(y, f.second);
             add(sr0, x.first, q);
             add(sr0, x.second, q);
         }
         else {
-            auto x = sqrt_hensel_lift(y, f.first, f.second);
+            auto x = sqrt_hensel_lift<I>(y, f.first, f.second);
             add(sr0, x, q);
         }
         m *= q;
-- 
2.43.0


From 8f8d66e21f0fa8cde84678f8efd367201f3d2a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:20 +0000
Subject: [PATCH 47/79] fix: chinese_remainder of an unsigned type missed
 solutions when a1 > a2

---
 include/altruct/algorithm/math/modulos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/modulos.h b/include/altruct/algorithm/math/modulos.h
index 16fc5a8..ba0f290 100644
--- a/include/altruct/algorithm/math/modulos.h
+++ b/include/altruct/algorithm/math/modulos.h
@@ -28,7 +28,7 @@ template<typename T>
 void chinese_remainder(T* a, T* n, T a1, T n1, T a2, T n2) {
     T e0 = zeroT<T>::of(*a);
     T ni1, ni2; T g = modulo_gcd_ex(n1, n2, ni1, ni2);
-    if ((a2 - a1) % g != e0) { *n = e0, *a = e0; return; }
+    if (a1 % g != a2 % g) { *n = e0, *a = e0; return; }
     T t1 = modulo_mul(a1, ni2, n1);
     T t2 = modulo_mul(a2, ni1, n2);
     n1 /= g; n2 /= g; *n = n1 * n2 * g;
-- 
2.43.0


From 0b60707f2b673350adea4fc30957f7a581e16f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:20 +0000
Subject: [PATCH 48/79] fix: garner used residues and moduli unreduced, so
 decreasing moduli gave wrong digits

---
 include/altruct/algorithm/math/modulos.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/modulos.h b/include/altruct/algorithm/math/modulos.h
index ba0f290..3c81be6 100644
--- a/include/altruct/algorithm/math/modulos.h
+++ b/include/altruct/algorithm/math/modulos.h
@@ -61,8 +61,8 @@ V garner(const V& vap) {
     for (int i = 0; i < vx.size(); i++) {
         auto y = vap[i];
         for (int j = 0; j < i; j++) {
-            y -= vx[j];
-            y /= vap[j].M();
+            y -= castOf(y, vx[j].v);
+            y /= castOf(y, vap[j].M());
         }
         vx[i] = y;
     }
-- 
2.43.0


From 562080199d915f65d57393e55d12a4b9a947c275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:20 +0000
Subject: [PATCH 49/79] fix: jacobi symbol of a negative number

---
 include/altruct/algorithm/math/modulos.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/altruct/algorithm/math/modulos.h b/include/altruct/algorithm/math/modulos.h
index 3c81be6..3ce3177 100644
--- a/include/altruct/algorithm/math/modulos.h
+++ b/include/altruct/algorithm/math/modulos.h
@@ -88,6 +88,7 @@ int jacobi(I n, I m) {
     for (;;) {
         if (m == 1) return j;
         n %= m;
+        if (n < 0) n += m;
         if (n == 0) return 0;
         for (e = 0; (n % 2) == 0; e++) n /= 2;
         if ((e % 2) == 1 && (m % 8) == 3) j = -j;
-- 
2.43.0


From 3460aaf7dbad203eb54ca84e09d3029f45ea358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:20 +0000
Subject: [PATCH 50/79] fix: sqrt_cipolla overflowed for the modulus 2^31-1

---
 include/altruct/algorithm/math/modulos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/modulos.h b/include/altruct/algorithm/math/modulos.h
index 3ce3177..575d2f0 100644
--- a/include/altruct/algorithm/math/modulos.h
+++ b/include/altruct/algorithm/math/modulos.h
@@ -114,7 +114,7 @@ M sqrt_cipolla(const M& y) {
         a += e1, d = a * a - y;
     } while (powT(d, (y.M() - 1) / 2) == 1); // jacobi(d, p) == 1
     // r = (a + sqrt(d)) ^ ((p + 1) / 2)
-    return powT(quadraticX<M>(a, e1, d), (y.M() + 1) / 2).a;
+    return powT(quadraticX<M>(a, e1, d), y.M() / 2 + 1).a;
 }
 
 /**
-- 
2.43.0


From 0dd155d3a17910f8a4cb640700247567ac72e6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:20 +0000
Subject: [PATCH 51/79] fix: sqrt_hensel_lift_p2 reported no roots for negative
 representatives

---
 include/altruct/algorithm/math/modulos.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/altruct/algorithm/math/modulos.h b/include/altruct/algorithm/math/modulos.h
index 575d2f0..576749e 100644
--- a/include/altruct/algorithm/math/modulos.h
+++ b/include/altruct/algorithm/math/modulos.h
@@ -137,11 +137,12 @@ I sqrt_cipolla(const I& y, const I& p) {
 template <typename I>
 std::pair<I, I> sqrt_hensel_lift_p2(const I& y, I k) {
     typedef moduloX<I> modx;
-    if (y % 2 != 1) return { 0, 0 };
+    I y8 = modulo_normalize(y, I(8));
+    if (y8 % 2 != 1) return { 0, 0 };
     if (k == 1) return { 1, 1 };
-    if (y % 4 != 1) return { 0, 0 };
+    if (y8 % 4 != 1) return { 0, 0 };
     if (k == 2) return { 1, 1 };
-    if (y % 8 != 1) return { 0, 0 };
+    if (y8 % 8 != 1) return { 0, 0 };
     I s[2] = { 1, 3 };
     I w2 = 4;
     for (int i = 4; i <= k; i++) {
-- 
2.43.0


From 9d1984165a4eacddf9a64358c8f8752b59252940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:50 +0000
Subject: [PATCH 52/79] fix: primes wrote, and prime_pi read, one past the
 prime array

---
 src/algorithm/math/primes.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/algorithm/math/primes.cpp b/src/algorithm/math/primes.cpp
index d3776ed..9f0918a 100644
--- a/src/algorithm/math/primes.cpp
+++ b/src/algorithm/math/primes.cpp
@@ -28,13 +28,12 @@ int primes(int *p, char *q, int n) {
         for (int j = i * i; j < n; j += i)
             q[j] = 0;
     }
-    if (p) p[m] = 0;
     return m;
 }
 
 void prime_pi(int *pi, int n, const int *p, int m) {
     for (int i = 0, l = 0; i < n; i++) {
-        if (i == p[l]) l++;
+        if (l < m && i == p[l]) l++;
         pi[i] = l;
     }
 }
-- 
2.43.0


From e962826b84e700431664672fc1d0fa43d7931fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:50 +0000
Subject: [PATCH 53/79] fix: sieves wrote outside their arrays for the bounds 0
 and 1

---
 src/algorithm/math/primes.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/algorithm/math/primes.cpp b/src/algorithm/math/primes.cpp
index 9f0918a..ba6d9f6 100644
--- a/src/algorithm/math/primes.cpp
+++ b/src/algorithm/math/primes.cpp
@@ -47,7 +47,7 @@ void euler_phi(int *phi, int n, const int *p, int m) {
 }
 
 void moebius_mu(int *mu, int n, const int* p, int m) {
-    mu[0] = 0;
+    if (n > 0) mu[0] = 0;
     for (int i = 1; i < n; i++)
         mu[i] = 1;
     for (int i = 2; i * i < n; i++) {
@@ -76,8 +76,8 @@ void prime_nu(int *nu, int n, const int* p, int m) {
 
 void segmented_q(char* q, int64_t b, int64_t e, const int *p, int m) {
     char* _q = q - b;
-    if (b == 0) _q[b++] = 0;
-    if (b == 1) _q[b++] = 0;
+    if (b == 0 && b < e) _q[b++] = 0;
+    if (b == 1 && b < e) _q[b++] = 0;
     for (int64_t a = b; a < e; a++)
         _q[a] = 1;
     for (int i = 0; i < m; i++) {
@@ -90,7 +90,7 @@ void segmented_q(char* q, int64_t b, int64_t e, const int *p, int m) {
 
 void segmented_phi(int64_t *phi, int64_t *tmp, int64_t b, int64_t e, const int *p, int m) {
     int64_t *_phi = phi - b, *_tmp = tmp - b;
-    if (b == 0) _phi[b++] = 0;
+    if (b == 0 && b < e) _phi[b++] = 0;
     for (int64_t q = b; q < e; q++)
         _phi[q] = 1, _tmp[q] = q;
     for (int i = 0; i < m; i++) {
@@ -107,7 +107,7 @@ void segmented_phi(int64_t *phi, int64_t *tmp, int64_t b, int64_t e, const int *
 
 void segmented_mu(int64_t *mu, int64_t b, int64_t e, const int *p, int m) {
     int64_t *_mu = mu - b;
-    if (b == 0) _mu[b++] = 0;
+    if (b == 0 && b < e) _mu[b++] = 0;
     for (int64_t q = b; q < e; q++)
         _mu[q] = 1;
     for (int i = 0; i < m; i++) {
@@ -157,7 +157,7 @@ void smallest_factor(int* spf, size_t n) {
             spf[j] = 1;
         }
     }
-    for (size_t i = n - 1; i >= 2; i--) {
+    for (size_t i = n; i-- > 2;) {
         if (spf[i] || i > n / i) continue;
         for (size_t j = i * i; j < n; j += i) {
             spf[j] = (int)i;
@@ -166,7 +166,8 @@ void smallest_factor(int* spf, size_t n) {
 }
 
 void factor(int *bpf, int n, const int *p, int m) {
-    bpf[0] = 0, bpf[1] = 1;
+    if (n > 0) bpf[0] = 0;
+    if (n > 1) bpf[1] = 1;
     for (int i = 0; i < m; i++)
         for (int j = p[i]; j < n; j += p[i])
             bpf[j] = p[i];
-- 
2.43.0


From cff7a18e06889f00e9e50a8423bfee20e7bfa092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:50 +0000
Subject: [PATCH 54/79] fix: miller_rabin took 3825123056546413051 = 149491 *
 747451 * 34233211 for a prime

---
 include/altruct/algorithm/math/factorization.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/factorization.h b/include/altruct/algorithm/math/factorization.h
index 3f8952c..9aceecb 100644
--- a/include/altruct/algorithm/math/factorization.h
+++ b/include/altruct/algorithm/math/factorization.h
@@ -66,8 +66,9 @@ bool miller_rabin(const T& n) {
     // 10^18, 2^61
     static T bases9[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 0 };
     if (n < 3825123056546413051LL) return miller_rabin(n, bases9);
-    // fallback to bases9 for larger numbers too
-    return miller_rabin(n, bases9);
+    // 10^24, 2^78
+    static T bases12[] = { 2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 0 };
+    return miller_rabin(n, bases12);
 }
 
 /**
-- 
2.43.0


From 06d747ef6a52bda528d03ae28a2b678e18d51aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 55/79] fix: sum_pow used the Bernoulli numbers of another
 modulus

The cache is per type, but moduloX carries its modulus at run time: after
sum_pow or prime_power_sum_sqrt modulo 101, the same modulo 1009 gave wrong sums.
---
 include/altruct/algorithm/math/prime_counting.h | 5 +++--
 include/altruct/algorithm/math/sums.h           | 8 ++------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/altruct/algorithm/math/prime_counting.h b/include/altruct/algorithm/math/prime_counting.h
index 20a31d1..44365c6 100644
--- a/include/altruct/algorithm/math/prime_counting.h
+++ b/include/altruct/algorithm/math/prime_counting.h
@@ -23,12 +23,13 @@ container::sqrt_map<I, T> prime_power_sum_sqrt(int z, I n, T id) {
     // s[i] = Sum[k^z, {2 <= k <= i, SmallestPrimeFactorOf[k] > p[j] || IsPrime[k]}]
     I q = sqrtT(n) + 1;
     container::sqrt_map<I, T> s(q - 1, n);
+    auto B = (z > 3) ? bernoulli_b<T>(z, id) : std::vector<T>{ id };
     for (I i = 1; i < q; i++) {
-        s[i] = sum_pow(z, i, id) - id;
+        s[i] = sum_pow(z, i, B) - id;
     }
     for (I k = n / q; k >= 1; k--) {
         I i = n / k;
-        s[i] = sum_pow(z, i, id) - id;
+        s[i] = sum_pow(z, i, B) - id;
     }
     for (I p = 2; p < q; p++) {
         if (s[p - 1] == s[p]) continue;
diff --git a/include/altruct/algorithm/math/sums.h b/include/altruct/algorithm/math/sums.h
index 187ac4e..825697f 100644
--- a/include/altruct/algorithm/math/sums.h
+++ b/include/altruct/algorithm/math/sums.h
@@ -85,12 +85,8 @@ T sum_pow(int p, I N, const std::vector<T>& B) {
  */
 template<typename T, typename I>
 T sum_pow(int p, I n, T id = T(1)) {
-    static std::vector<T> B;
-    if (B.size() < p + 1) {
-        int sz = (int)(B.size() + B.size() / 2);
-        B = bernoulli_b<T>(std::max(p, sz), id);
-    }
-    return sum_pow(p, n, B);
+    // the numbers can't be cached per type as `id` may carry a modulus
+    return sum_pow(p, n, (p > 3) ? bernoulli_b<T>(p, id) : std::vector<T>{ id });
 }
 
 /**
-- 
2.43.0


From 147b4b67f7eac91c737bda940718c39f4ff65c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 56/79] fix: multiplicative Dirichlet divisions ignored g(1)

Only the quotient needs to be multiplicative, g(1) may be any unit, e.g.
f = 2 phi and g = 2 mu: h(p) came out as f(p) - 2 g(p) / 2 without the division.
---
 include/altruct/algorithm/math/divisor_sums.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index a93a1a2..71c528e 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -215,6 +215,7 @@ template<typename F1, typename F2, typename TBL>
 void dirichlet_division_multiplicative(TBL& h, F1 f, F2 g, int n, int* pa, int m) {
     auto e1 = identityOf(castOf(h[0], f(1))), e0 = zeroOf(e1); // TODO: pass via argument?
     typedef decltype(e0) T;
+    auto ig1 = e1 / castOf(e1, g(1));
     for (int i = 1; i < n; i++) {
         h[i] = e1;
     }
@@ -231,6 +232,7 @@ void dirichlet_division_multiplicative(TBL& h, F1 f, F2 g, int n, int* pa, int m
             for (int j = 0; j < k; j++) {
                 hq[k] -= gq[k - j] * hq[j];
             }
+            hq[k] *= ig1;
             h[q[k]] = hq[k];
         }
     }
@@ -330,11 +332,12 @@ void dirichlet_convolution_completely_multiplicative(TBL& h, F1 f, F2 g, int n,
 template<typename F1, typename F2, typename TBL>
 void dirichlet_division_completely_multiplicative(TBL& h, F1 f, F2 g, int n, int* pf) {
     auto e1 = identityOf(castOf(h[0], f(1))); // TODO: pass via argument?
+    auto ig1 = e1 / castOf(e1, g(1));
     for (int i = 1; i < n; i++) {
         h[i] = e1;
     }
     for (int p = 2; p < n; p++) {
-        if (pf[p] == p) h[p] = castOf(e1, f(p)) - castOf(e1, g(p));
+        if (pf[p] == p) h[p] = (castOf(e1, f(p)) - castOf(e1, g(p))) * ig1;
     }
     calc_completely_multiplicative(h, n, pf);
 }
-- 
2.43.0


From d6299e59a8cd3bf00a8e7e4ce06d036ec4eced8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 57/79] fix: sieve_m read M[0], and accessed M[1] for the bound
 1

The multiplicative variant added the caller's M[0] to every value; with the
(exclusive) bound 1 the table has no M[1].
---
 include/altruct/algorithm/math/divisor_sums.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index 71c528e..1b970a9 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -441,9 +441,10 @@ void moebius_transform_completely_multiplicative(TBL& g, F f, int n, int* pf) {
  */
 template<typename F1, typename F2, typename TBL>
 void sieve_m_multiplicative_inv(TBL& M, F1 t, F2 p_inv, int n, int* pa, int m) {
+    if (n < 2) return;
     auto dt = [&](int n){ return (n == 1) ? t(n) : t(n) - t(n - 1); };
     dirichlet_convolution_multiplicative(M, p_inv, dt, n, pa, m);
-    for (int i = 1; i < n; i++) M[i] += M[i - 1];
+    for (int i = 2; i < n; i++) M[i] += M[i - 1];
 }
 template<typename F1, typename F2, typename TBL>
 void sieve_m_multiplicative(TBL& M, F1 t, F2 p, int n, int* pa, int m) {
@@ -490,6 +491,7 @@ altruct::container::sqrt_map<I, T> make_sqrt_map(F f, I n) {
  */
 template<typename F1, typename F2, typename TBL>
 void sieve_m(TBL& M, F1 t, F2 p, int n) {
+    if (n < 2) return;
     auto e1 = identityOf(castOf(M[0], p(1))); // TODO: pass via argument?
     auto ip1 = e1 / castOf(e1, p(1));
     M[1] = castOf(e1, t(1));
@@ -520,6 +522,7 @@ void sieve_m(TBL& M, F1 t, F2 p, int n) {
  */
 template<typename F1, typename TBL>
 void sieve_m(TBL& M, F1 t, int n) {
+    if (n < 2) return;
     auto e1 = identityOf(castOf(M[0], t(1))); // TODO: pass via argument?
     M[1] = castOf(e1, t(1));
     for (int i = 2; i < n; i++) {
-- 
2.43.0


From a4ce3b1e06b6d56405910844743d176c33dff9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 58/79] fix: sum_multiplicative read outside the prime table
 for n < 4, and was wrong for n = 8

There are no primes up to sqrt(n) for n < 4; for n = 8 the only one, 2, is not
above the cube root, so f(8) was left out.
---
 include/altruct/algorithm/math/divisor_sums.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/altruct/algorithm/math/divisor_sums.h b/include/altruct/algorithm/math/divisor_sums.h
index 1b970a9..4d1d17e 100644
--- a/include/altruct/algorithm/math/divisor_sums.h
+++ b/include/altruct/algorithm/math/divisor_sums.h
@@ -970,7 +970,7 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
     int c = icbrt(n);   // n^(1/3)
     int d = c;          // ~ n^(1/3)
     int64_t nd = n / d; // ~ n^(2/3)
-    int h = int(nd / pa1[psz]) + 1; // h <= n^(1/6)
+    int h = psz ? int(nd / pa1[psz]) + 1 : 1; // h <= n^(1/6)
     int nq = int(n / (q + 1));      // ~ n^(1/2)
     int tsz = q + 1 + nq;           // ~ n^(1/2) * 2
 
@@ -990,8 +990,8 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
 
     // step 2: calculate F_k for k = pi(n^(1/3)) + 1; O(n^(2/3) / log(n))
     {
-        int k; for (k = 1; k < psz && pa1[k] <= c; k++);
-        int p_k = pa1[k];
+        int k; for (k = 1; k <= psz && pa1[k] <= c; k++);
+        int p_k = (k <= psz) ? pa1[k] : q + 1; // no more primes up to n^(1/2)
         int64_t p_k2 = isq(p_k);
         // m < p_k; only 1 is included in the sum
         F_k[0] = zero;
@@ -1000,7 +1000,7 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
         }
         // p_k <= m < p_k^2; also includes primes >= p_k in the sum
         T b = id - F_prime[p_k - 1];
-        for (int64_t m = pa1[k]; m <= q; m++) {
+        for (int64_t m = p_k; m <= q; m++) {
             F_k[m] = b + F_prime[m];
         }
         for (int i = nq; i >= 1; i--) {
@@ -1035,7 +1035,7 @@ altruct::container::sqrt_map<int64_t, T> sum_multiplicative(const S1& s1, const
         for (int64_t m = 1; m <= q; m++) Ft.add(m, F_k[m]), Ft.add(m + 1, -F_k[m]);
         for (int i = nq; i > d; i--) Ft.add(tsz - i, F_k[n / i]), Ft.add(tsz - i + 1, -F_k[n / i]);
         // main loop
-        for (int k = last_k - 1; pa1[k] > h; k--) {
+        for (int k = last_k - 1; k >= 1 && pa1[k] > h; k--) {
             int p_k = pa1[k];
             // m >= nd; compute directly
             F_k1.swap(F_k);
-- 
2.43.0


From f063e4156fecaa839ccaf8c133b9b1829838680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:02 +0000
Subject: [PATCH 59/79] fix: mertens_even truncated its argument to int

For n whose low 32 bits are not above 1 as an int, e.g. 2^32, the result was wrong.
---
 include/altruct/algorithm/math/mertens.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/mertens.h b/include/altruct/algorithm/math/mertens.h
index 135b6b2..f84bc94 100644
--- a/include/altruct/algorithm/math/mertens.h
+++ b/include/altruct/algorithm/math/mertens.h
@@ -145,7 +145,7 @@ altruct::container::sqrt_map<int64_t, T> mertens_odd(int64_t n, PI_TBL& pi_tbl,
 template<typename T, typename I, typename TBL>
 T mertens_even(I n, TBL& tbl, T id = T(1)) {
     auto zero = zeroOf(id);
-    auto t = [&](int k) { return (k > 1) ? -id : zero; };
+    auto t = [&](I k) { return (k > 1) ? -id : zero; };
     auto s = [&](I k) { return castOf<T>(id, (k + 1) / 2); };
     return sum_m<T>(t, s, n, tbl, id);
 }
-- 
2.43.0


From 8bf70356e6cd7edbebadfadb8c134ff8c535c807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:09 +0000
Subject: [PATCH 60/79] fix: make_inverses wrote to the end iterator of an
 empty range

---
 include/altruct/algorithm/math/ranges.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/altruct/algorithm/math/ranges.h b/include/altruct/algorithm/math/ranges.h
index c0937be..b176e94 100644
--- a/include/altruct/algorithm/math/ranges.h
+++ b/include/altruct/algorithm/math/ranges.h
@@ -98,6 +98,7 @@ std::vector<T> make_inv_factorials(size_t n, T fact_k = T(1), size_t k = 1) {
  */
 template<typename It, typename T = typename std::iterator_traits<It>::value_type>
 void inverses_from_ifact(It begin, It end, T id = T(1)) {
+    if (begin == end) return;
     T fact = id, i = id;
     *begin = zeroOf(id);
     for (It it = ++begin; it != end; ++it) {
-- 
2.43.0


From de11c491716b19b562d417c39e13d3c05f2d84a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:09 +0000
Subject: [PATCH 61/79] fix: berlekamp_massey_poly lost the run-time modulus of
 the elements (endless loop)

---
 include/altruct/algorithm/math/recurrence.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/altruct/algorithm/math/recurrence.h b/include/altruct/algorithm/math/recurrence.h
index 5275f0c..1df1d5f 100644
--- a/include/altruct/algorithm/math/recurrence.h
+++ b/include/altruct/algorithm/math/recurrence.h
@@ -144,8 +144,9 @@ polynom<T> berlekamp_massey_poly(const std::vector<A>& a, T id = T(1)) {
     T e0 = zeroOf(id), e1 = identityOf(id);
     int n = (int)a.size() / 2;
     int m = 2 * n - 1;
-    polynom<A> R, R0, R1;
-    polynom<T> V, V0, V1, Q;
+    A z0 = zeroOf(a[0]);
+    polynom<A> R(z0), R0(z0), R1(z0);
+    polynom<T> V(e0), V0(e0), V1(e0), Q(e0);
     R0[m + 1] = identityOf(a[0]);
     for (int i = 0; i <= m; i++) {
         R1[i] = a[m - i];
-- 
2.43.0


From aba065b1a745ca52a1660501a031b368a4991f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:09 +0000
Subject: [PATCH 62/79] fix: inv_factorials given k! beyond the table returned
 1/k! as the last element

---
 include/altruct/algorithm/math/ranges.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/altruct/algorithm/math/ranges.h b/include/altruct/algorithm/math/ranges.h
index b176e94..a1cf460 100644
--- a/include/altruct/algorithm/math/ranges.h
+++ b/include/altruct/algorithm/math/ranges.h
@@ -80,6 +80,10 @@ void inv_factorials(It begin, It end, T fact_k = T(1), size_t k = 1) {
         val_k += id, fact_k *= val_k;
     }
     T ifact = id / fact_k;
+    // if `k` was beyond the table, go back to its last element
+    for (size_t n = std::distance(begin, end); k > n; k--) {
+        ifact *= val_k, val_k -= id;
+    }
     for (It it = end; it != begin; ) {
         *--it = ifact; ifact *= val_k; val_k -= id;
     }
-- 
2.43.0


From 2b03b4e6e98cace3e6ac774808f236ca1d62b8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:09 +0000
Subject: [PATCH 63/79] fix: reduce_max of unsigned elements started at 1

---
 include/altruct/algorithm/math/reduce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/reduce.h b/include/altruct/algorithm/math/reduce.h
index bb1fd70..2c1de39 100644
--- a/include/altruct/algorithm/math/reduce.h
+++ b/include/altruct/algorithm/math/reduce.h
@@ -64,7 +64,7 @@ T reduce_min(const C& c, T id = +std::numeric_limits<T>::max()) {
  * @param id - identity element, default -infinity
  */
 template<typename C, typename T = typename C::value_type>
-T reduce_max(const C& c, T id = -std::numeric_limits<T>::max()) {
+T reduce_max(const C& c, T id = std::numeric_limits<T>::is_signed ? -std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest()) {
     return reduce(c, [](const T& r, const T& e) { return r < e ? e : r; }, id);
 }
 
-- 
2.43.0


From 796725cc1997b0f81bb992b9b4de538cd73fdad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:09 +0000
Subject: [PATCH 64/79] fix: reduce_mex counted repeated elements and elements
 below the start

---
 include/altruct/algorithm/math/reduce.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/reduce.h b/include/altruct/algorithm/math/reduce.h
index 2c1de39..d9c564c 100644
--- a/include/altruct/algorithm/math/reduce.h
+++ b/include/altruct/algorithm/math/reduce.h
@@ -76,7 +76,7 @@ T reduce_max(const C& c, T id = std::numeric_limits<T>::is_signed ? -std::numeri
  */
 template<typename C, typename T = typename C::value_type>
 T reduce_mex(const C& c, T id = 0) {
-    return reduce(c, [](const T& r, const T& e) { return r < e ? r : r + 1; }, id);
+    return reduce(c, [](const T& r, const T& e) { return r == e ? r + 1 : r; }, id);
 }
 
 } // math
-- 
2.43.0


From 1e26ff64d5fd5b6c6fbbaa1b089c39be42f6dbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:46 +0000
Subject: [PATCH 65/79] fix: convergents skipped negative terms

---
 include/altruct/algorithm/math/convergents.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/convergents.h b/include/altruct/algorithm/math/convergents.h
index 8e7bdf9..e94dc42 100644
--- a/include/altruct/algorithm/math/convergents.h
+++ b/include/altruct/algorithm/math/convergents.h
@@ -66,7 +66,7 @@ std::vector<std::pair<I, I>> convergents(const std::vector<I> &va, I semi_conver
         // Technically, if a_i is even, a_i / 2 is admissible only if the
         // corresponding semiconvergent is better than the previous convergent.
         // We do not check for it here however.
-        I a0 = a_i - std::min<I>(semi_convergents, a_i / 2);
+        I a0 = a_i - std::min<I>(semi_convergents, std::max<I>(a_i / 2, 0));
         for (I a = a0; a <= a_i; a++) {
             p = a * p1 + p2;
             q = a * q1 + q2;
-- 
2.43.0


From 9f7ca15d04c2f4c7b3b162446cca85d28c7672cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:46 +0000
Subject: [PATCH 66/79] fix: farey_neighbour went the wrong way from a negative
 fraction without predecessor

---
 include/altruct/algorithm/math/fractions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/algorithm/math/fractions.h b/include/altruct/algorithm/math/fractions.h
index bf70a92..27a11bd 100644
--- a/include/altruct/algorithm/math/fractions.h
+++ b/include/altruct/algorithm/math/fractions.h
@@ -21,7 +21,7 @@ template<typename I>
 fraction<I> farey_neighbour(const I& n, const fraction<I>& f_prev, const fraction<I>& f) {
     I p = f_prev.p, q = f_prev.q;
     if (f_prev.q == 0) {
-        gcd_ex(f.q, f.p, &p, &q);
+        if (gcd_ex(f.q, f.p, &p, &q) < 0) p = -p, q = -q;
         (f_prev.p < 0) ? p = -p : q = -q;
     }
     I k = (n + q) / f.q;
-- 
2.43.0


From 12f7b717791f561457451f27739bfba7c114a732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:46 +0000
Subject: [PATCH 67/79] fix: pell missed the classes whose first Q = +/-1 of
 the wrong sign comes before the period

---
 include/altruct/algorithm/math/pell.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/altruct/algorithm/math/pell.h b/include/altruct/algorithm/math/pell.h
index b246c47..2be6781 100644
--- a/include/altruct/algorithm/math/pell.h
+++ b/include/altruct/algorithm/math/pell.h
@@ -167,16 +167,17 @@ int pell_mz(I D, I m, I z, I& x0, I& y0) {
     int l = pell_PQa<I>(D, P, Q, a, A, B, G);
     int i = 1; while (i < (int)Q.size() && Q[i] != +1 && Q[i] != -1) i++;
     if (i >= (int)Q.size()) return 0;
+    // G[i-1]^2 - D B[i-1]^2 = (-1)^i Q[i] |m|
     // check for solution by testing Q[i] == (-1)^i sign(m)
-    if (Q[i] != ((i % 2 == 1) ? -ms : +ms)) {
-        // G[i-1]^2 - D B[i-1]^2 = (-1)^i Q[i] |m| = -m;
-        // do another period to get +m
+    auto found = [&](int i) { return Q[i] == ((i % 2 == 1) ? -ms : +ms); };
+    while (i < (int)Q.size() && !found(i)) i++;
+    if (i >= (int)Q.size() && l % 2 == 1) {
+        // the period is odd, do another one where the signs are opposite
         pell_PQa<I>(D, P, Q, a, A, B, G);
-        i += l;
+        while (i < (int)Q.size() && !found(i)) i++;
     }
-    if (Q[i] != ((i % 2 == 1) ? -ms : +ms)) {
-        // G[i-1]^2 - D B[i-1]^2 = (-1)^i Q[i] |m| = -m;
-        // -m again, +m will never happen
+    if (i >= (int)Q.size()) {
+        // +m will never happen
         return 0;
     }
     else {
-- 
2.43.0


From a3d24d79da28c8548f26835c47176cc2b41f8918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:47 +0000
Subject: [PATCH 68/79] fix: pell listing stopped before solutions reached from
 representatives with a negative component

---
 include/altruct/algorithm/math/pell.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/altruct/algorithm/math/pell.h b/include/altruct/algorithm/math/pell.h
index 2be6781..dc782fc 100644
--- a/include/altruct/algorithm/math/pell.h
+++ b/include/altruct/algorithm/math/pell.h
@@ -272,17 +272,17 @@ void pell(I D, I N, const std::vector<std::pair<P, int>>& fN, I x_max, I y_max,
     if (pell1<I>(D, 1, s1.a, s1.b)) {
         auto vs = pell<I>(D, N, fN);
         while (true) {
-            auto size0 = size;
+            bool more = false;
             for (auto& s : vs) {
                 auto t = s; s *= s1;
                 if (s.a <= 0 && s.b <= 0) s = -s;
-                if (t.a < 0 || t.b < 0) continue;
+                if (count > 0 && size >= count) continue;
+                if (t.a < 0 || t.b < 0) { more = true; continue; }
                 if (x_max > 0 && t.a > x_max) continue;
                 if (y_max > 0 && t.b > y_max) continue;
-                if (count > 0 && size >= count) continue;
-                visitor(t); size++;
+                visitor(t); size++; more = true;
             }
-            if (size == size0) break;
+            if (!more) break;
         }
     }
 }
-- 
2.43.0


From 0f5d828d625ae87280423bc11a03b53d99b6936a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:45 +0000
Subject: [PATCH 69/79] fix: vectorNd compound assignment by one of its own
 elements used the element after changing it

---
 include/altruct/structure/math/vectorNd.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/altruct/structure/math/vectorNd.h b/include/altruct/structure/math/vectorNd.h
index 2219482..0937aa7 100644
--- a/include/altruct/structure/math/vectorNd.h
+++ b/include/altruct/structure/math/vectorNd.h
@@ -68,11 +68,11 @@ public:
     vectorNd& operator /= (const vectorNd& rhs) { for (int i = 0; i < N; i++) a[i] /= rhs.a[i]; return *this; }
     vectorNd& operator %= (const vectorNd& rhs) { for (int i = 0; i < N; i++) a[i] %= rhs.a[i]; return *this; }
 
-    vectorNd& operator += (const T& rhs) { for (int i = 0; i < N; i++) a[i] += rhs; return *this; }
-    vectorNd& operator -= (const T& rhs) { for (int i = 0; i < N; i++) a[i] -= rhs; return *this; }
-    vectorNd& operator *= (const T& rhs) { for (int i = 0; i < N; i++) a[i] *= rhs; return *this; }
-    vectorNd& operator /= (const T& rhs) { for (int i = 0; i < N; i++) a[i] /= rhs; return *this; }
-    vectorNd& operator %= (const T& rhs) { for (int i = 0; i < N; i++) a[i] %= rhs; return *this; }
+    vectorNd& operator += (T rhs) { for (int i = 0; i < N; i++) a[i] += rhs; return *this; }
+    vectorNd& operator -= (T rhs) { for (int i = 0; i < N; i++) a[i] -= rhs; return *this; }
+    vectorNd& operator *= (T rhs) { for (int i = 0; i < N; i++) a[i] *= rhs; return *this; }
+    vectorNd& operator /= (T rhs) { for (int i = 0; i < N; i++) a[i] /= rhs; return *this; }
+    vectorNd& operator %= (T rhs) { for (int i = 0; i < N; i++) a[i] %= rhs; return *this; }
 
     T abs2() const { T r = 0; for (int i = 0; i < N; i++) r += a[i] * a[i]; return r; }
 };
-- 
2.43.0


From 9bcdceed88e0e1662e53dee06651f5ee4324b067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:45 +0000
Subject: [PATCH 70/79] fix: vectorNd read past the end of an initializer list
 shorter than N

---
 include/altruct/structure/math/vectorNd.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/vectorNd.h b/include/altruct/structure/math/vectorNd.h
index 0937aa7..f552699 100644
--- a/include/altruct/structure/math/vectorNd.h
+++ b/include/altruct/structure/math/vectorNd.h
@@ -2,7 +2,9 @@
 
 #include "altruct/algorithm/math/base.h"
 
+#include <algorithm>
 #include <array>
+#include <initializer_list>
 
 namespace altruct {
 namespace math {
@@ -22,7 +24,7 @@ public:
     // construct from int, but only if T is not integral to avoid constructor clashing
     template <typename I = T, typename = std::enable_if_t<!std::is_integral<I>::value>>
     vectorNd(int a0) { a.fill(a0); } // to allow constructing from 0 and 1
-    vectorNd(std::initializer_list<T> list) { assign(list.begin()); }
+    vectorNd(std::initializer_list<T> list) { a.fill(0); std::copy_n(list.begin(), std::min<size_t>(list.size(), N), a.begin()); }
 
     int size() const { return N; }
     const T& operator [] (int index) const { return a[index]; }
-- 
2.43.0


From 4c36e11b559a1255ea950d65cc81bd18b0692a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:45 +0000
Subject: [PATCH 71/79] fix: vector2d and vector3d scaled by one of their own
 components used the component after changing it

---
 include/altruct/structure/math/vector2d.h | 4 ++--
 include/altruct/structure/math/vector3d.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/altruct/structure/math/vector2d.h b/include/altruct/structure/math/vector2d.h
index fa2ccd6..dd74606 100644
--- a/include/altruct/structure/math/vector2d.h
+++ b/include/altruct/structure/math/vector2d.h
@@ -29,8 +29,8 @@ public:
     vector2d& operator *= (const vector2d& v) { x *= v.x; y *= v.y; return *this; } // (element by element)
     vector2d& operator /= (const vector2d& v) { x /= v.x; y /= v.y; return *this; } // (element by element)
 
-    vector2d& operator *= (const T& t) { x *= t; y *= t; return (*this); }
-    vector2d& operator /= (const T& t) { x /= t; y /= t; return (*this); }
+    vector2d& operator *= (T t) { x *= t; y *= t; return (*this); }
+    vector2d& operator /= (T t) { x /= t; y /= t; return (*this); }
 
     vector2d  operator +  (const vector2d& v) const { return vector2d(x + v.x, y + v.y); }
     vector2d  operator -  (const vector2d& v) const { return vector2d(x - v.x, y - v.y); }
diff --git a/include/altruct/structure/math/vector3d.h b/include/altruct/structure/math/vector3d.h
index 0b88d2d..c61ced9 100644
--- a/include/altruct/structure/math/vector3d.h
+++ b/include/altruct/structure/math/vector3d.h
@@ -29,8 +29,8 @@ public:
     vector3d& operator *= (const vector3d& v) { x *= v.x; y *= v.y; z *= v.z; return *this; } // element by element
     vector3d& operator /= (const vector3d& v) { x /= v.x; y /= v.y; z /= v.z; return *this; } // element by element
 
-    vector3d& operator *= (const T& t) { x *= t; y *= t; z *= t; return *this; }
-    vector3d& operator /= (const T& t) { x /= t; y /= t; z /= t; return *this; }
+    vector3d& operator *= (T t) { x *= t; y *= t; z *= t; return *this; }
+    vector3d& operator /= (T t) { x /= t; y /= t; z /= t; return *this; }
 
     vector3d  operator +  ()                  const { return vector3d(+x, +y, +z); }
     vector3d  operator -  ()                  const { return vector3d(-x, -y, -z); }
-- 
2.43.0


From 70a729b606902611f2802ba034cf3a3acc192dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:45 +0000
Subject: [PATCH 72/79] fix: cl3 rotor, vector and multivector scaled by one of
 their own parts used the part after changing it

---
 include/altruct/structure/math/clifford3.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/altruct/structure/math/clifford3.h b/include/altruct/structure/math/clifford3.h
index 624c340..e77fbb0 100644
--- a/include/altruct/structure/math/clifford3.h
+++ b/include/altruct/structure/math/clifford3.h
@@ -44,8 +44,8 @@ public:
     rotor& operator *= (const rotor& r) { return *this = *this * r; }
     rotor& operator /= (const rotor& r) { return *this = *this / r; }
 
-    rotor& operator *= (const T& t) { s *= t; yz *= t; zx *= t; xy *= t; return *this; }
-    rotor& operator /= (const T& t) { s /= t; yz /= t; zx /= t; xy /= t; return *this; }
+    rotor& operator *= (T t) { s *= t; yz *= t; zx *= t; xy *= t; return *this; }
+    rotor& operator /= (T t) { s /= t; yz /= t; zx /= t; xy /= t; return *this; }
 
     rotor  operator +  (const rotor& r) const { return rotor(s + r.s, yz + r.yz, zx + r.zx, xy + r.xy); }
     rotor  operator -  (const rotor& r) const { return rotor(s - r.s, yz - r.yz, zx - r.zx, xy - r.xy); }
@@ -141,8 +141,8 @@ public:
     vector& operator *= (const rotor<T>& r) { return *this = *this * r; }
     vector& operator /= (const rotor<T>& r) { return *this = *this / r; }
 
-    vector& operator *= (const T& t) { x *= t; y *= t; z *= t; w *= t; return *this; }
-    vector& operator /= (const T& t) { x /= t; y /= t; z /= t; w /= t; return *this; }
+    vector& operator *= (T t) { x *= t; y *= t; z *= t; w *= t; return *this; }
+    vector& operator /= (T t) { x /= t; y /= t; z /= t; w /= t; return *this; }
 
     vector   operator +  (const vector& v) const { return vector(x + v.x, y + v.y, z + v.z, w + v.w); }
     vector   operator -  (const vector& v) const { return vector(x - v.x, y - v.y, z - v.z, w - v.w); }
@@ -271,8 +271,8 @@ public:
     multivector& operator += (const multivector& m) { r += m.r; v += m.v; return *this; }
     multivector& operator -= (const multivector& m) { r -= m.r; v -= m.v; return *this; }
 
-    multivector& operator *= (const rotor<T>& r2) { r *= r2; v *= r2; return *this; }
-    multivector& operator /= (const rotor<T>& r2) { r /= r2; v /= r2; return *this; } // return *this *= r2.inv();
+    multivector& operator *= (rotor<T> r2) { r *= r2; v *= r2; return *this; }
+    multivector& operator /= (rotor<T> r2) { r /= r2; v /= r2; return *this; } // return *this *= r2.inv();
 
     multivector& operator *= (const vector<T>& v2) { return *this = *this * v2; }
     multivector& operator /= (const vector<T>& v2) { return *this = *this / v2; }
@@ -280,8 +280,8 @@ public:
     multivector& operator *= (const multivector& m) { return *this = *this * m; }
     multivector& operator /= (const multivector& m) { return *this = *this / m; }
 
-    multivector& operator *= (const T& t) { r *= t; v *= t; return *this; }
-    multivector& operator /= (const T& t) { r /= t; v /= t; return *this; }
+    multivector& operator *= (T t) { r *= t; v *= t; return *this; }
+    multivector& operator /= (T t) { r /= t; v /= t; return *this; }
 
     multivector  operator +  (const rotor<T>& r2) const { return multivector(r + r2, v); }
     multivector  operator -  (const rotor<T>& r2) const { return multivector(r - r2, v); }
-- 
2.43.0


From 4a13b431dc380cb92a1ddf595a6803f0f4de7b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:26 +0000
Subject: [PATCH 73/79] fix: pga subtraction of a blade the left side lacks
 returned a reference to a temporary

---
 include/altruct/structure/math/pga.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/altruct/structure/math/pga.h b/include/altruct/structure/math/pga.h
index 0a61d32..9e75971 100644
--- a/include/altruct/structure/math/pga.h
+++ b/include/altruct/structure/math/pga.h
@@ -552,7 +552,7 @@ auto operator + (const BL& bl, const BR& br) {
 
 // subtract
 template<typename B, typename T, IF_BLADE_TYPE(B, T)> const B& operator - (const B& b, zero<T>) { return b; }
-template<typename B, typename T, IF_NONZERO_BLADE_TYPE(B, T)> const B& operator - (zero<T>, const B& b) { return -b; }
+template<typename B, typename T, IF_NONZERO_BLADE_TYPE(B, T)> B operator - (zero<T>, const B& b) { return -b; }
 
 template<typename BL, typename BR, typename T = typename get<BL>::type, IF_NONZERO_BLADE_TYPE(BL, T), IF_NONZERO_BLADE_TYPE(BR, T)>
 auto operator - (const BL& bl, const BR& br) {
-- 
2.43.0


From de04098fe5588dc1866764a948002325d0630e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:26 +0000
Subject: [PATCH 74/79] fix: pga blades scaled by one of their own coefficients
 used the coefficient after changing it

---
 include/altruct/structure/math/pga.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/altruct/structure/math/pga.h b/include/altruct/structure/math/pga.h
index 9e75971..ad9a3f8 100644
--- a/include/altruct/structure/math/pga.h
+++ b/include/altruct/structure/math/pga.h
@@ -76,8 +76,8 @@ vector3d<T> make_zero_vec(const T& v) { return vector3d<T>(zeroOf(v), zeroOf(v),
 #define PGA_CLOSED_OPERATORS_1(B, T, p)                                           \
     B& operator += (const B& rhs) { p += rhs.p; return *this; }                   \
     B& operator -= (const B& rhs) { p -= rhs.p; return *this; }                   \
-    B& operator *= (const T& rhs) { p *= rhs; return *this; }                     \
-    B& operator /= (const T& rhs) { p /= rhs; return *this; }                     \
+    B& operator *= (T rhs)        { p *= rhs; return *this; }                     \
+    B& operator /= (T rhs)        { p /= rhs; return *this; }                     \
                                                                                   \
     B  operator +  ()             const { return B(+p); }                         \
     B  operator -  ()             const { return B(-p); }                         \
@@ -91,8 +91,8 @@ vector3d<T> make_zero_vec(const T& v) { return vector3d<T>(zeroOf(v), zeroOf(v),
 #define PGA_CLOSED_OPERATORS_2(B, T, pl, pr)                                      \
     B& operator += (const B& rhs) { pl += rhs.pl; pr += rhs.pr; return *this; }   \
     B& operator -= (const B& rhs) { pl -= rhs.pl; pr -= rhs.pr; return *this; }   \
-    B& operator *= (const T& rhs) { pl *= rhs; pr *= rhs; return *this; }         \
-    B& operator /= (const T& rhs) { pl /= rhs; pr /= rhs; return *this; }         \
+    B& operator *= (T rhs)        { pl *= rhs; pr *= rhs; return *this; }         \
+    B& operator /= (T rhs)        { pl /= rhs; pr /= rhs; return *this; }         \
                                                                                   \
     B  operator +  ()             const { return B(+pl, +pr); }                   \
     B  operator -  ()             const { return B(-pl, -pr); }                   \
-- 
2.43.0


From bf2fc88ce72e29172f28a4ca7fa99375f1ab3455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:15 +0000
Subject: [PATCH 75/79] fix: double_int of words narrower than int kept only
 the low word of an int

---
 experimental/include/altruct/structure/math/double_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/structure/math/double_int.h b/experimental/include/altruct/structure/math/double_int.h
index 4c685ed..1573598 100644
--- a/experimental/include/altruct/structure/math/double_int.h
+++ b/experimental/include/altruct/structure/math/double_int.h
@@ -38,7 +38,7 @@ public:
     T hi, lo;
 
     // CONSTRUCTORS
-    double_int(int val = 0) : hi(sign(val < 0)), lo(val) {}
+    double_int(int val = 0) : hi(T::type_bits < 32 ? val >> (T::type_bits % 32) : sign(val < 0)), lo(val) {}
     double_int(const T& val) : hi(sign(val.is_negative())), lo(val) {}
     double_int(const T& rhs_hi, const T& rhs_lo) : hi(rhs_hi), lo(rhs_lo) {}
     double_int(const double_int& rhs) : hi(rhs.hi), lo(rhs.lo) {}
-- 
2.43.0


From 6106860c121a2fe865f70277ec38802fdaae03fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:15 +0000
Subject: [PATCH 76/79] fix: double_int postfix increment and decrement
 returned the new value and left the operand unchanged

---
 experimental/include/altruct/structure/math/double_int.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/experimental/include/altruct/structure/math/double_int.h b/experimental/include/altruct/structure/math/double_int.h
index 1573598..53f4533 100644
--- a/experimental/include/altruct/structure/math/double_int.h
+++ b/experimental/include/altruct/structure/math/double_int.h
@@ -78,8 +78,8 @@ public:
     // INCREMENT / DECREMENT
     double_int& operator ++ () { int carry = 1; return assign_adc(0, carry); }
     double_int& operator -- () { int borrow = 1;return assign_sbb(0, borrow); }
-    double_int operator ++ (int) { double_int r(*this); return ++r; }
-    double_int operator -- (int) { double_int r(*this); return --r; }
+    double_int operator ++ (int) { double_int r(*this); ++*this; return r; }
+    double_int operator -- (int) { double_int r(*this); --*this; return r; }
 
     // ADDITION / SUBTRACTION
     double_int& operator += (const double_int& rhs) { int carry = 0; return assign_adc(rhs, carry); }
-- 
2.43.0


From d146eb2947039bda590fed83916a25362c88dd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:15 +0000
Subject: [PATCH 77/79] fix: double_int left shift did not compile

---
 experimental/include/altruct/structure/math/double_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/structure/math/double_int.h b/experimental/include/altruct/structure/math/double_int.h
index 53f4533..ec48750 100644
--- a/experimental/include/altruct/structure/math/double_int.h
+++ b/experimental/include/altruct/structure/math/double_int.h
@@ -181,7 +181,7 @@ public:
             lo = 0;
         } else if (cnt > 0) {
             hi <<= cnt;
-            hi |= double_int(lo).assign_unsigned_shr(T::type_bits - cnt);
+            hi |= T(lo).assign_unsigned_shr(T::type_bits - cnt);
             lo <<= cnt;
         }
         return *this;
-- 
2.43.0


From df859901847b896cbedd03cf5b2230cd3d6a4939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:15 +0000
Subject: [PATCH 78/79] fix: prim_int::negate returned a temporary and left the
 operand unchanged

---
 experimental/include/altruct/structure/math/double_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experimental/include/altruct/structure/math/double_int.h b/experimental/include/altruct/structure/math/double_int.h
index ec48750..7ec9890 100644
--- a/experimental/include/altruct/structure/math/double_int.h
+++ b/experimental/include/altruct/structure/math/double_int.h
@@ -377,7 +377,7 @@ public:
     prim_int& operator /= (const prim_int& rhs) { v /= rhs.v; return *this; }
     prim_int& operator %= (const prim_int& rhs) { v %= rhs.v; return *this; }
 
-    prim_int& negate() { return prim_int(-v); }
+    prim_int& negate() { v = -v; return *this; }
 
     prim_int& operator &= (const prim_int& rhs) { v &= rhs.v; return *this; }
     prim_int& operator |= (const prim_int& rhs) { v |= rhs.v; return *this; }
-- 
2.43.0


From 4dd1edf90abf02adb76d71312ac39a7ac70c5459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:15 +0000
Subject: [PATCH 79/79] fix: double_int division and remainder were always 0

---
 .../altruct/structure/math/double_int.h       | 30 ++++++-------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/experimental/include/altruct/structure/math/double_int.h b/experimental/include/altruct/structure/math/double_int.h
index 7ec9890..d3e7829 100644
--- a/experimental/include/altruct/structure/math/double_int.h
+++ b/experimental/include/altruct/structure/math/double_int.h
@@ -121,27 +121,15 @@ public:
 
     // DIVISION
     static double_int unsigned_div(const double_int& a0, const double_int& b0, double_int *r = 0) {
-        if (a0.unsigned_lt(b0)) return 0;
-        double_int q = 0, a = a0, b = b0;
-
-        // TODO: do half machine-word divisions, not half double-int divisions !!
-
-        //int r_shift = 0;
-        //while (a.unsigned_gte(b)) {
-        //  // shifting both a and b by the same amount doesn't affect the quotient
-        //    int a_lzc = a.leading_zeros_count(); a <<= a_lzc;
-        //    int b_lzc = b.leading_zeros_count(); b <<= a_lzc;
-        //    r_shift += a_lzc;
-        //    if (b_lzc == a_lzc) { a -= b; q += 1; continue; }
-        //  // shifting b left so that (b << k).hi >= 2^(T::type_bits/2-1)
-        //    int k = max(0, b_lzc - a_lzc - T::type_bits / 2);
-        //    double_int c = b << k;
-        //    double_int t = T::unsigned_div(a.get_hi(), c.get_hi() + 1);
-        //    t <<= k; // correcting the quotient because shifting b left shifted the quotient right
-        //    a -= b * t;
-        //    q += t;
-        //}
-        //if (r) *r = a >> r_shift;
+        // TODO: do half machine-word divisions, not shift and subtract !!
+        double_int q = 0, a = a0;
+        for (int k = b0.leading_zeros_count() - a0.leading_zeros_count(); k >= 0; k--) {
+            double_int c = b0 << k;
+            if (a.unsigned_lt(c)) continue;
+            a -= c;
+            q |= double_int(1) << k;
+        }
+        if (r) *r = a;
         return q;
     }
 
-- 
2.43.0

