From 6af9d8897f6cd502d483fd74eb3a6aa0b31707d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:09 +0000
Subject: [PATCH 01/27] fix: ext_gcd leaves a coefficient unset or with the
 wrong sign when an argument is zero

---
 include/parmcb/fp.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index 5a51a18..bafd89a 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -36,11 +36,13 @@ T fp<T>::ext_gcd(T &a, T &b, T &x, T &y) {
     a = (a < 0) ? -a : a;
     b = (b < 0) ? -b : b;
     if (a == 0) {
+        x = 0;
         y = bneg ? -1 : 1;
         return b;
     }
     if (b == 0) {
-        x = bneg ? -1 : 1;
+        x = aneg ? -1 : 1;
+        y = 0;
         return a;
     }
 
-- 
2.43.0


From 5fc2663b2c2d85e4423d4cc2a2a39cd618cfac47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:09 +0000
Subject: [PATCH 02/27] fix: is_prime rejects 2 and overflows near the largest
 values of its type

---
 include/parmcb/fp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index bafd89a..e9dd987 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -112,11 +112,11 @@ public:
          assert( p >= t );
  #endif
         if (p % 2 == 0)
-            return false;
+            return p == t;
         T zero = T(0);
         T sqrtt = T(sqrt(p)) + 1;
 #ifdef PARMCB_INVARIANTS_CHECK
-         if ( sqrtt * sqrtt < p )
+         if ( sqrtt < p / sqrtt )
              throw new std::runtime_error("error calculating square");
 #endif
         while (t <= sqrtt) {
-- 
2.43.0


From 1cbc53779b8ca3541e346b797e2327bae5076fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:59 +0000
Subject: [PATCH 03/27] fix: throw exceptions by value, a thrown pointer leaks
 and is not caught as std::exception

---
 include/parmcb/detail/approx_spanner.hpp | 4 ++--
 include/parmcb/fp.hpp                    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 3988cec..9b1c411 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -114,7 +114,7 @@ private:
                     spanner_other = boost::source(spanner_ae, _spanner);
                 }
                 if (spanner_other == spanner_w) {
-                    throw new std::runtime_error("Self loops?");
+                    throw std::runtime_error("Self loops?");
                 }
                 spanner_w = spanner_other;
             }
@@ -198,7 +198,7 @@ private:
                                         _spanner);
                             }
                             if (spanner_other == spanner_w) {
-                                throw new std::runtime_error("Self loops?");
+                                throw std::runtime_error("Self loops?");
                             }
                             spanner_w = spanner_other;
                         }
diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index e9dd987..94366c9 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -89,12 +89,12 @@ template<class T>
 T fp<T>::get_mult_inverse(T &a, T &p) {
 #ifdef PARMCB_INVARIANTS_CHECK
     if ( p <= 0 )
-        throw new std::runtime_error("p is not positive");
+        throw std::runtime_error("p is not positive");
 #endif
 
     T x, y;
     if (fp<T>::ext_gcd(a, p, x, y) != 1) {
-        throw new std::runtime_error("mult inverse does not exist");
+        throw std::runtime_error("mult inverse does not exist");
     }
     return x;
 }
@@ -117,7 +117,7 @@ public:
         T sqrtt = T(sqrt(p)) + 1;
 #ifdef PARMCB_INVARIANTS_CHECK
          if ( sqrtt < p / sqrtt )
-             throw new std::runtime_error("error calculating square");
+             throw std::runtime_error("error calculating square");
 #endif
         while (t <= sqrtt) {
             if (p % t == zero)
-- 
2.43.0


From 59ba5cfc988ccd843011ae982e6ea5bc49e72922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 04/27] fix: the invariant check of ext_gcd overflows for large
 arguments

---
 include/parmcb/fp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index 94366c9..5e35149 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -78,7 +78,7 @@ T fp<T>::ext_gcd(T &a, T &b, T &x, T &y) {
     }
 
 #ifdef PARMCB_INVARIANTS_CHECK
-    assert(_a[1 - i] == ((aneg) ? (-a) : (a)) * x + ((bneg) ? (-b) : (b)) * y);
+    assert(a % _a[1 - i] == 0 && b % _a[1 - i] == 0);
 #endif
 
     return _a[1 - i];
-- 
2.43.0


From a46d5bc64ed2035b943a157611c55d3f3c004ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 05/27] fix: scalar multiplication of SpVecFP overflows for
 large scalars

---
 include/parmcb/spvecfp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parmcb/spvecfp.hpp b/include/parmcb/spvecfp.hpp
index 68072b3..074cb0e 100644
--- a/include/parmcb/spvecfp.hpp
+++ b/include/parmcb/spvecfp.hpp
@@ -160,13 +160,14 @@ public:
 
     SpVecFP<P> operator*(const P &a) const {
         SpVecFP<P> res(p);
+        const P r = a % p; // reduce first, value * a may not be representable
         auto it = entries.begin(), it_e = entries.end();
         while (it != it_e) {
             entry_type entry = *it;
             std::size_t index = boost::get<0>(entry);
             P value = boost::get<1>(entry);
 
-            P v = (value * a) % p;
+            P v = (value * r) % p;
             while (v < 0)
                 v += p;   // make [-i]_p = [p-i]_p
             while (v >= p)
-- 
2.43.0


From bf1b99debf159f907d9cda3efce0cc4d65505b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 06/27] fix: the assertion in SpVecGF2::add dereferences the
 past-the-end iterator

---
 include/parmcb/spvecgf2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parmcb/spvecgf2.hpp b/include/parmcb/spvecgf2.hpp
index f6bdbef..0cb4046 100644
--- a/include/parmcb/spvecgf2.hpp
+++ b/include/parmcb/spvecgf2.hpp
@@ -147,7 +147,7 @@ namespace parmcb {
         }
 
         void add(U pos) {
-            assert(ones.empty() || pos >= *(ones.end()));
+            assert(ones.empty() || pos > ones.back());
 
             ones.push_back(pos);
         }
-- 
2.43.0


From 14d373c39f7705bf0c60f5c58d42078aab826dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 07/27] fix: read_dimacs_from_file loses the last character of
 a file without a final newline

---
 include/parmcb/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index a569267..6a2df19 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -119,7 +119,7 @@ namespace parmcb {
         typename boost::property_map<Graph, boost::edge_weight_t>::type weight = get(boost::edge_weight, graph);
 
         while (fgets(buffer, sizeof(buffer), fp) != NULL) {
-            buffer[strlen(buffer) - 1] = '\0'; // eat the newline
+            buffer[strcspn(buffer, "\n")] = '\0'; // eat the newline, if there is one
             if (buffer[0] == 'c' || buffer[0] == '#') {
                 continue;
             } else if (buffer[0] == 'p') {
-- 
2.43.0


From a005ea34ac439c82ff1f6101c3340eeea597a124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 08/27] fix: read_dimacs_from_file parses the tail of a long
 line as a line of its own

---
 include/parmcb/util.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index 6a2df19..18cb4ea 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -119,6 +119,12 @@ namespace parmcb {
         typename boost::property_map<Graph, boost::edge_weight_t>::type weight = get(boost::edge_weight, graph);
 
         while (fgets(buffer, sizeof(buffer), fp) != NULL) {
+            if (strchr(buffer, '\n') == NULL) {
+                // the rest of a longer line is not a line of its own
+                int c;
+                while ((c = fgetc(fp)) != EOF && c != '\n')
+                    ;
+            }
             buffer[strcspn(buffer, "\n")] = '\0'; // eat the newline, if there is one
             if (buffer[0] == 'c' || buffer[0] == '#') {
                 continue;
-- 
2.43.0


From b0e7c97a28b738eefcef53ee65e8a079c45a7d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 09/27] fix: read_dimacs_from_file truncates vertex numbers and
 accepts undeclared vertices

---
 include/parmcb/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index 18cb4ea..e5b30bf 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -134,10 +134,10 @@ namespace parmcb {
                     vertex_map[i] = boost::add_vertex(graph);
                 }
             } else if (buffer[0] == 'a' || buffer[0] == 'e') {
-                int rs, rt;
+                long long rs, rt;
                 double rw = 1;
                 char fc;
-                sscanf(buffer, "%c %d %d %lf", &fc, &rs, &rt, &rw);
+                sscanf(buffer, "%c %lld %lld %lf", &fc, &rs, &rt, &rw);
 
                 if (vertex_map.find(rs) == vertex_map.end()) {
                     throw std::system_error(EIO, std::generic_category(), "Vertex not found");
-- 
2.43.0


From 1bb3807abb0562827f97faeeacb292e6ca573997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 10/27] fix: has_multiple_edges takes a single self-loop for a
 repeated edge

---
 include/parmcb/util.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index e5b30bf..f36923d 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -45,18 +45,18 @@ namespace parmcb {
     bool has_multiple_edges(const Graph &g) {
         typedef typename boost::graph_traits<Graph>::vertex_descriptor Vertex;
 
-        auto vRange = boost::vertices(g);
-        for (auto vit = vRange.first; vit != vRange.second; ++vit) {
-            auto v = *vit;
-            std::set<Vertex> neighbors;
-
-            auto eRange = boost::out_edges(v, g);
-            for (auto eit = eRange.first; eit != eRange.second; ++eit) {
-                auto e = *eit;
-                auto u = boost::opposite(e, v, g);
-                if (!neighbors.insert(u).second) {
-                    return true;
-                }
+        // look at every edge once, an undirected loop is listed twice among the out edges of its vertex
+        std::set<std::pair<Vertex, Vertex>> pairs;
+        auto eRange = boost::edges(g);
+        for (auto eit = eRange.first; eit != eRange.second; ++eit) {
+            auto e = *eit;
+            auto v = boost::source(e, g);
+            auto u = boost::target(e, g);
+            if (boost::is_undirected(g) && u < v) {
+                std::swap(u, v);
+            }
+            if (!pairs.insert(std::make_pair(v, u)).second) {
+                return true;
             }
         }
         return false;
-- 
2.43.0


From 4db35f216d2a12ab011444d2b77a2bc5495f8641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 11/27] fix: approximate algorithms emit edges of their
 internal spanner instead of the caller's graph

The cycles found on the spanner were written to the caller's output
as edge descriptors of the spanner, which dangle once the call has
returned. Collect them, translate them to edges of the input graph and
sum their weights with the caller's weight map. The exact algorithm is
now called with the spanner's own map and iterator types, so its wrapper
deduces them, which also allows weight maps other than the internal one.
---
 include/parmcb/detail/approx_spanner.hpp        | 15 ++++++++++++++-
 include/parmcb/parmcb_approx_sva_signed.hpp     |  4 ++--
 include/parmcb/parmcb_approx_sva_signed_tbb.hpp |  4 ++--
 include/parmcb/parmcb_approx_sva_trees.hpp      | 12 ++++++------
 include/parmcb/parmcb_approx_sva_trees_tbb.hpp  | 12 ++++++------
 5 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 9b1c411..9a1168f 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -277,8 +277,21 @@ public:
         // compute spanner MCB with exact algorithm
         EdgeWeightMapType spanner_weight_map = get(boost::edge_weight,
                 _spanner);
+        std::list<std::list<Edge>> spanner_cycles;
         ExactAlgorithm exact_mcb_algo;
-        _weight += exact_mcb_algo(_spanner, spanner_weight_map, out);
+        exact_mcb_algo(_spanner, spanner_weight_map,
+                std::back_inserter(spanner_cycles));
+
+        // translate the cycles to edges and weights of the input graph
+        for (const auto &spanner_cycle : spanner_cycles) {
+            std::list<Edge> cycle_edgelist;
+            for (const auto &spanner_e : spanner_cycle) {
+                Edge e = _edge_spanner_to_g.at(spanner_e);
+                cycle_edgelist.push_back(e);
+                _weight += boost::get(_weight_map, e);
+            }
+            *out++ = cycle_edgelist;
+        }
 
         // compute remaining cycles
         parmcb::detail::NonSpannerEdgesCycleBuilder<Graph, WeightMap,
diff --git a/include/parmcb/parmcb_approx_sva_signed.hpp b/include/parmcb/parmcb_approx_sva_signed.hpp
index 2efae66..b4e9ae5 100644
--- a/include/parmcb/parmcb_approx_sva_signed.hpp
+++ b/include/parmcb/parmcb_approx_sva_signed.hpp
@@ -13,8 +13,8 @@ namespace parmcb {
 
 namespace detail {
 
-template<class Graph, class WeightMap, class CycleOutputIterator>
 struct mcb_sva_signed {
+    template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type operator()(
             const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
         return parmcb::mcb_sva_signed(g, weight, out);
@@ -28,7 +28,7 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_signed(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
 
-    typedef typename parmcb::detail::mcb_sva_signed<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef parmcb::detail::mcb_sva_signed ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, false> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
diff --git a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
index 19d81b8..0608afc 100644
--- a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
@@ -13,8 +13,8 @@ namespace parmcb {
 
 namespace detail {
 
-template<class Graph, class WeightMap, class CycleOutputIterator>
 struct mcb_sva_signed_tbb {
+    template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type operator()(
             const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
         return parmcb::mcb_sva_signed_tbb(g, weight, out);
@@ -26,7 +26,7 @@ template<class Graph, class WeightMap, class CycleOutputIterator>
 typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_signed_tbb(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
-    typedef typename parmcb::detail::mcb_sva_signed_tbb<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef parmcb::detail::mcb_sva_signed_tbb ExactAlgo;
 
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, true> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
diff --git a/include/parmcb/parmcb_approx_sva_trees.hpp b/include/parmcb/parmcb_approx_sva_trees.hpp
index b916eac..1ca8cf4 100644
--- a/include/parmcb/parmcb_approx_sva_trees.hpp
+++ b/include/parmcb/parmcb_approx_sva_trees.hpp
@@ -13,16 +13,16 @@ namespace parmcb {
 
 namespace detail {
 
-template<class Graph, class WeightMap, class CycleOutputIterator>
-struct mcb_sva_fvs_trees{
+struct mcb_sva_fvs_trees {
+    template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type operator()(
             const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
         return parmcb::mcb_sva_fvs_trees(g, weight, out);
     }
 };
 
-template<class Graph, class WeightMap, class CycleOutputIterator>
-struct mcb_sva_iso_trees{
+struct mcb_sva_iso_trees {
+    template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type operator()(
             const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
         return parmcb::mcb_sva_iso_trees(g, weight, out);
@@ -36,7 +36,7 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_fvs_trees(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
 
-    typedef typename parmcb::detail::mcb_sva_fvs_trees<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef parmcb::detail::mcb_sva_fvs_trees ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, false> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
@@ -46,7 +46,7 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_iso_trees(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
 
-    typedef typename parmcb::detail::mcb_sva_fvs_trees<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef parmcb::detail::mcb_sva_fvs_trees ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, false> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
diff --git a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
index 5abe2ae..d541d8f 100644
--- a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
@@ -13,16 +13,16 @@ namespace parmcb {
 
 namespace detail {
 
-template<class Graph, class WeightMap, class CycleOutputIterator>
-struct mcb_sva_fvs_trees_tbb{
+struct mcb_sva_fvs_trees_tbb {
+    template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type operator()(
             const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
         return parmcb::mcb_sva_fvs_trees_tbb(g, weight, out);
     }
 };
 
-template<class Graph, class WeightMap, class CycleOutputIterator>
-struct mcb_sva_iso_trees_tbb{
+struct mcb_sva_iso_trees_tbb {
+    template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type operator()(
             const Graph &g, const WeightMap &weight, CycleOutputIterator out) {
         return parmcb::mcb_sva_iso_trees_tbb(g, weight, out);
@@ -35,7 +35,7 @@ template<class Graph, class WeightMap, class CycleOutputIterator>
 typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_fvs_trees_tbb(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
-    typedef typename parmcb::detail::mcb_sva_fvs_trees_tbb<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef parmcb::detail::mcb_sva_fvs_trees_tbb ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, true> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
@@ -44,7 +44,7 @@ template<class Graph, class WeightMap, class CycleOutputIterator>
 typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_iso_trees_tbb(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
-    typedef typename parmcb::detail::mcb_sva_iso_trees_tbb<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef parmcb::detail::mcb_sva_iso_trees_tbb ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, true> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
-- 
2.43.0


From 3db7dc99219fd2dde27f780539e04211d9cf2650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:05 +0000
Subject: [PATCH 12/27] fix: the spanner of the approximate algorithms does not
 carry the edge weights

Its edges were created with default weights, so the exact phase and the
shortest paths of the dropped edges ignored the weights of the graph.
---
 include/parmcb/detail/approx_spanner.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 9a1168f..0d0f111 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -364,6 +364,8 @@ private:
                 // add edge to spanner
                 Edge spanner_e = std::get<0>(
                         boost::add_edge(spanner_v, spanner_u, _spanner));
+                boost::put(boost::edge_weight, _spanner, spanner_e,
+                        boost::get(_weight_map, e));
                 _edge_spanner_to_g[spanner_e] = e;
             } else {
                 // record missing edge from spanner
-- 
2.43.0


From a64826d09f23177ef4899c192fa710066ed01e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:01 +0000
Subject: [PATCH 13/27] fix: 2k-1 overflows in the spanner construction for
 huge k

---
 include/parmcb/detail/approx_spanner.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 0d0f111..e501da6 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -9,6 +9,7 @@
 #include <parmcb/detail/dijkstra.hpp>
 #include <parmcb/detail/bfs.hpp>
 
+#include <algorithm>
 #include <functional>
 #include <numeric>
 
@@ -345,6 +346,12 @@ private:
             _vertex_g_to_spanner[v] = spanner_v;
         }
 
+        // a path has fewer edges than the graph has vertices, a larger k adds
+        // nothing and may overflow 2k-1
+        const std::size_t max_hops = 2
+                * (std::min)(_k,
+                        static_cast<std::size_t>(boost::num_vertices(_g))) - 1;
+
         // construct edge set of spanner
         EdgeVectorIt ei, ei_end;
         for (ei = sorted_edges.begin(), ei_end = sorted_edges.end();
@@ -360,7 +367,7 @@ private:
             }
 
             if (!parmcb::is_bfs_reachable(_spanner, spanner_v, spanner_u,
-                    2 * _k - 1)) {
+                    max_hops)) {
                 // add edge to spanner
                 Edge spanner_e = std::get<0>(
                         boost::add_edge(spanner_v, spanner_u, _spanner));
-- 
2.43.0


From 866a470d2f49688154aa4570ffbd1796193d5a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 14/27] fix: headers rely on declarations of headers they do
 not include

fp.hpp does not compile on its own, neither does mpi/sptrees.hpp; others
only do because of what the Boost headers happen to include. fp.hpp and
spvecfp.hpp also test PARMCB_INVARIANTS_CHECK without the configuration.
---
 include/parmcb/detail/approx_spanner.hpp        | 10 ++++++++++
 include/parmcb/detail/bfs.hpp                   |  5 +++++
 include/parmcb/detail/cycles.hpp                |  5 +++++
 include/parmcb/detail/dijkstra.hpp              |  4 ++++
 include/parmcb/detail/fvs.hpp                   |  4 ++++
 include/parmcb/detail/lex_dijkstra.hpp          |  7 +++++++
 include/parmcb/detail/signed_dijkstra.hpp       |  9 +++++++++
 include/parmcb/detail/spanning_forest.hpp       |  2 ++
 include/parmcb/detail/util.hpp                  |  1 +
 include/parmcb/forestindex.hpp                  |  2 ++
 include/parmcb/fp.hpp                           |  7 +++++++
 include/parmcb/mpi/parmcb_sva_signed.hpp        |  7 +++++++
 include/parmcb/mpi/parmcb_sva_trees.hpp         |  5 +++++
 include/parmcb/mpi/sptrees.hpp                  |  5 +++++
 include/parmcb/parmcb_approx_sva_signed.hpp     |  2 ++
 include/parmcb/parmcb_approx_sva_signed_tbb.hpp |  2 ++
 include/parmcb/parmcb_approx_sva_trees.hpp      |  2 ++
 include/parmcb/parmcb_approx_sva_trees_tbb.hpp  |  2 ++
 include/parmcb/parmcb_sva_signed.hpp            |  5 +++++
 include/parmcb/parmcb_sva_signed_tbb.hpp        |  5 +++++
 include/parmcb/parmcb_sva_trees.hpp             |  3 +++
 include/parmcb/sptrees.hpp                      |  6 ++++++
 include/parmcb/spvecfp.hpp                      |  5 +++++
 include/parmcb/spvecgf2.hpp                     |  4 ++++
 include/parmcb/util.hpp                         |  8 ++++++++
 25 files changed, 117 insertions(+)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index e501da6..8c1cb37 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -12,6 +12,16 @@
 #include <algorithm>
 #include <functional>
 #include <numeric>
+#include <cstddef>
+#include <iostream>
+#include <iterator>
+#include <limits>
+#include <list>
+#include <map>
+#include <stdexcept>
+#include <tuple>
+#include <type_traits>
+#include <vector>
 
 #ifdef PARMCB_HAVE_TBB
 #include <tbb/parallel_for.h>
diff --git a/include/parmcb/detail/bfs.hpp b/include/parmcb/detail/bfs.hpp
index 3ec2bdb..ff3e7c3 100644
--- a/include/parmcb/detail/bfs.hpp
+++ b/include/parmcb/detail/bfs.hpp
@@ -8,6 +8,11 @@
 
 #include <iostream>
 #include <queue>
+#include <cstddef>
+#include <functional>
+#include <limits>
+#include <tuple>
+#include <vector>
 
 #include <boost/scoped_array.hpp>
 #include <boost/throw_exception.hpp>
diff --git a/include/parmcb/detail/cycles.hpp b/include/parmcb/detail/cycles.hpp
index 8e3e5d3..5d0209a 100644
--- a/include/parmcb/detail/cycles.hpp
+++ b/include/parmcb/detail/cycles.hpp
@@ -8,6 +8,11 @@
 
 #include <iostream>
 #include <map>
+#include <cstddef>
+#include <iterator>
+#include <memory>
+#include <utility>
+#include <vector>
 #include <parmcb/util.hpp>
 #include <parmcb/sptrees.hpp>
 #include <parmcb/detail/fvs.hpp>
diff --git a/include/parmcb/detail/dijkstra.hpp b/include/parmcb/detail/dijkstra.hpp
index 2f04d9c..21a736e 100644
--- a/include/parmcb/detail/dijkstra.hpp
+++ b/include/parmcb/detail/dijkstra.hpp
@@ -7,6 +7,10 @@
 //          https://www.boost.org/LICENSE_1_0.txt)
 
 #include <iostream>
+#include <cstddef>
+#include <functional>
+#include <tuple>
+#include <vector>
 
 #include <boost/scoped_array.hpp>
 #include <boost/throw_exception.hpp>
diff --git a/include/parmcb/detail/fvs.hpp b/include/parmcb/detail/fvs.hpp
index 0969d0f..5fa6f87 100644
--- a/include/parmcb/detail/fvs.hpp
+++ b/include/parmcb/detail/fvs.hpp
@@ -7,6 +7,10 @@
 //          https://www.boost.org/LICENSE_1_0.txt)
 
 #include <iostream>
+#include <cstddef>
+#include <deque>
+#include <map>
+#include <vector>
 
 #include <boost/scoped_array.hpp>
 #include <boost/throw_exception.hpp>
diff --git a/include/parmcb/detail/lex_dijkstra.hpp b/include/parmcb/detail/lex_dijkstra.hpp
index 5f5f543..22ee8ee 100644
--- a/include/parmcb/detail/lex_dijkstra.hpp
+++ b/include/parmcb/detail/lex_dijkstra.hpp
@@ -7,6 +7,13 @@
 //          https://www.boost.org/LICENSE_1_0.txt)
 
 #include <iostream>
+#include <algorithm>
+#include <cstddef>
+#include <iterator>
+#include <limits>
+#include <set>
+#include <tuple>
+#include <vector>
 
 #include <boost/scoped_array.hpp>
 #include <boost/throw_exception.hpp>
diff --git a/include/parmcb/detail/signed_dijkstra.hpp b/include/parmcb/detail/signed_dijkstra.hpp
index 6bf6180..3b0185b 100644
--- a/include/parmcb/detail/signed_dijkstra.hpp
+++ b/include/parmcb/detail/signed_dijkstra.hpp
@@ -7,6 +7,15 @@
 //          https://www.boost.org/LICENSE_1_0.txt)
 
 #include <iostream>
+#include <cassert>
+#include <cstddef>
+#include <functional>
+#include <limits>
+#include <ostream>
+#include <set>
+#include <tuple>
+#include <utility>
+#include <vector>
 
 #include <boost/scoped_array.hpp>
 #include <boost/throw_exception.hpp>
diff --git a/include/parmcb/detail/spanning_forest.hpp b/include/parmcb/detail/spanning_forest.hpp
index 56281dd..97253eb 100644
--- a/include/parmcb/detail/spanning_forest.hpp
+++ b/include/parmcb/detail/spanning_forest.hpp
@@ -9,6 +9,8 @@
 #include <map>
 #include <queue>
 #include <set>
+#include <cstddef>
+#include <unordered_set>
 
 #include <boost/graph/adjacency_list.hpp>
 
diff --git a/include/parmcb/detail/util.hpp b/include/parmcb/detail/util.hpp
index 67711f4..f140318 100644
--- a/include/parmcb/detail/util.hpp
+++ b/include/parmcb/detail/util.hpp
@@ -9,6 +9,7 @@
 #include <vector>
 #include <set>
 #include <map>
+#include <limits>
 
 #include <boost/graph/graph_traits.hpp>
 #include <boost/graph/graph_concepts.hpp>
diff --git a/include/parmcb/forestindex.hpp b/include/parmcb/forestindex.hpp
index 18f9655..4760d10 100644
--- a/include/parmcb/forestindex.hpp
+++ b/include/parmcb/forestindex.hpp
@@ -10,6 +10,8 @@
 #include <map>
 #include <queue>
 #include <set>
+#include <cstddef>
+#include <iterator>
 
 #include <boost/graph/graph_traits.hpp>
 #include <boost/graph/graph_concepts.hpp>
diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index 5e35149..d620ba6 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -6,6 +6,13 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <cassert>
+#include <cmath>
+#include <cstddef>
+#include <stdexcept>
+
+#include <parmcb/config.hpp>
+
 namespace parmcb {
 
 template<class T>
diff --git a/include/parmcb/mpi/parmcb_sva_signed.hpp b/include/parmcb/mpi/parmcb_sva_signed.hpp
index 2f25179..6122542 100644
--- a/include/parmcb/mpi/parmcb_sva_signed.hpp
+++ b/include/parmcb/mpi/parmcb_sva_signed.hpp
@@ -13,6 +13,13 @@
 #include <limits>
 #include <set>
 #include <vector>
+#include <algorithm>
+#include <cassert>
+#include <cmath>
+#include <list>
+#include <map>
+#include <tuple>
+#include <utility>
 
 #include <boost/graph/graph_traits.hpp>
 #include <boost/property_map/property_map.hpp>
diff --git a/include/parmcb/mpi/parmcb_sva_trees.hpp b/include/parmcb/mpi/parmcb_sva_trees.hpp
index e3762f8..1a3ce94 100644
--- a/include/parmcb/mpi/parmcb_sva_trees.hpp
+++ b/include/parmcb/mpi/parmcb_sva_trees.hpp
@@ -23,6 +23,11 @@
 #include <set>
 #include <vector>
 #include <cmath>
+#include <algorithm>
+#include <list>
+#include <map>
+#include <tuple>
+#include <utility>
 
 #include <parmcb/config.hpp>
 #include <parmcb/forestindex.hpp>
diff --git a/include/parmcb/mpi/sptrees.hpp b/include/parmcb/mpi/sptrees.hpp
index 96e85bf..4eb6723 100644
--- a/include/parmcb/mpi/sptrees.hpp
+++ b/include/parmcb/mpi/sptrees.hpp
@@ -6,6 +6,11 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <boost/mpl/bool.hpp>
+#include <boost/mpi/datatype_fwd.hpp>
+#include <boost/mpi/datatype.hpp>
+#include <boost/mpi/operations.hpp>
+
 #include <parmcb/sptrees.hpp>
 
 namespace boost {
diff --git a/include/parmcb/parmcb_approx_sva_signed.hpp b/include/parmcb/parmcb_approx_sva_signed.hpp
index b4e9ae5..cf29f0e 100644
--- a/include/parmcb/parmcb_approx_sva_signed.hpp
+++ b/include/parmcb/parmcb_approx_sva_signed.hpp
@@ -6,6 +6,8 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <cstddef>
+
 #include <parmcb/detail/approx_spanner.hpp>
 #include <parmcb/parmcb_sva_signed.hpp>
 
diff --git a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
index 0608afc..0292ffe 100644
--- a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
@@ -6,6 +6,8 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <cstddef>
+
 #include <parmcb/detail/approx_spanner.hpp>
 #include <parmcb/parmcb_sva_signed_tbb.hpp>
 
diff --git a/include/parmcb/parmcb_approx_sva_trees.hpp b/include/parmcb/parmcb_approx_sva_trees.hpp
index 1ca8cf4..0b58963 100644
--- a/include/parmcb/parmcb_approx_sva_trees.hpp
+++ b/include/parmcb/parmcb_approx_sva_trees.hpp
@@ -6,6 +6,8 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <cstddef>
+
 #include <parmcb/detail/approx_spanner.hpp>
 #include <parmcb/parmcb_sva_trees.hpp>
 
diff --git a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
index d541d8f..b91cecd 100644
--- a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
@@ -6,6 +6,8 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <cstddef>
+
 #include <parmcb/detail/approx_spanner.hpp>
 #include <parmcb/parmcb_sva_trees.hpp>
 
diff --git a/include/parmcb/parmcb_sva_signed.hpp b/include/parmcb/parmcb_sva_signed.hpp
index 67a37b8..55b5679 100644
--- a/include/parmcb/parmcb_sva_signed.hpp
+++ b/include/parmcb/parmcb_sva_signed.hpp
@@ -18,6 +18,11 @@
 #include <limits>
 #include <set>
 #include <vector>
+#include <algorithm>
+#include <cassert>
+#include <list>
+#include <tuple>
+#include <utility>
 
 #include <parmcb/config.hpp>
 #include <parmcb/detail/signed_dijkstra.hpp>
diff --git a/include/parmcb/parmcb_sva_signed_tbb.hpp b/include/parmcb/parmcb_sva_signed_tbb.hpp
index 5132ad6..629482d 100644
--- a/include/parmcb/parmcb_sva_signed_tbb.hpp
+++ b/include/parmcb/parmcb_sva_signed_tbb.hpp
@@ -13,6 +13,11 @@
 #include <limits>
 #include <set>
 #include <vector>
+#include <algorithm>
+#include <list>
+#include <map>
+#include <tuple>
+#include <utility>
 
 #include <boost/graph/graph_traits.hpp>
 #include <boost/property_map/property_map.hpp>
diff --git a/include/parmcb/parmcb_sva_trees.hpp b/include/parmcb/parmcb_sva_trees.hpp
index ed19dfd..93a99d9 100644
--- a/include/parmcb/parmcb_sva_trees.hpp
+++ b/include/parmcb/parmcb_sva_trees.hpp
@@ -18,6 +18,9 @@
 #include <limits>
 #include <set>
 #include <vector>
+#include <algorithm>
+#include <list>
+#include <tuple>
 
 #include <parmcb/config.hpp>
 #include <parmcb/forestindex.hpp>
diff --git a/include/parmcb/sptrees.hpp b/include/parmcb/sptrees.hpp
index 788f7ea..662c056 100644
--- a/include/parmcb/sptrees.hpp
+++ b/include/parmcb/sptrees.hpp
@@ -7,6 +7,12 @@
 //          https://www.boost.org/LICENSE_1_0.txt)
 
 #include <iostream>
+#include <cstddef>
+#include <limits>
+#include <set>
+#include <tuple>
+#include <type_traits>
+#include <vector>
 
 #include <boost/throw_exception.hpp>
 #include <boost/property_map/property_map.hpp>
diff --git a/include/parmcb/spvecfp.hpp b/include/parmcb/spvecfp.hpp
index 074cb0e..25db1fb 100644
--- a/include/parmcb/spvecfp.hpp
+++ b/include/parmcb/spvecfp.hpp
@@ -10,10 +10,15 @@
 #include <set>
 #include <iostream>
 #include <cassert>
+#include <cstddef>
+#include <ostream>
+#include <utility>
 
 #include <boost/tuple/tuple.hpp>
 #include <boost/serialization/vector.hpp>
 
+#include <parmcb/config.hpp>
+
 namespace parmcb {
 
 template<typename P>
diff --git a/include/parmcb/spvecgf2.hpp b/include/parmcb/spvecgf2.hpp
index 0cb4046..842dfd6 100644
--- a/include/parmcb/spvecgf2.hpp
+++ b/include/parmcb/spvecgf2.hpp
@@ -10,6 +10,10 @@
 #include <set>
 #include <iostream>
 #include <cassert>
+#include <algorithm>
+#include <iterator>
+#include <ostream>
+#include <utility>
 
 #include <boost/serialization/vector.hpp>
 
diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index f36923d..1e3caa7 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -9,6 +9,14 @@
 #include <vector>
 #include <set>
 #include <map>
+#include <algorithm>
+#include <cerrno>
+#include <cstddef>
+#include <cstdio>
+#include <cstring>
+#include <list>
+#include <system_error>
+#include <utility>
 
 #include <boost/graph/graph_traits.hpp>
 #include <boost/graph/graph_concepts.hpp>
-- 
2.43.0


From 09a376661caa485407da29b075e9e615f5318f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:03 +0000
Subject: [PATCH 15/27] fix: non-inline functions in headers break programs of
 several translation units

---
 include/parmcb/detail/signed_dijkstra.hpp | 2 +-
 include/parmcb/util.hpp                   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parmcb/detail/signed_dijkstra.hpp b/include/parmcb/detail/signed_dijkstra.hpp
index 3b0185b..bc633b6 100644
--- a/include/parmcb/detail/signed_dijkstra.hpp
+++ b/include/parmcb/detail/signed_dijkstra.hpp
@@ -31,7 +31,7 @@
 
 namespace std {
 
-    std::ostream& operator <<(std::ostream &out, const std::pair<unsigned long int, bool> &v) {
+    inline std::ostream& operator <<(std::ostream &out, const std::pair<unsigned long int, bool> &v) {
         out << v.first << (v.second ? "+" : "-");
         return out;
     }
diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index 1e3caa7..a8406f9 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -163,7 +163,7 @@ namespace parmcb {
     }
 
 #ifdef PARMCB_HAVE_TBB
-    void set_global_tbb_concurrency(const std::size_t hardware_concurrency_hint) {
+    inline void set_global_tbb_concurrency(const std::size_t hardware_concurrency_hint) {
 #if TBB_VERSION_MAJOR > 2020
     	oneapi::tbb::global_control global_limit(oneapi::tbb::global_control::max_allowed_parallelism, hardware_concurrency_hint);
 #else
-- 
2.43.0


From 1c15b6e28dc6df77b34ce02ca099959a7d1a1fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:46 +0000
Subject: [PATCH 16/27] fix: headers cannot be compiled without TBB

The TBB code of sptrees.hpp, approx_spanner.hpp and the *_tbb.hpp
headers was compiled even when PARMCB_HAVE_TBB is not defined, and
parmcb_sva_signed_tbb.hpp tested the macro before including config.hpp.
---
 include/parmcb/detail/approx_spanner.hpp        | 2 ++
 include/parmcb/mpi/parmcb_sva_trees.hpp         | 4 ++++
 include/parmcb/parmcb_approx_sva_signed_tbb.hpp | 5 +++++
 include/parmcb/parmcb_approx_sva_trees_tbb.hpp  | 5 +++++
 include/parmcb/parmcb_sva_signed_tbb.hpp        | 7 ++++++-
 include/parmcb/parmcb_sva_trees.hpp             | 4 ++++
 include/parmcb/sptrees.hpp                      | 2 ++
 7 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 8c1cb37..2aa202a 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -140,6 +140,7 @@ private:
         return total_weight;
     }
 
+#ifdef PARMCB_HAVE_TBB
     template<class CycleOutputIterator, bool is_tbb_enabled = ParallelUsingTBB>
     WeightType construct_cycles_for_non_spanner_edges(CycleOutputIterator out,
             typename std::enable_if<is_tbb_enabled>::type* = 0) {
@@ -236,6 +237,7 @@ private:
 
         return total_weight;
     }
+#endif
 
     const Graph &_g;
     const WeightMap &_weight_map;
diff --git a/include/parmcb/mpi/parmcb_sva_trees.hpp b/include/parmcb/mpi/parmcb_sva_trees.hpp
index 1a3ce94..8e7ac0c 100644
--- a/include/parmcb/mpi/parmcb_sva_trees.hpp
+++ b/include/parmcb/mpi/parmcb_sva_trees.hpp
@@ -226,12 +226,14 @@ namespace parmcb {
                 parmcb::detail::FVSCyclesBuilder<Graph, WeightMap>, false>(g, weight_map, out, world);
     }
 
+#ifdef PARMCB_HAVE_TBB
     template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type mcb_sva_fvs_trees_tbb_mpi(const Graph &g,
             WeightMap weight_map, CycleOutputIterator out, boost::mpi::communicator &world) {
         return _mcb_sva_trees_mpi<Graph, WeightMap, CycleOutputIterator,
                 parmcb::detail::FVSCyclesBuilder<Graph, WeightMap>, true>(g, weight_map, out, world);
     }
+#endif
 
     template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type mcb_sva_iso_trees_mpi(const Graph &g, WeightMap weight_map,
@@ -240,12 +242,14 @@ namespace parmcb {
                 parmcb::detail::ISOCyclesBuilder<Graph, WeightMap>, false>(g, weight_map, out, world);
     }
 
+#ifdef PARMCB_HAVE_TBB
     template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type mcb_sva_iso_trees_tbb_mpi(const Graph &g,
             WeightMap weight_map, CycleOutputIterator out, boost::mpi::communicator &world) {
         return _mcb_sva_trees_mpi<Graph, WeightMap, CycleOutputIterator,
                 parmcb::detail::ISOCyclesBuilder<Graph, WeightMap>, true>(g, weight_map, out, world);
     }
+#endif
 
 } // namespace mcb
 
diff --git a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
index 0292ffe..efd4581 100644
--- a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
@@ -8,9 +8,12 @@
 
 #include <cstddef>
 
+#include <parmcb/config.hpp>
 #include <parmcb/detail/approx_spanner.hpp>
 #include <parmcb/parmcb_sva_signed_tbb.hpp>
 
+#ifdef PARMCB_HAVE_TBB
+
 namespace parmcb {
 
 namespace detail {
@@ -36,4 +39,6 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_signed_tbb
 
 } // parmcb
 
+#endif // PARMCB_HAVE_TBB
+
 #endif
diff --git a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
index b91cecd..7196486 100644
--- a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
@@ -8,9 +8,12 @@
 
 #include <cstddef>
 
+#include <parmcb/config.hpp>
 #include <parmcb/detail/approx_spanner.hpp>
 #include <parmcb/parmcb_sva_trees.hpp>
 
+#ifdef PARMCB_HAVE_TBB
+
 namespace parmcb {
 
 namespace detail {
@@ -53,4 +56,6 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_iso_trees_
 
 } // parmcb
 
+#endif // PARMCB_HAVE_TBB
+
 #endif
diff --git a/include/parmcb/parmcb_sva_signed_tbb.hpp b/include/parmcb/parmcb_sva_signed_tbb.hpp
index 629482d..6d01f6d 100644
--- a/include/parmcb/parmcb_sva_signed_tbb.hpp
+++ b/include/parmcb/parmcb_sva_signed_tbb.hpp
@@ -24,6 +24,8 @@
 #include <boost/tuple/detail/tuple_basic.hpp>
 #include <boost/timer/timer.hpp>
 
+#include <parmcb/config.hpp>
+
 #ifdef PARMCB_HAVE_TBB
 #include <tbb/parallel_for.h>
 #include <tbb/parallel_reduce.h>
@@ -31,12 +33,13 @@
 #include <tbb/task_group.h>
 #endif
 
-#include <parmcb/config.hpp>
 #include <parmcb/detail/signed_dijkstra.hpp>
 #include <parmcb/forestindex.hpp>
 #include <parmcb/spvecgf2.hpp>
 #include <parmcb/util.hpp>
 
+#ifdef PARMCB_HAVE_TBB
+
 namespace parmcb {
 
     namespace detail {
@@ -290,4 +293,6 @@ namespace parmcb {
 
 } // namespace parmcb
 
+#endif // PARMCB_HAVE_TBB
+
 #endif
diff --git a/include/parmcb/parmcb_sva_trees.hpp b/include/parmcb/parmcb_sva_trees.hpp
index 93a99d9..d17a86a 100644
--- a/include/parmcb/parmcb_sva_trees.hpp
+++ b/include/parmcb/parmcb_sva_trees.hpp
@@ -141,12 +141,14 @@ namespace parmcb {
                 false>(g, weight_map, out);
     }
 
+#ifdef PARMCB_HAVE_TBB
     template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type mcb_sva_fvs_trees_tbb(const Graph &g, WeightMap weight_map,
             CycleOutputIterator out) {
         return _mcb_sva_trees<Graph, WeightMap, CycleOutputIterator, parmcb::detail::FVSCyclesBuilder<Graph, WeightMap>,
                 true>(g, weight_map, out);
     }
+#endif
 
     template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type mcb_sva_iso_trees(const Graph &g, WeightMap weight_map,
@@ -155,12 +157,14 @@ namespace parmcb {
                 false>(g, weight_map, out);
     }
 
+#ifdef PARMCB_HAVE_TBB
     template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type mcb_sva_iso_trees_tbb(const Graph &g, WeightMap weight_map,
             CycleOutputIterator out) {
         return _mcb_sva_trees<Graph, WeightMap, CycleOutputIterator, parmcb::detail::ISOCyclesBuilder<Graph, WeightMap>,
                 true>(g, weight_map, out);
     }
+#endif
 
 } // namespace parmcb
 
diff --git a/include/parmcb/sptrees.hpp b/include/parmcb/sptrees.hpp
index 662c056..45744f6 100644
--- a/include/parmcb/sptrees.hpp
+++ b/include/parmcb/sptrees.hpp
@@ -630,6 +630,7 @@ namespace parmcb {
             return min;
         }
 
+#ifdef PARMCB_HAVE_TBB
         template<bool is_tbb_enabled = ParallelUsingTBB>
         std::tuple<std::set<Edge>, WeightType, bool> compute_shortest_odd_cycle(const std::set<Edge> &edges,
                 typename std::enable_if<is_tbb_enabled>::type* = 0) {
@@ -675,6 +676,7 @@ namespace parmcb {
                     },
                     cycle_min);
         }
+#endif
 
         const Graph &g;
         const WeightMap &weight_map;
-- 
2.43.0


From b2bb885dbb8f8ce7c02f3def795cc9a6b0338618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 17/27] fix: the MPI headers cannot be included when MPI (or
 TBB) is disabled

---
 include/parmcb/mpi/parmcb_sva_signed.hpp | 7 ++++++-
 include/parmcb/mpi/parmcb_sva_trees.hpp  | 7 ++++++-
 include/parmcb/mpi/sptrees.hpp           | 6 ++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/parmcb/mpi/parmcb_sva_signed.hpp b/include/parmcb/mpi/parmcb_sva_signed.hpp
index 6122542..2ec85d6 100644
--- a/include/parmcb/mpi/parmcb_sva_signed.hpp
+++ b/include/parmcb/mpi/parmcb_sva_signed.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <parmcb/config.hpp>
+
+#if defined(PARMCB_HAVE_MPI) && defined(PARMCB_HAVE_TBB)
+
 #include <cstddef>
 #include <functional>
 #include <iostream>
@@ -34,7 +38,6 @@
 #include <tbb/parallel_for.h>
 #include <tbb/parallel_reduce.h>
 
-#include <parmcb/config.hpp>
 #include <parmcb/detail/signed_dijkstra.hpp>
 #include <parmcb/mpi/sptrees.hpp>
 #include <parmcb/forestindex.hpp>
@@ -306,4 +309,6 @@ namespace parmcb {
 
 } // namespace parmcb
 
+#endif // PARMCB_HAVE_MPI && PARMCB_HAVE_TBB
+
 #endif
diff --git a/include/parmcb/mpi/parmcb_sva_trees.hpp b/include/parmcb/mpi/parmcb_sva_trees.hpp
index 8e7ac0c..0bcf144 100644
--- a/include/parmcb/mpi/parmcb_sva_trees.hpp
+++ b/include/parmcb/mpi/parmcb_sva_trees.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <parmcb/config.hpp>
+
+#ifdef PARMCB_HAVE_MPI
+
 #include <boost/graph/graph_traits.hpp>
 #include <boost/property_map/property_map.hpp>
 #include <boost/tuple/detail/tuple_basic.hpp>
@@ -29,7 +33,6 @@
 #include <tuple>
 #include <utility>
 
-#include <parmcb/config.hpp>
 #include <parmcb/forestindex.hpp>
 #include <parmcb/spvecgf2.hpp>
 #include <parmcb/detail/fvs.hpp>
@@ -253,4 +256,6 @@ namespace parmcb {
 
 } // namespace mcb
 
+#endif // PARMCB_HAVE_MPI
+
 #endif
diff --git a/include/parmcb/mpi/sptrees.hpp b/include/parmcb/mpi/sptrees.hpp
index 4eb6723..72c636b 100644
--- a/include/parmcb/mpi/sptrees.hpp
+++ b/include/parmcb/mpi/sptrees.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <parmcb/config.hpp>
+
+#ifdef PARMCB_HAVE_MPI
+
 #include <boost/mpl/bool.hpp>
 #include <boost/mpi/datatype_fwd.hpp>
 #include <boost/mpi/datatype.hpp>
@@ -28,4 +32,6 @@ namespace boost {
     }
 }
 
+#endif // PARMCB_HAVE_MPI
+
 #endif
-- 
2.43.0


From d27b05aa968008a95ad1c7f0b479ffcecfa977b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 18/27] fix: trees and spanner algorithms refer to a vertex
 index map that no longer exists

SPTree and BaseApproxSpannerAlgorithm kept a reference to the temporary
that boost::get(vertex_index, g) returns in their callers; keep the
(cheap to copy) map itself.
---
 include/parmcb/detail/approx_spanner.hpp | 2 +-
 include/parmcb/sptrees.hpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 2aa202a..c678c8d 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -321,7 +321,7 @@ private:
     const Graph &_g;
     const WeightMap &_weight_map;
     const std::size_t _k;
-    const VertexIndexMapType &_index_map;
+    const VertexIndexMapType _index_map;
     std::vector<Vertex> _vertex_g_to_spanner_vec;
     const boost::function_property_map<
             parmcb::detail::VertexIndexFunctor<Graph, Vertex>, Vertex, Vertex&> _vertex_g_to_spanner;
diff --git a/include/parmcb/sptrees.hpp b/include/parmcb/sptrees.hpp
index 45744f6..068d794 100644
--- a/include/parmcb/sptrees.hpp
+++ b/include/parmcb/sptrees.hpp
@@ -263,7 +263,7 @@ namespace parmcb {
         const std::size_t _id;
         const Graph &_g;
         const WeightMap &_weight_map;
-        const VertexIndexMapType &_index_map;
+        const VertexIndexMapType _index_map;
         const Vertex _source;
 
         /*
-- 
2.43.0


From 65561502e3c37960528888e82e1be8aca39f94ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 19/27] fix: MPI ranks order the signed edges by memory address

mcb_sva_signed_mpi slices the signed edges among the ranks in the order of
a std::set of edge descriptors, which compares addresses. Ranks with a
different heap layout process some edges twice and others never, and the
result is not minimum. Order the edges by their forest index, which is the
same everywhere.
---
 include/parmcb/mpi/parmcb_sva_signed.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/parmcb/mpi/parmcb_sva_signed.hpp b/include/parmcb/mpi/parmcb_sva_signed.hpp
index 2ec85d6..ca6bb4a 100644
--- a/include/parmcb/mpi/parmcb_sva_signed.hpp
+++ b/include/parmcb/mpi/parmcb_sva_signed.hpp
@@ -101,13 +101,16 @@ namespace parmcb {
                  * Heuristic in case number of signed edges is small compared to the number of vertices.
                  */
                 std::map<Edge, std::set<Edge>> hidden_edges_per_edge;
-                std::vector<Edge> signed_edges_as_vector;
+                // the order in a set of edges depends on memory addresses, all processes must use the same
+                std::vector<Edge> signed_edges_as_vector(signed_edges.begin(), signed_edges.end());
+                std::sort(signed_edges_as_vector.begin(), signed_edges_as_vector.end(),
+                        [&forest_index](const Edge &e1, const Edge &e2) {
+                            return forest_index(e1) < forest_index(e2);
+                        });
                 std::set<Edge> tmp_signed_edges = signed_edges;
-                while (!tmp_signed_edges.empty()) {
-                    auto bit = tmp_signed_edges.begin();
-                    hidden_edges_per_edge.insert(std::make_pair(*bit, tmp_signed_edges));
-                    signed_edges_as_vector.push_back(*bit);
-                    tmp_signed_edges.erase(bit);
+                for (const Edge &e : signed_edges_as_vector) {
+                    hidden_edges_per_edge.insert(std::make_pair(e, tmp_signed_edges));
+                    tmp_signed_edges.erase(e);
                 }
 
                 std::vector<Edge> local_signed_edges_as_vector;
-- 
2.43.0


From 3fb188c11eb31653e940caad0a433a72155cd8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 20/27] fix: the weight of a default constructed
 SerializableMinOddCycle is uninitialised

Every rank other than the root copies it after the reduction.
---
 include/parmcb/sptrees.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parmcb/sptrees.hpp b/include/parmcb/sptrees.hpp
index 068d794..84348ce 100644
--- a/include/parmcb/sptrees.hpp
+++ b/include/parmcb/sptrees.hpp
@@ -424,7 +424,7 @@ namespace parmcb {
         typedef typename boost::property_traits<WeightMap>::value_type WeightType;
 
         SerializableMinOddCycle() :
-                exists(false) {
+                weight(WeightType()), exists(false) {
         }
 
         SerializableMinOddCycle(std::vector<Edge> edges, WeightType weight, bool exists) :
-- 
2.43.0


From c3932904c42e9b7f0f708b8174b1644c43437e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 21/27] fix: set_global_tbb_concurrency has no effect after it
 returns

The tbb::global_control object was a local variable, the limit ended with
the call. Keep it until the next call.
---
 include/parmcb/util.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index a8406f9..af64d97 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -15,6 +15,7 @@
 #include <cstdio>
 #include <cstring>
 #include <list>
+#include <memory>
 #include <system_error>
 #include <utility>
 
@@ -164,10 +165,15 @@ namespace parmcb {
 
 #ifdef PARMCB_HAVE_TBB
     inline void set_global_tbb_concurrency(const std::size_t hardware_concurrency_hint) {
+        // the limit is in force only as long as the object is alive
 #if TBB_VERSION_MAJOR > 2020
-    	oneapi::tbb::global_control global_limit(oneapi::tbb::global_control::max_allowed_parallelism, hardware_concurrency_hint);
+        static std::unique_ptr<oneapi::tbb::global_control> global_limit;
+        global_limit.reset();
+        global_limit.reset(new oneapi::tbb::global_control(oneapi::tbb::global_control::max_allowed_parallelism, hardware_concurrency_hint));
 #else
-    	tbb::task_scheduler_init init(hardware_concurrency_hint);
+        static std::unique_ptr<tbb::task_scheduler_init> init;
+        init.reset();
+        init.reset(new tbb::task_scheduler_init(hardware_concurrency_hint));
 #endif
     }
 #endif
-- 
2.43.0


From 32f9d4482466fd671001f48f34bff5086677d043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:17 +0000
Subject: [PATCH 22/27] fix: demos honour --cores only together with --verbose

---
 src/approx-mcb-dimacs.cpp | 6 ++++--
 src/mcb-dimacs.cpp        | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/approx-mcb-dimacs.cpp b/src/approx-mcb-dimacs.cpp
index 34b6ab1..c4934ba 100644
--- a/src/approx-mcb-dimacs.cpp
+++ b/src/approx-mcb-dimacs.cpp
@@ -112,8 +112,10 @@ int main(int argc, char *argv[]) {
         if (cores == 0) {
             cores = boost::thread::hardware_concurrency();
         }
-        if (vm["verbose"].as<bool>() && vm["parallel"].as<bool>()) {
-            std::cout << "Using cores: " << cores << std::endl;
+        if (vm["parallel"].as<bool>()) {
+            if (vm["verbose"].as<bool>()) {
+                std::cout << "Using cores: " << cores << std::endl;
+            }
             parmcb::set_global_tbb_concurrency(cores);
         }
     }
diff --git a/src/mcb-dimacs.cpp b/src/mcb-dimacs.cpp
index f2df810..47f4ad5 100644
--- a/src/mcb-dimacs.cpp
+++ b/src/mcb-dimacs.cpp
@@ -101,8 +101,10 @@ int main(int argc, char *argv[]) {
         if (cores == 0) {
             cores = boost::thread::hardware_concurrency();
         }
-        if (vm["verbose"].as<bool>() && vm["parallel"].as<bool>()) {
-            std::cout << "Using cores: " << cores << std::endl;
+        if (vm["parallel"].as<bool>()) {
+            if (vm["verbose"].as<bool>()) {
+                std::cout << "Using cores: " << cores << std::endl;
+            }
             parmcb::set_global_tbb_concurrency(cores);
         }
     }
-- 
2.43.0


From d27dc03eb08023b45a4d6701ab17e981584f4cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:58 +0000
Subject: [PATCH 23/27] fix: the MPI demo rejects bad input on rank 0 only and
 leaves the other ranks waiting

---
 src/mcb-dimacs-mpi.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/mcb-dimacs-mpi.cpp b/src/mcb-dimacs-mpi.cpp
index 5925589..3af2128 100644
--- a/src/mcb-dimacs-mpi.cpp
+++ b/src/mcb-dimacs-mpi.cpp
@@ -92,20 +92,27 @@ int main(int argc, char *argv[]) {
     parmcb::read_dimacs_from_file(fp, graph);
     fclose(fp);
 
-    if (world.rank() == 0) {
-        if (parmcb::has_loops(graph)) {
+    // every process has read the graph, all of them have to give up together
+    if (parmcb::has_loops(graph)) {
+        if (world.rank() == 0) {
             std::cerr << "Graph has loops, aborting.." << std::endl;
-            return EXIT_FAILURE;
         }
-        if (parmcb::has_multiple_edges(graph)) {
+        return EXIT_FAILURE;
+    }
+    if (parmcb::has_multiple_edges(graph)) {
+        if (world.rank() == 0) {
             std::cerr << "Graph has multiple edges, aborting.." << std::endl;
-            return EXIT_FAILURE;
         }
-        if (parmcb::has_non_positive_weights(graph, get(boost::edge_weight, graph))) {
+        return EXIT_FAILURE;
+    }
+    if (parmcb::has_non_positive_weights(graph, get(boost::edge_weight, graph))) {
+        if (world.rank() == 0) {
             std::cerr << "Graph has negative or zero weight edges, aborting.." << std::endl;
-            return EXIT_FAILURE;
         }
+        return EXIT_FAILURE;
+    }
 
+    if (world.rank() == 0) {
         std::cout << "Graph has " << num_vertices(graph) << " vertices" << std::endl;
         std::cout << "Graph has " << num_edges(graph) << " edges" << std::endl;
         std::cout << std::flush;
-- 
2.43.0


From 2620cd2c68f6f8600552ec0433f62920dc4696ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:17 +0000
Subject: [PATCH 24/27] fix: tree variants lose cycles when rounding makes the
 two directions of a path compare differently

---
 include/parmcb/detail/lex_dijkstra.hpp | 48 ++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/include/parmcb/detail/lex_dijkstra.hpp b/include/parmcb/detail/lex_dijkstra.hpp
index 22ee8ee..66759c0 100644
--- a/include/parmcb/detail/lex_dijkstra.hpp
+++ b/include/parmcb/detail/lex_dijkstra.hpp
@@ -8,11 +8,13 @@
 
 #include <iostream>
 #include <algorithm>
+#include <cmath>
 #include <cstddef>
 #include <iterator>
 #include <limits>
 #include <set>
 #include <tuple>
+#include <type_traits>
 #include <vector>
 
 #include <boost/scoped_array.hpp>
@@ -37,14 +39,20 @@ namespace parmcb {
             typedef typename boost::property_traits<DistanceMap>::value_type DistanceType;
 
             LexDistance() :
-                    distance(DistanceType()), edge_count(0), vertex_indices() {
+                    distance(DistanceType()), remainder(DistanceType()), edge_count(0), vertex_indices() {
             }
 
-            LexDistance(DistanceType distance, std::size_t edge_count, std::set<std::size_t> vertex_indices) :
-                    distance(distance), edge_count(edge_count), vertex_indices(vertex_indices) {
+            LexDistance(DistanceType distance, DistanceType remainder, std::size_t edge_count,
+                    std::set<std::size_t> vertex_indices) :
+                    distance(distance), remainder(remainder), edge_count(edge_count), vertex_indices(vertex_indices) {
             }
 
             DistanceType distance;
+            /*
+             * What rounding took away from the distance. Paths of equal length have to compare equal, no
+             * matter in which order (e.g. from which end) their weights are added up.
+             */
+            DistanceType remainder;
             std::size_t edge_count;
             std::set<std::size_t> vertex_indices;
         };
@@ -60,6 +68,12 @@ namespace parmcb {
                 if (a.distance > b.distance) {
                     return false;
                 }
+                if (a.remainder < b.remainder) {
+                    return true;
+                }
+                if (a.remainder > b.remainder) {
+                    return false;
+                }
                 if (a.edge_count < b.edge_count) {
                     return true;
                 }
@@ -114,13 +128,35 @@ namespace parmcb {
                 const auto index_source = index_map[boost::source(e, g)];
 
                 const WeightType e_weight = boost::get(weight_map, e);
-                const WeightType sum = combine(a.distance, e_weight);
+                DistanceType sum = combine(a.distance, e_weight);
+                DistanceType remainder = a.remainder;
+                carry_rounding_error(a.distance, e_weight, sum, remainder, std::is_floating_point<DistanceType>());
 
                 std::set<std::size_t> vertex_indices = a.vertex_indices;
                 vertex_indices.insert(index_target);
                 vertex_indices.insert(index_source);
 
-                return LexDistance<Graph, DistanceMap>(sum, a.edge_count + 1, vertex_indices);
+                return LexDistance<Graph, DistanceMap>(sum, remainder, a.edge_count + 1, vertex_indices);
+            }
+
+            /*
+             * Keep sum + remainder equal to the unrounded distance, with |remainder| at most half an ulp of sum.
+             */
+            static void carry_rounding_error(const DistanceType &a, const DistanceType &b, DistanceType &sum,
+                    DistanceType &remainder, std::true_type) {
+                if (!std::isfinite(sum)) {
+                    remainder = DistanceType();
+                    return;
+                }
+                const DistanceType b_part = sum - a;
+                remainder += (a - (sum - b_part)) + (b - b_part);
+                const DistanceType total = sum + remainder;
+                remainder -= total - sum;
+                sum = total;
+            }
+
+            static void carry_rounding_error(const DistanceType&, const DistanceType&, DistanceType&, DistanceType&,
+                    std::false_type) {
             }
 
             const DistanceType inf;
@@ -166,7 +202,7 @@ namespace parmcb {
 
         VertexQueue queue(lex_dist_map, index_in_heap_map, compare);
 
-        boost::put(lex_dist_map, s, LexDistanceType(DistanceType(), 0, std::set<std::size_t>({ index_map[s] })));
+        boost::put(lex_dist_map, s, LexDistanceType(DistanceType(), DistanceType(), 0, std::set<std::size_t>({ index_map[s] })));
         boost::put(pred_map, s, std::make_tuple(false, Edge()));
         queue.push(s);
 
-- 
2.43.0


From a9f8982e65f93731db47e95516bd82af010db4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:34 +0000
Subject: [PATCH 25/27] Revert "fix: read_dimacs_from_file parses the tail of a
 long line as a line of its own"

This reverts commit a005ea34ac439c82ff1f6101c3340eeea597a124.
---
 include/parmcb/util.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index af64d97..2dbaf50 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -128,12 +128,6 @@ namespace parmcb {
         typename boost::property_map<Graph, boost::edge_weight_t>::type weight = get(boost::edge_weight, graph);
 
         while (fgets(buffer, sizeof(buffer), fp) != NULL) {
-            if (strchr(buffer, '\n') == NULL) {
-                // the rest of a longer line is not a line of its own
-                int c;
-                while ((c = fgetc(fp)) != EOF && c != '\n')
-                    ;
-            }
             buffer[strcspn(buffer, "\n")] = '\0'; // eat the newline, if there is one
             if (buffer[0] == 'c' || buffer[0] == '#') {
                 continue;
-- 
2.43.0


From f3506f3ff9207d06926a42bd47b1d459b8021426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:34 +0000
Subject: [PATCH 26/27] Revert "fix: has_multiple_edges takes a single
 self-loop for a repeated edge"

This reverts commit 1bb3807abb0562827f97faeeacb292e6ca573997.
---
 include/parmcb/util.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index 2dbaf50..2b00334 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -54,18 +54,18 @@ namespace parmcb {
     bool has_multiple_edges(const Graph &g) {
         typedef typename boost::graph_traits<Graph>::vertex_descriptor Vertex;
 
-        // look at every edge once, an undirected loop is listed twice among the out edges of its vertex
-        std::set<std::pair<Vertex, Vertex>> pairs;
-        auto eRange = boost::edges(g);
-        for (auto eit = eRange.first; eit != eRange.second; ++eit) {
-            auto e = *eit;
-            auto v = boost::source(e, g);
-            auto u = boost::target(e, g);
-            if (boost::is_undirected(g) && u < v) {
-                std::swap(u, v);
-            }
-            if (!pairs.insert(std::make_pair(v, u)).second) {
-                return true;
+        auto vRange = boost::vertices(g);
+        for (auto vit = vRange.first; vit != vRange.second; ++vit) {
+            auto v = *vit;
+            std::set<Vertex> neighbors;
+
+            auto eRange = boost::out_edges(v, g);
+            for (auto eit = eRange.first; eit != eRange.second; ++eit) {
+                auto e = *eit;
+                auto u = boost::opposite(e, v, g);
+                if (!neighbors.insert(u).second) {
+                    return true;
+                }
             }
         }
         return false;
-- 
2.43.0


From 7f730f788e28925a97582eb85ef46788155cdea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 27/27] fix: closed_plus overflows on sums of integer distances
 beyond the type's maximum

Relaxing back along a tree edge, or a walk of the signed graph that uses a
bridge twice, adds up to more than any path or cycle of the graph weighs, so
int weights whose path and cycle sums all fit still overflowed. Such a sum is
beyond every path; treat it as infinity.
---
 include/parmcb/detail/util.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/parmcb/detail/util.hpp b/include/parmcb/detail/util.hpp
index f140318..a1c496d 100644
--- a/include/parmcb/detail/util.hpp
+++ b/include/parmcb/detail/util.hpp
@@ -40,6 +40,8 @@ namespace parmcb {
                     return inf;
                 if (b == inf)
                     return inf;
+                if (a > T() && b > inf - a)
+                    return inf;
                 return a + b;
             }
         };
-- 
2.43.0

