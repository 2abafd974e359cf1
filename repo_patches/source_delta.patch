From 85a1f96c2b9eca3975d651e96e150d093efad12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 01/16] fix: ell: parallel cut symmetric about the centre (b0
 == -b1) no longer yields NaN

The closed form for sigma divided 0 by 0 when the two cuts are symmetric
about the centre, or when both pass through it.  Use the equivalent form
that has no such division.
---
 lib/src/ell.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/src/ell.cpp b/lib/src/ell.cpp
index 7f57f1f..40100b9 100644
--- a/lib/src/ell.cpp
+++ b/lib/src/ell.cpp
@@ -50,8 +50,11 @@ auto ell::_calc_ll_core(const double& b0, const double& b1) -> CUTStatus
     const auto bav = bsum / 2.;
     const auto tempn = this->_halfN * bsumn * bdiff;
     const auto xi = std::sqrt(t0n * t1n + tempn * tempn);
-    this->_sigma =
-        this->_c3 + (1. + b0b1n - xi) / (bsumn * bav) / this->_nPlus1;
+    // (1 + b0b1n - xi) / (bsumn * bav), without 0/0 when b0 == -b1
+    const auto tdiff = this->_halfN * bdiff;
+    const auto tdiffn = tdiff * (tdiff / this->_tsq);
+    this->_sigma = this->_c3 +
+        2. * (1. - tdiffn) / (1. + b0b1n + xi) / this->_nPlus1;
     this->_rho = this->_sigma * bav;
     this->_delta = this->_c1 * ((t0n + t1n) / 2. + xi / this->_nFloat);
     return CUTStatus::success;
@@ -68,7 +71,9 @@ void ell::_calc_ll_cc(const double& b1, const double& b1sqn)
 {
     const auto temp = this->_halfN * b1sqn;
     const auto xi = std::sqrt(1. - b1sqn + temp * temp);
-    this->_sigma = this->_c3 + this->_c2 * (1. - xi) / b1sqn;
+    // (1 - xi) / b1sqn, without 0/0 when b1 == 0
+    this->_sigma = this->_c3 +
+        this->_c2 * (1. - this->_halfN * temp) / (1. + xi);
     this->_rho = this->_sigma * b1 / 2;
     this->_delta = this->_c1 * (1. - b1sqn / 2. + xi / this->_nFloat);
 }
-- 
2.43.0


From fabc81df6615c21f82d655af87ffb8c596b457d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:26 +0000
Subject: [PATCH 02/16] fix: cutting_plane_q: ask the oracle for an alternative
 cut after a cut without effect

status was never set to noeffect, so retry was always false and the same
cut was requested again until the iteration limit.
---
 lib/include/ellcpp/cutting_plane.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index 56d5bc9..a2f4aa1 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -141,11 +141,11 @@ auto cutting_plane_q(
     const auto t_orig = t;
     decltype(S.xc()) x_best;
     auto status = CUTStatus::nosoln; // note!!!
+    auto retry = false;
 
     auto niter = 0U;
     while (++niter != options.max_it)
     {
-        auto retry = (status == CUTStatus::noeffect);
         const auto [cut, x0, shrunk, more_alt] = Omega(S.xc(), t, retry);
         if (shrunk)
         { // best t obtained
@@ -153,7 +153,8 @@ auto cutting_plane_q(
             x_best = x0;
         }
         const auto [cutstatus, tsq] = S.update(cut);
-        if (cutstatus == CUTStatus::noeffect)
+        retry = (cutstatus == CUTStatus::noeffect);
+        if (retry)
         {
             if (!more_alt)
             {
-- 
2.43.0


From 73d4c834a15061a8a32c3f9e89a3d0286a348f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:35 +0000
Subject: [PATCH 03/16] fix: cutting_plane: an iteration limit of zero no
 longer wraps around to 2^32 iterations

---
 lib/include/ellcpp/cutting_plane.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index a2f4aa1..156c857 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -39,7 +39,7 @@ auto cutting_plane_feas(
     auto status = CUTStatus::success;
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         const auto cut = Omega(S.xc()); // query the oracle at S.xc()
         if (!cut)
@@ -83,7 +83,7 @@ auto cutting_plane_dc(
     auto status = CUTStatus::success;
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         const auto [cut, shrunk] = Omega(S.xc(), t);
         if (shrunk)
@@ -144,7 +144,7 @@ auto cutting_plane_q(
     auto retry = false;
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         const auto [cut, x0, shrunk, more_alt] = Omega(S.xc(), t, retry);
         if (shrunk)
-- 
2.43.0


From b42d5f8d358fa95e5d3a0eaf12da23ef8493a6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:41 +0000
Subject: [PATCH 04/16] fix: qmi_oracle gradient uses the columns of F(k), not
 its rows

---
 lib/src/qmi_oracle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/qmi_oracle.cpp b/lib/src/qmi_oracle.cpp
index 79b7285..77ad64a 100644
--- a/lib/src/qmi_oracle.cpp
+++ b/lib/src/qmi_oracle.cpp
@@ -53,8 +53,8 @@ std::optional<Cut> qmi_oracle::operator()(const Arr& x)
     auto g = zeros({this->_nx});
     for (auto k = 0U; k != this->_nx; ++k)
     {
-        const auto Fkp = ROW(this->_F[k], xt::range(start, stop));
-        g(k) = -2 * dot(dot(v, Fkp), Av)();
+        const Arr Fkp = COLUMN(this->_F[k], xt::range(start, stop));
+        g(k) = -2 * dot(dot(Fkp, v), Av)();
     }
     return {{std::move(g), ep}};
 }
-- 
2.43.0


From 1c5cf8703431a1f2891277121585e41dcd178826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:24 +0000
Subject: [PATCH 05/16] fix: Fraction: keep the denominator positive after
 construction, reciprocal and /=

---
 lib/include/py2cpp/fractions.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/include/py2cpp/fractions.hpp b/lib/include/py2cpp/fractions.hpp
index c3686e5..061c10b 100644
--- a/lib/include/py2cpp/fractions.hpp
+++ b/lib/include/py2cpp/fractions.hpp
@@ -79,15 +79,15 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
     constexpr void normalize()
     {
         auto common = gcd(this->_numerator, this->_denominator);
-        if (common == Z(1))
-        {
-            return;
-        }
         // if (common == Z(0)) [[unlikely]] return; // both num and den are zero
         if (this->_denominator < Z(0))
         {
             common = -common;
         }
+        if (common == Z(1))
+        {
+            return;
+        }
         this->_numerator /= common;
         this->_denominator /= common;
     }
@@ -151,6 +151,16 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
     constexpr void reciprocal()
     {
         std::swap(_numerator, _denominator);
+        this->keep_denominator_positive();
+    }
+
+    constexpr void keep_denominator_positive()
+    {
+        if (_denominator < Z(0))
+        {
+            _numerator = -_numerator;
+            _denominator = -_denominator;
+        }
     }
 
     /*!
@@ -379,6 +389,7 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
             this->_denominator *= (i / common);
             this->_numerator /= common;
         }
+        this->keep_denominator_positive();
         return *this;
     }
 
-- 
2.43.0


From 0b4a472a6ea1596add46a78d4fec96527a0c4794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:21 +0000
Subject: [PATCH 06/16] fix: csd: a number between 2/3 and 1 needs a leading
 digit to be canonical

---
 lib/src/csd.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/csd.cpp b/lib/src/csd.cpp
index 86f9775..c2a0b8b 100644
--- a/lib/src/csd.cpp
+++ b/lib/src/csd.cpp
@@ -22,8 +22,8 @@ auto to_csd(double num, int places = 0) noexcept -> string
         return "0";
     }
     auto absnum = fabs(num);
-    auto n = absnum < 1. ? 0 : int(ceil(log2(absnum * 1.5)));
-    auto csd_str = string {absnum < 1. ? "0" : ""};
+    auto n = absnum * 1.5 <= 1. ? 0 : int(ceil(log2(absnum * 1.5)));
+    auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
     while (n > -places)
     {
@@ -108,8 +108,8 @@ auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> string
         return "0";
     }
     auto an = fabs(num);
-    auto n = an < 1. ? 0 : int(ceil(log2(an * 1.5)));
-    auto csd_str = string {an < 1. ? "0" : ""};
+    auto n = an * 1.5 <= 1. ? 0 : int(ceil(log2(an * 1.5)));
+    auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
     while (n > 0 || nnz > 0)
     {
-- 
2.43.0


From 7057dae25f17bcfc6b6ad9d6ee760a674d68e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:35 +0000
Subject: [PATCH 07/16] fix: csd: to_csdfixed stops once the number is
 exhausted, and with no non-zero digits allowed

---
 lib/src/csd.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/csd.cpp b/lib/src/csd.cpp
index c2a0b8b..6cbac74 100644
--- a/lib/src/csd.cpp
+++ b/lib/src/csd.cpp
@@ -111,8 +111,12 @@ auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> string
     auto n = an * 1.5 <= 1. ? 0 : int(ceil(log2(an * 1.5)));
     auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
-    while (n > 0 || nnz > 0)
+    while (n > 0 || (nnz > 0 && num != 0.))
     {
+        if (nnz == 0)
+        {
+            num = 0.;
+        }
         if (n == 0)
         {
             csd_str += '.';
@@ -135,10 +139,6 @@ auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> string
             csd_str += '0';
         }
         limit /= 2.;
-        if (nnz == 0)
-        {
-            num = 0;
-        }
     }
     return csd_str;
 }
-- 
2.43.0


From 626c7035e6c0567c8d5cfe2bb2713a547763667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:26 +0000
Subject: [PATCH 08/16] fix: ell_stable: a cut that leaves the ellipsoid as it
 is no longer divides by zero

---
 lib/src/ell_stable.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/ell_stable.cpp b/lib/src/ell_stable.cpp
index 8ba9199..0305264 100644
--- a/lib/src/ell_stable.cpp
+++ b/lib/src/ell_stable.cpp
@@ -69,6 +69,12 @@ auto ell_stable::update(const std::tuple<Arr, T>& cut) -> std::tuple<CUTStatus,
     // calculate xc: n
     this->_xc -= (this->_rho / omega) * Qg;
 
+    if (this->_sigma == 0.)
+    { // the ellipsoid keeps its shape
+        this->_kappa *= this->_delta;
+        return {status, this->_tsq};
+    }
+
     // rank-one update: 3*n + (n-1)*n/2
     // const auto r = this->_sigma / omega;
     const auto mu = this->_sigma / (1. - this->_sigma);
-- 
2.43.0


From 7c635ec34bab004a36db2a1821c6755d476a9158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 09/16] fix: xnetwork: adding an edge that is there already
 does not count it again

---
 lib/include/xnetwork/classes/graph.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index d3eb9db..500f1f0 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -625,9 +625,9 @@ class Graph : public object
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
         // set
+        this->_num_of_edges += this->_adj[u].contains(v) ? 0 : 1;
         this->_adj[u].insert(v);
         this->_adj[v].insert(u);
-        this->_num_of_edges += 1;
     }
 
     template <typename U = key_type>
@@ -642,10 +642,10 @@ class Graph : public object
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
         using T = typename adjlist_t::mapped_type;
+        this->_num_of_edges += this->_adj[u].contains(v) ? 0 : 1;
         auto data = this->_adj[u].get(v, T {});
         this->_adj[u][v] = data;
         this->_adj[v][u] = data; // ???
-        this->_num_of_edges += 1;
     }
 
     template <typename T>
@@ -653,9 +653,9 @@ class Graph : public object
     {
         assert(this->_node.contains(u));
         assert(this->_node.contains(v));
+        this->_num_of_edges += this->_adj[u].contains(v) ? 0 : 1;
         this->_adj[u][v] = data;
         this->_adj[v][u] = data;
-        this->_num_of_edges += 1;
     }
 
     template <typename C1, typename C2>
-- 
2.43.0


From 657a0b604fece901e5f66095828c9e582688c1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 10/16] fix: xnetwork: a moved DiGraphS refers to its own
 successors

---
 lib/include/xnetwork/classes/digraphs.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index ddd3260..ca49f65 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -242,6 +242,12 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     {
     }
 
+    DiGraphS(DiGraphS&& other) noexcept
+        : _Base {std::move(other)}
+        , _succ {_Base::_adj}
+    {
+    }
+
     /// @property
     /*! DiGraphS adjacency object holding the neighbors of each node.
 
-- 
2.43.0


From 6e0e8606dde0e7768937a104d46437f297e4b04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 11/16] fix: xnetwork: adding an arc that is there already does
 not count it again

---
 lib/include/xnetwork/classes/digraphs.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index ca49f65..4fc901b 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -349,9 +349,9 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
         // add the edge
         // datadict = this->_adj[u].get(v, this->edge_attr_dict_factory());
         // datadict.update(attr);
+        this->_num_of_edges += this->_succ[u].contains(v) ? 0 : 1;
         this->_succ[u].insert(v);
         // this->_prev[v].insert(u);
-        this->_num_of_edges += 1;
     }
 
     template <typename U = key_type>
@@ -367,9 +367,9 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
         // datadict.update(attr);
         using T = typename adjlist_t::mapped_type;
         auto data = this->_adj[u].get(v, T {});
+        this->_num_of_edges += this->_succ[u].contains(v) ? 0 : 1;
         this->_succ[u][v] = data;
         // this->_prev[v][u] = data;
-        this->_num_of_edges += 1;
     }
 
     template <typename T>
@@ -377,8 +377,8 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     {
         assert(this->_node.contains(u));
         assert(this->_node.contains(v));
+        this->_num_of_edges += this->_succ[u].contains(v) ? 0 : 1;
         this->_succ[u][v] = data;
-        this->_num_of_edges += 1;
     }
 
     template <typename C1, typename C2>
-- 
2.43.0


From 6fb448b1aa659cbff67261d811076a05b51fc1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 12/16] fix: xnetwork: has_edge of a node that is not in the
 graph is false

---
 lib/include/xnetwork/classes/graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index 500f1f0..b5b92af 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -706,7 +706,7 @@ class Graph : public object
         true
 
          */
-        return this->_adj[u].contains(v);
+        return this->_node.contains(u) && this->_adj[u].contains(v);
     }
 
     auto degree(const Node& n) const
-- 
2.43.0


From de41b4b2dd68194f81fb9604cee3ae612d953b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:08 +0000
Subject: [PATCH 13/16] fix: xnetwork: get_name finds the name set_name stored

---
 lib/include/xnetwork/classes/graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index b5b92af..772b1d4 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -334,7 +334,7 @@ class Graph : public object
     }
 
     /// @property
-    auto get_name()
+    auto get_name() -> boost::string_view
     {
         /*! String identifier of the graph.
 
@@ -346,7 +346,7 @@ class Graph : public object
         {
             return "";
         }
-        return boost::any_cast<const char*>(this->graph["name"]);
+        return boost::any_cast<boost::string_view>(this->graph["name"]);
     }
 
     // @name.setter
-- 
2.43.0


From f9e3c639fc8f7920bbd8794a3b8cbc5f63f151b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 14/16] fix: xnetwork: clear leaves a graph without edges, not
 without its adjacency

---
 lib/include/xnetwork/classes/digraphs.hpp | 6 +++++-
 lib/include/xnetwork/classes/graph.hpp    | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/include/xnetwork/classes/digraphs.hpp b/lib/include/xnetwork/classes/digraphs.hpp
index 4fc901b..d3e1fde 100644
--- a/lib/include/xnetwork/classes/digraphs.hpp
+++ b/lib/include/xnetwork/classes/digraphs.hpp
@@ -543,7 +543,11 @@ class DiGraphS : public Graph<nodeview_t, adjlist_t>
     */
     auto clear()
     {
-        this->_succ.clear();
+        for (auto& nbrs : this->_succ)
+        {
+            nbrs.clear();
+        }
+        this->_num_of_edges = 0;
         // this->_pred.clear()
         // this->_node.clear();
         this->graph.clear();
diff --git a/lib/include/xnetwork/classes/graph.hpp b/lib/include/xnetwork/classes/graph.hpp
index 772b1d4..19eb3c5 100644
--- a/lib/include/xnetwork/classes/graph.hpp
+++ b/lib/include/xnetwork/classes/graph.hpp
@@ -835,7 +835,11 @@ class Graph : public object
         [];
 
          */
-        this->_adj.clear();
+        for (auto& nbrs : this->_adj)
+        {
+            nbrs.clear();
+        }
+        this->_num_of_edges = 0;
         // this->_node.clear();
         this->graph.clear();
     }
-- 
2.43.0


From 09e16d13fee222d32f334c59a5d7c23060e41653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 15/16] fix: posynomial: the gradient of a single term is that
 of its monomial

---
 lib/include/ellip/posynomial.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/ellip/posynomial.hpp b/lib/include/ellip/posynomial.hpp
index 63cb9e6..2ecf8ab 100644
--- a/lib/include/ellip/posynomial.hpp
+++ b/lib/include/ellip/posynomial.hpp
@@ -164,7 +164,7 @@ class posynomial
 
         if (N == 1)
         { // monomial
-            const Vec& gt = _M[0].gradient(y);
+            const Vec& gt = _M[0].lse_gradient(y);
             for (auto i = 0; i != n; ++i)
             {
                 g[i] = gt[i];
@@ -215,7 +215,7 @@ class posynomial
 
         if (N == 1)
         { // i.e. monomial
-            const Vec& gt = _M[0].gradient(y);
+            const Vec& gt = _M[0].lse_gradient(y);
             for (auto i = 0; i != n; ++i)
             {
                 g[i] = gt[i];
-- 
2.43.0


From f100361e0938a32eadcc1287d2c6fb946472a992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 16/16] fix: posynomial: adding a posynomial to itself ends

---
 lib/include/ellip/posynomial.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/ellip/posynomial.hpp b/lib/include/ellip/posynomial.hpp
index 2ecf8ab..af7e360 100644
--- a/lib/include/ellip/posynomial.hpp
+++ b/lib/include/ellip/posynomial.hpp
@@ -73,7 +73,8 @@ class posynomial
     /** Add and assign */
     _Self& operator+=(const _Self& P)
     {
-        for (auto i = 0; i != P._M.size(); ++i)
+        const size_t N = P._M.size(); // P may be *this
+        for (size_t i = 0; i != N; ++i)
             _M.push_back(P._M[i]);
         return *this;
     }
-- 
2.43.0

