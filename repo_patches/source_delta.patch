From 013cf6ab4004315913aad2ea2f9c0039261038f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:37 +0000
Subject: [PATCH 01/20] fix: contract the inverse basis with the right
 component in GetInverseVector

---
 include/bwsl/Bravais.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/Bravais.hpp b/include/bwsl/Bravais.hpp
index 8379699..7a0350e 100644
--- a/include/bwsl/Bravais.hpp
+++ b/include/bwsl/Bravais.hpp
@@ -151,7 +151,7 @@ Bravais::GetInverseVector(realvec_t const& realspace) const
   auto p = Bravais::realvec_t(dim_, 0.0);
   for (auto i = 0UL; i < dim_; i++) {
     for (auto j = 0UL; j < dim_; j++) {
-      p[i] += realspace[i] * pivectors_[i * dim_ + j];
+      p[i] += realspace[j] * pivectors_[i * dim_ + j];
     }
   }
   return p;
-- 
2.43.0


From 01a9c9136f5c1a41aafa2ba50ce00cca056a61d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:37 +0000
Subject: [PATCH 02/20] fix: keep the denominator of rational numbers positive

---
 include/bwsl/RationalNum.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 439d3e7..fda0032 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -197,6 +197,10 @@ inline void
 RationalNum<T>::Simplify()
 {
   auto g = get_gcd(num_, den_);
+  // keep the denominator positive
+  if ((g < 0) != (den_ < 0)) {
+    g = -g;
+  }
   num_ = num_ / g;
   den_ = den_ / g;
 }
-- 
2.43.0


From 2ef95d739b0b9c759a180f175b0bce99aa44d890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:37 +0000
Subject: [PATCH 03/20] fix: compare rational numbers and integers exactly

---
 include/bwsl/RationalNum.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index fda0032..8015c35 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -216,14 +216,14 @@ template<class G>
 inline auto
 operator<(const RationalNum<G>& lhs, const G& rhs) -> bool
 {
-  return lhs.num_ / lhs.den_ < rhs;
+  return lhs.num_ < rhs * lhs.den_;
 }
 
 template<class G>
 inline auto
 operator<(const G& lhs, const RationalNum<G>& rhs) -> bool
 {
-  return lhs < rhs.num_ / rhs.den_;
+  return lhs * rhs.den_ < rhs.num_;
 }
 
 TEMPLATEOVERLOADRELATIONAL(RationalNum<G>, RationalNum<G>, G)
-- 
2.43.0


From a9ff1caced49c2a1d22830b90f2ffd1235006255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:37 +0000
Subject: [PATCH 04/20] fix: reduce parsed rational numbers and reject a zero
 denominator

---
 include/bwsl/RationalNum.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 8015c35..370fd12 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -171,7 +171,9 @@ inline auto
 operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
 {
   auto sep = char{};
-  in >> rhs.num_;
+  auto num = T{ 0 };
+  auto den = T{ 0 };
+  in >> num;
   for (auto i = 0UL; i < 2UL; i++) {
     in >> sep;
     if (sep != '/') {
@@ -179,7 +181,12 @@ operator>>(std::istream& in, RationalNum<T>& rhs) -> std::istream&
       return in;
     }
   }
-  in >> rhs.den_;
+  in >> den;
+  if (in.fail() || den == 0) {
+    in.setstate(std::ios_base::failbit);
+    return in;
+  }
+  rhs = RationalNum<T>(num, den);
 
   return in;
 }
-- 
2.43.0


From f61e00eec318ad40b0e7be3039f0468155be8041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:37 +0000
Subject: [PATCH 05/20] fix: make ToString of rational numbers compile

---
 include/bwsl/RationalNum.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/RationalNum.hpp b/include/bwsl/RationalNum.hpp
index 370fd12..4ead31a 100644
--- a/include/bwsl/RationalNum.hpp
+++ b/include/bwsl/RationalNum.hpp
@@ -343,7 +343,9 @@ template<class T>
 inline auto
 ToString(RationalNum<T> const& rhs) -> std::string
 {
-  return fmt::format("{}", rhs);
+  auto oss = std::ostringstream{};
+  oss << rhs;
+  return oss.str();
 }
 
 } // namespace bwsl
-- 
2.43.0


From 69b3883d147cec5b638a16d8c8096a4645fda737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:13 +0000
Subject: [PATCH 06/20] fix: define the LinSpace comparisons that iteration
 needs

---
 include/bwsl/LinSpace.hpp | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/include/bwsl/LinSpace.hpp b/include/bwsl/LinSpace.hpp
index 59b9d73..e88a735 100644
--- a/include/bwsl/LinSpace.hpp
+++ b/include/bwsl/LinSpace.hpp
@@ -74,10 +74,16 @@ private:
   unsigned long step_{ 0 };
 
   /// Compare two LinSpaces and check for equality
-  friend auto operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool;
+  friend auto operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
+  {
+    return a.step_ == b.step_;
+  }
 
   /// Compare two LinSpaces and check for inequality
-  friend auto operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool;
+  friend auto operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
+  {
+    return !(a == b);
+  }
 }; // class LinSpace
 
 template<typename T>
@@ -149,20 +155,6 @@ LinSpace<T>::Collect(unsigned long n) -> std::vector<T>
   return retval;
 }
 
-template<typename T>
-auto
-operator==(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
-{
-  return a.step_ == b.step_;
-};
-
-template<typename T>
-auto
-operator!=(const LinSpace<T>& a, const LinSpace<T>& b) -> bool
-{
-  return !(a == b);
-}
-
 } // namespace bwsl
 
 // vim: set ts=2 sts=2 et sw=2 tw=80: //
-- 
2.43.0


From 499d5a2b51b79f6361c3e407c708681712c31c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:13 +0000
Subject: [PATCH 07/20] fix: define the strict comparisons declared by Approx

---
 include/bwsl/Approx.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/bwsl/Approx.hpp b/include/bwsl/Approx.hpp
index b9e9dbb..baa4b54 100644
--- a/include/bwsl/Approx.hpp
+++ b/include/bwsl/Approx.hpp
@@ -131,6 +131,30 @@ operator>=(Approx const& lhs, double rhs) -> bool
   return lhs.value_ > rhs || lhs == rhs;
 }
 
+inline auto
+operator<(double lhs, Approx const& rhs) -> bool
+{
+  return lhs < rhs.value_ && lhs != rhs;
+}
+
+inline auto
+operator<(Approx lhs, double const& rhs) -> bool
+{
+  return lhs.value_ < rhs && lhs != rhs;
+}
+
+inline auto
+operator>(double lhs, Approx const& rhs) -> bool
+{
+  return lhs > rhs.value_ && lhs != rhs;
+}
+
+inline auto
+operator>(Approx lhs, double const& rhs) -> bool
+{
+  return lhs.value_ > rhs && lhs != rhs;
+}
+
 inline Approx::Approx(double val)
   : value_(static_cast<double>(val))
 {
-- 
2.43.0


From 8be9139cb95ccec9d5077a6c71b099fc1b0e8259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:13 +0000
Subject: [PATCH 08/20] fix: make compare_files inline

---
 include/bwsl/FileUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/FileUtils.hpp b/include/bwsl/FileUtils.hpp
index 9964112..3e2fe01 100644
--- a/include/bwsl/FileUtils.hpp
+++ b/include/bwsl/FileUtils.hpp
@@ -25,7 +25,7 @@ namespace bwsl {
 /// This code is based on this answer
 /// http://stackoverflow.com/a/37575457/4477378
 ///
-auto
+inline auto
 compare_files(const std::string& p1, const std::string& p2) -> bool
 {
   std::ifstream f1(p1, std::ifstream::binary | std::ifstream::ate);
-- 
2.43.0


From 11e2f1b349eb34ac82253a63638b02666b94f418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:26 +0000
Subject: [PATCH 09/20] fix: do not truncate the half size of large grids in
 GetJump

---
 include/bwsl/HyperCubicGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bwsl/HyperCubicGrid.hpp b/include/bwsl/HyperCubicGrid.hpp
index 14735c8..cd9d779 100644
--- a/include/bwsl/HyperCubicGrid.hpp
+++ b/include/bwsl/HyperCubicGrid.hpp
@@ -253,7 +253,7 @@ HyperCubicGrid::GetJump(size_t a, size_t b) const -> coords_t
       auto& cbi = cb[i];
       auto si = GetSize()[i];
       // half distance (integer division)
-      auto si_half = static_cast<int>(si / 2);
+      auto si_half = static_cast<long>(si / 2);
       if (cbi > si_half) {
         cbi -= si;
       }
-- 
2.43.0


From a0ae6fa96f773bc9e96b5285070999a2a5432004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:26 +0000
Subject: [PATCH 10/20] fix: compute vectors and distances of open lattices
 from the positions

---
 include/bwsl/Lattice.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 38b81f3..19c847d 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -214,6 +214,10 @@ inline auto
 Lattice::GetDistance(size_t a, size_t b) const -> double
 {
   assert(IndexIsValid(a) && IndexIsValid(b));
+  // without periodic images there is no equivalent site to refer to
+  if (HasOpenBoundaries()) {
+    return sqrt(sum_squared<realvec_t, double>(GetVector(a, b)));
+  }
   auto s = GetMappedSite(a, b);
   return distance_[s];
 }
@@ -222,6 +226,12 @@ inline auto
 Lattice::GetVector(size_t a, size_t b) const -> realvec_t
 {
   assert(IndexIsValid(a) && IndexIsValid(b));
+  // without periodic images there is no equivalent site to refer to
+  if (HasOpenBoundaries()) {
+    auto vec = position_[b];
+    subtract_into(vec, position_[a]);
+    return vec;
+  }
   auto s = GetMappedSite(a, b);
   return vectors_[s];
 }
-- 
2.43.0


From 222f94edf29d5c126c0010064884a396f6147413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:26 +0000
Subject: [PATCH 11/20] fix: scale the momenta along the reciprocal lattice
 directions

---
 include/bwsl/Lattice.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/bwsl/Lattice.hpp b/include/bwsl/Lattice.hpp
index 19c847d..adcd645 100644
--- a/include/bwsl/Lattice.hpp
+++ b/include/bwsl/Lattice.hpp
@@ -383,9 +383,17 @@ Lattice::ComputeMomenta(Bravais const& bravais) const
     for (auto k = 0UL; k < ci.size(); k++) {
       ci[k] -= GetSize()[k] / 2UL;
     }
-    auto kappa = bravais.GetReciprocalSpace(ci);
-    for (auto k = 0UL; k < kappa.size(); k++) {
-      kappa[k] /= GetSize()[k];
+    // each reciprocal lattice vector is divided by the size of the lattice
+    // along its own direction
+    auto kappa = realvec_t(GetDim(), 0.0);
+    for (auto k = 0UL; k < ci.size(); k++) {
+      auto ck = coords_t(GetDim(), 0);
+      ck[k] = ci[k];
+      auto gk = bravais.GetReciprocalSpace(ck);
+      for (auto& g : gk) {
+        g /= GetSize()[k];
+      }
+      sum_into(kappa, gk);
     }
     p.push_back(kappa);
   }
-- 
2.43.0


From b8cc06e5209e9b7cb3342f124cc4b88fc7118a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:26 +0000
Subject: [PATCH 12/20] fix: keep the divisor fixed while normalizing histogram
 results

---
 include/bwsl/HistAccumulator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/HistAccumulator.hpp b/include/bwsl/HistAccumulator.hpp
index 7b12736..8a17d06 100644
--- a/include/bwsl/HistAccumulator.hpp
+++ b/include/bwsl/HistAccumulator.hpp
@@ -187,8 +187,9 @@ inline auto
 HistAccumulator::GetResults(size_t idx) const -> std::vector<double>
 {
   auto r = GetResults();
+  auto const norm = r[idx];
   for (auto& v : r) {
-    v /= r[idx];
+    v /= norm;
   }
   return r;
 }
-- 
2.43.0


From 51d4a8673717bcde33150ea4eedca0e2cd519708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:26 +0000
Subject: [PATCH 13/20] fix: keep alive the message of enum conversion errors

---
 include/bwsl/EnumString.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/bwsl/EnumString.hpp b/include/bwsl/EnumString.hpp
index cdd1f0d..12e02dc 100644
--- a/include/bwsl/EnumString.hpp
+++ b/include/bwsl/EnumString.hpp
@@ -66,20 +66,15 @@
   {                                                                            \
   public:                                                                      \
     EnumStringConversionFailed_##name(std::string const& value)                \
-      : value_(value)                                                          \
+      : message_("Unknown correspondance of " + value + " for enum " +         \
+                 BOOST_PP_STRINGIZE(name))                                     \
     {                                                                          \
     }                                                                          \
                                                                                \
-    const char* what() const throw()                                           \
-    {                                                                          \
-      auto s = std::string("Unknown correspondance of ") + value_ +            \
-               std::string(" for enum ") + name_;                              \
-      return s.c_str();                                                        \
-    }                                                                          \
+    const char* what() const throw() { return message_.c_str(); }              \
                                                                                \
   private:                                                                     \
-    const std::string name_{ BOOST_PP_STRINGIZE(name) };                       \
-    std::string value_{ "" };                                                  \
+    std::string message_{};                                                    \
   };                                                                           \
                                                                                \
   inline std::string ToString(name v)                                          \
-- 
2.43.0


From a2d751e46a976a68c0ec66634c863ff1590b54c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:26 +0000
Subject: [PATCH 14/20] fix: print observable groups without observables

---
 include/bwsl/ObservableGroup.hpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/include/bwsl/ObservableGroup.hpp b/include/bwsl/ObservableGroup.hpp
index 5bee924..26fbcf7 100644
--- a/include/bwsl/ObservableGroup.hpp
+++ b/include/bwsl/ObservableGroup.hpp
@@ -119,12 +119,10 @@ ObservableGroup<Index_t>::PrintHeaders() const
 {
   auto out = std::ofstream(output_file_.c_str(), std::ios::trunc);
 
-  auto it = accumulator_.begin();
-  fmt::print(out, "{}", it->first);
-  while (++it != accumulator_.end()) {
-    fmt::print(out, ",{}", it->first);
+  for (auto const& [index, acc] : accumulator_) {
+    fmt::print(out, "{},", index);
   }
-  fmt::print(out, ",Count");
+  fmt::print(out, "Count");
   fmt::print(out, "\n");
 }
 
@@ -133,15 +131,12 @@ inline void
 ObservableGroup<Index_t>::PrintAndReset(size_t precision)
 {
   auto out = std::ofstream(output_file_.c_str(), std::ios::app);
-  auto it = accumulator_.begin();
-  auto count = it->second.Count();
-  fmt::print(out, "{:.{}e}", it->second.Mean(), precision);
-  it->second.Reset();
-  while (++it != accumulator_.end()) {
-    fmt::print(out, ",{:.{}e}", it->second.Mean(), precision);
-    it->second.Reset();
+  auto count = accumulator_.empty() ? 0UL : accumulator_.begin()->second.Count();
+  for (auto& [index, acc] : accumulator_) {
+    fmt::print(out, "{:.{}e},", acc.Mean(), precision);
+    acc.Reset();
   }
-  fmt::print(out, ",{}", count);
+  fmt::print(out, "{}", count);
   fmt::print(out, "\n");
 }
 
-- 
2.43.0


From dcffba453883a8918a94937a85d1ad16d0a23fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:26 +0000
Subject: [PATCH 15/20] fix: search within the interval in the interpolated
 upper_bound

---
 include/bwsl/MathUtils.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index dcb4dcb..e98ce90 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -353,10 +353,15 @@ template<class ForwardIt, class T>
 inline auto
 upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
 {
-  auto count = std::distance(first, last);
+  if (first == last) {
+    return last;
+  }
+
+  // distance between the first and the last element of the interval
+  auto count = std::distance(first, last) - 1;
   auto it = first;
   auto to = it;
-  std::advance(to, count - 1);
+  std::advance(to, count);
 
   while (count > 10000) {
     auto itval = *it;
@@ -364,9 +369,6 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
     if (value < itval) {
       return it;
     }
-    if (!(itval < value)) { // value <= it (so only if they are equal)
-      return ++it;
-    }
 
     // check if the value is outside the upper bound of the search interval
     if (!(value < *to)) { // value >= to
@@ -385,7 +387,7 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
     }
     count = std::distance(it, to);
   }
-  return upper_bound(it, ++to, value);
+  return std::upper_bound(it, ++to, value);
 }
 
 /// Greater common denominator
-- 
2.43.0


From 354c1fa6bef893fd625025716518d11d09ec7afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:04 +0000
Subject: [PATCH 16/20] fix: scale the sum of squares in the variance of
 NaiveInteger

---
 include/bwsl/accumulators/NaiveIntegerAccumulator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index c3b9632..eb2b33d 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -129,7 +129,7 @@ NaiveInteger::Variance(bool corrected) const -> double
 
   auto ccount = corrected ? count_ - 1UL : count_;
 
-  return static_cast<double>(sum2_ - sum_ * sum_) / (count_ * ccount);
+  return ScaledVariance() / static_cast<double>(ccount);
 }
 
 inline auto
@@ -139,7 +139,10 @@ NaiveInteger::ScaledVariance() const -> double
     return std::nan("");
   }
 
-  return static_cast<double>(sum2_ - sum_ * sum_) / count_;
+  auto n = static_cast<double>(count_);
+  auto sum = static_cast<double>(sum_);
+
+  return (n * static_cast<double>(sum2_) - sum * sum) / n;
 }
 
 inline auto
-- 
2.43.0


From b575b4c95b0f6c4369c1dc7528222ec60bfd5954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:04 +0000
Subject: [PATCH 17/20] fix: detect the overflow of the sums of NaiveInteger

---
 include/bwsl/accumulators/NaiveIntegerAccumulator.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index eb2b33d..bfd3e75 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -23,6 +23,7 @@
 
 // std
 #include <cmath>
+#include <cstdlib>
 #include <exception>
 #include <limits>
 
@@ -106,10 +107,15 @@ NaiveInteger::Add(long x) -> void
   if (count_ == std::numeric_limits<unsigned long>::max()) {
     throw exception::AccumulatorOverflow();
   }
-  if (std::numeric_limits<unsigned long>::max() - sum_ <= x) {
+  constexpr auto lmin = std::numeric_limits<long>::min();
+  constexpr auto lmax = std::numeric_limits<long>::max();
+  // protect the sum
+  if ((x > 0L && sum_ > lmax - x) || (x < 0L && sum_ < lmin - x)) {
     throw exception::AccumulatorOverflow();
   }
-  if (std::numeric_limits<unsigned long>::max() < sum2_ <= x * x) {
+  // protect the square of the value and the sum of the squares
+  if (x == lmin || (x != 0L && std::abs(x) > lmax / std::abs(x)) ||
+      sum2_ > lmax - x * x) {
     throw exception::AccumulatorOverflow();
   }
 #endif // BWSL_ACCUMULATORS_CHECKS
-- 
2.43.0


From 588bb648fe9e492ebff252d612e9993fb2b86b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:59 +0000
Subject: [PATCH 18/20] fix: do not return a negative variance from
 NaiveInteger

---
 include/bwsl/accumulators/NaiveIntegerAccumulator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
index bfd3e75..c11ebb3 100644
--- a/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
+++ b/include/bwsl/accumulators/NaiveIntegerAccumulator.hpp
@@ -22,6 +22,7 @@
 #include <boost/serialization/version.hpp>
 
 // std
+#include <algorithm>
 #include <cmath>
 #include <cstdlib>
 #include <exception>
@@ -148,7 +149,8 @@ NaiveInteger::ScaledVariance() const -> double
   auto n = static_cast<double>(count_);
   auto sum = static_cast<double>(sum_);
 
-  return (n * static_cast<double>(sum2_) - sum * sum) / n;
+  // rounding can make the difference of nearly equal terms negative
+  return std::max(0.0, (n * static_cast<double>(sum2_) - sum * sum) / n);
 }
 
 inline auto
-- 
2.43.0


From a87ebc5acbdfc44f120f17ddf6e76322cbc0bbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:42 +0000
Subject: [PATCH 19/20] fix: checkpoint the name of a move

---
 include/bwsl/mcutils/MoveStats.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/bwsl/mcutils/MoveStats.hpp b/include/bwsl/mcutils/MoveStats.hpp
index 03eb46c..2f7569f 100644
--- a/include/bwsl/mcutils/MoveStats.hpp
+++ b/include/bwsl/mcutils/MoveStats.hpp
@@ -25,6 +25,7 @@
 
 // boost
 #include <boost/serialization/serialization.hpp>
+#include <boost/serialization/string.hpp>
 #include <boost/serialization/version.hpp>
 
 // std
@@ -199,9 +200,12 @@ private:
 
 template<class Archive>
 inline auto
-MoveStats::serialize(Archive& ar, const unsigned int /* version */) -> void
+MoveStats::serialize(Archive& ar, const unsigned int version) -> void
 {
   // clang-format off
+  if (version > 0) {
+    ar & name_;
+  }
   ar & prob_;
   ar & proposed_;
   ar & accepted_;
@@ -284,4 +288,7 @@ operator<<(std::ostream& os, const MoveStats& dt) -> std::ostream&
 }
 } // namespace bwsl
 
+// Archives of version 0 do not contain the name of the move
+BOOST_CLASS_VERSION(bwsl::montecarlo::MoveStats, 1)
+
 // vim: set ft=cpp ts=2 sts=2 et sw=2 tw=80: //
-- 
2.43.0


From 0ed2e94a9a4476274906dd7e0b89a5477ab801c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:31 +0000
Subject: [PATCH 20/20] fix: interpolated upper_bound overflowed on widely
 spread elements

The differences of integers far apart do not fit their type and those of
large or infinite floating-point values are not finite, so the interpolated
position could leave the range.
---
 include/bwsl/MathUtils.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/bwsl/MathUtils.hpp b/include/bwsl/MathUtils.hpp
index e98ce90..835e9eb 100644
--- a/include/bwsl/MathUtils.hpp
+++ b/include/bwsl/MathUtils.hpp
@@ -375,8 +375,20 @@ upper_bound(ForwardIt first, ForwardIt last, const T& value) -> ForwardIt
       return ++to;
     }
 
-    // compute the new position interpolating the position of the point
-    const auto np = std::round((value - itval) / (*to - itval) * count);
+    // compute the new position interpolating the position of the point,
+    // differences of arithmetic values are not guaranteed to fit their type
+    auto np = 0.0;
+    if constexpr (std::is_arithmetic_v<T>) {
+      const auto low = static_cast<double>(itval);
+      const auto high = static_cast<double>(*to);
+      np = std::round((static_cast<double>(value) - low) / (high - low) * count);
+    } else {
+      np = std::round((value - itval) / (*to - itval) * count);
+    }
+    // bisect if the interpolation is not meaningful (e.g. infinite values)
+    if (!(np >= 0.0 && np <= static_cast<double>(count))) {
+      np = std::floor(static_cast<double>(count) / 2.0);
+    }
     auto nt = it;
     std::advance(nt, np);
 
-- 
2.43.0

