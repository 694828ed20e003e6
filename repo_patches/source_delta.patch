From 7a2264393280228f4cd6f20b64d554ee9ce964dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 01/50] fix: a frequency of zero switches an output off instead
 of dividing by zero

---
 include/fub/output/OutputAtFrequencyOrInterval.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fub/output/OutputAtFrequencyOrInterval.hpp b/include/fub/output/OutputAtFrequencyOrInterval.hpp
index 7c42cb6..9414e2b 100644
--- a/include/fub/output/OutputAtFrequencyOrInterval.hpp
+++ b/include/fub/output/OutputAtFrequencyOrInterval.hpp
@@ -70,7 +70,9 @@ public:
     const std::ptrdiff_t cycle = grid.GetCycles();
     if (std::any_of(
             frequencies_.begin(), frequencies_.end(),
-            [cycle](std::ptrdiff_t freq) { return cycle % freq == 0; })) {
+            [cycle](std::ptrdiff_t freq) {
+              return freq > 0 && cycle % freq == 0;
+            })) {
       return true;
     }
     const Duration time_point = grid.GetTimePoint();
-- 
2.43.0


From 520fdc99a2c4791872fc9598944683b3fa13db70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 02/50] fix: an output time point is not missed if round off
 leaves the time slightly below it

---
 .../output/OutputAtFrequencyOrInterval.hpp    | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/fub/output/OutputAtFrequencyOrInterval.hpp b/include/fub/output/OutputAtFrequencyOrInterval.hpp
index 9414e2b..7710c43 100644
--- a/include/fub/output/OutputAtFrequencyOrInterval.hpp
+++ b/include/fub/output/OutputAtFrequencyOrInterval.hpp
@@ -57,8 +57,7 @@ public:
     Duration next_output_time(std::numeric_limits<double>::max());
     for (std::size_t i = 0; i < intervals_.size(); ++i) {
       if (intervals_[i].count() > 0.0) {
-        Duration dt(intervals_[i].count() -
-                    std::fmod(time_point.count(), intervals_[i].count()));
+        Duration dt = intervals_[i] - TimeSinceOutput(time_point, intervals_[i]);
         dt += smallest_time_step_size_;
         next_output_time = std::min<Duration>(next_output_time, time_point + dt);
       }
@@ -79,9 +78,10 @@ public:
     if (time_point == Duration{} ||
         std::any_of(intervals_.begin(), intervals_.end(),
                     [this, time_point](Duration freq) {
-                      return std::abs(
-                                 std::fmod(time_point.count(), freq.count())) <
-                             2 * smallest_time_step_size_.count();
+                      return freq.count() > 0.0 &&
+                             std::abs(
+                                 TimeSinceOutput(time_point, freq).count()) <
+                                 2 * smallest_time_step_size_.count();
                     })) {
       return true;
     }
@@ -100,6 +100,17 @@ public:
   }
 
 protected:
+  /// Returns the time which has passed since the last output time point.
+  ///
+  /// A time point that lies slightly below a multiple of the interval, because
+  /// of round off errors, already counts as this multiple. In this case the
+  /// returned duration is negative.
+  Duration TimeSinceOutput(Duration time_point, Duration interval) const {
+    const Duration since(std::fmod(time_point.count(), interval.count()));
+    const bool is_multiple = interval - since < 2 * smallest_time_step_size_;
+    return is_multiple ? Duration(since - interval) : since;
+  }
+
   std::vector<std::ptrdiff_t> frequencies_{};
   std::vector<Duration> intervals_{};
   Duration smallest_time_step_size_{1e-12};
-- 
2.43.0


From 3bcc03beb4f2b70a3e4f11335629c62fcbf7e6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 03/50] fix: do not repeat the last output after a failed time
 step

---
 include/fub/RunSimulation.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fub/RunSimulation.hpp b/include/fub/RunSimulation.hpp
index 7e7a3cc..01de1e1 100644
--- a/include/fub/RunSimulation.hpp
+++ b/include/fub/RunSimulation.hpp
@@ -183,7 +183,8 @@ void RunSimulation(Solver& solver, RunOptions options,
     } while (
         time_point + eps < options.final_time &&
         (options.max_cycles < 0 || solver.GetCycles() < options.max_cycles) &&
-        !output.ShallOutputNow(*solver.GetGriddingAlgorithm()));
+        // A failed step falls back to a state that has already been output.
+        (failure_dt || !output.ShallOutputNow(*solver.GetGriddingAlgorithm())));
     auto output_timer = solver.GetCounterRegistry()->get_timer("Output");
     output(*solver.GetGriddingAlgorithm());
   }
-- 
2.43.0


From 4699371605cf88165a7e26d72af1dfcd65f3525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:11 +0000
Subject: [PATCH 04/50] fix: a failure reported by a source term after a level
 step is not dropped

---
 .../fub/solver/SplitSystemSourceLevelIntegrator.hpp  | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/fub/solver/SplitSystemSourceLevelIntegrator.hpp b/include/fub/solver/SplitSystemSourceLevelIntegrator.hpp
index 48470f3..ca0fe17 100644
--- a/include/fub/solver/SplitSystemSourceLevelIntegrator.hpp
+++ b/include/fub/solver/SplitSystemSourceLevelIntegrator.hpp
@@ -26,6 +26,7 @@
 #include "fub/split_method/StrangSplitting.hpp"
 
 #include <algorithm>
+#include <type_traits>
 
 namespace fub {
 
@@ -192,7 +193,16 @@ SplitSystemSourceLevelIntegrator<SystemSolver, SourceTerm, SplittingMethod>::
                      std::pair<int, int> subcycle) {
   if constexpr (is_detected<meta::PostAdvanceLevel, SourceTerm&, int, Duration,
                             std::pair<int, int>>()) {
-    source_term_.PostAdvanceLevel(this_level, dt, subcycle);
+    if constexpr (std::is_void_v<decltype(source_term_.PostAdvanceLevel(
+                      this_level, dt, subcycle))>) {
+      source_term_.PostAdvanceLevel(this_level, dt, subcycle);
+    } else {
+      Result<void, TimeStepTooLarge> result =
+          source_term_.PostAdvanceLevel(this_level, dt, subcycle);
+      if (!result) {
+        return result;
+      }
+    }
   }
   return SystemSolver::PostAdvanceLevel(this_level, dt, subcycle);
 }
-- 
2.43.0


From f34a32b056ba12fd9a43f286f14383272efda001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:55 +0000
Subject: [PATCH 05/50] fix: span::last(count) of a span with dynamic extent
 returns its last elements

---
 include/fub/core/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/core/span.hpp b/include/fub/core/span.hpp
index f434d47..03a43a2 100644
--- a/include/fub/core/span.hpp
+++ b/include/fub/core/span.hpp
@@ -847,7 +847,7 @@ public:
   /// \throws Nothing.
   constexpr span<element_type> last(index_type count) const {
     FUB_ASSERT(0 <= count && count <= size());
-    return {pointer_ + (extent - count), count};
+    return {pointer_ + (size() - count), count};
   }
 
   /// Returns a subspan viewing `Count` many elements from offset `Offset`.
-- 
2.43.0


From 8a7a2394241e466ed02f8a27c677b43e5be0c8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 06/50] fix: subspan keeps empty ranges as extents instead of
 dropping them

---
 include/fub/core/mdspan.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fub/core/mdspan.hpp b/include/fub/core/mdspan.hpp
index 910ca3d..d0d865d 100644
--- a/include/fub/core/mdspan.hpp
+++ b/include/fub/core/mdspan.hpp
@@ -941,6 +941,7 @@ constexpr std::array<std::ptrdiff_t, SliceRank_<SliceSpecifiers...>>
 MakeSliceExtents2_(const Extents& e, SliceSpecifiers... slices) {
   const std::array<std::ptrdiff_t, Extents::rank()> length{
       MapToLength_(slices)...};
+  const bool is_range[] = {IsSliceRange_<SliceSpecifiers>::value...};
   std::array<std::ptrdiff_t, Extents::rank()> dyn_length{};
   for (std::size_t i = 0; i < Extents::rank(); ++i) {
     if (length[i] < 0) {
@@ -952,7 +953,7 @@ MakeSliceExtents2_(const Extents& e, SliceSpecifiers... slices) {
   std::array<std::ptrdiff_t, SliceRank_<SliceSpecifiers...>> extents{};
   std::size_t slice = 0;
   for (std::size_t i = 0; i < Extents::rank(); ++i) {
-    if (dyn_length[i] > 0) {
+    if (is_range[i]) {
       extents[slice] = dyn_length[i];
       slice = slice + 1;
     }
-- 
2.43.0


From e57761725d8a3c56882e26465b7ab0d04cf006b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:53 +0000
Subject: [PATCH 07/50] fix: ForEachRow of two-dimensional views without cells
 visits no row of foreign memory and terminates

---
 include/fub/StateRow.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/fub/StateRow.hpp b/include/fub/StateRow.hpp
index 8442aa5..78336b6 100644
--- a/include/fub/StateRow.hpp
+++ b/include/fub/StateRow.hpp
@@ -176,12 +176,9 @@ void ForEachRow(const Tuple& views, Function f) {
     std::tuple rows = Transform(firsts, ToRow{row_extent});
     std::apply(f, rows);
   } else if constexpr (std::tuple_element_t<0, Tuple>::rank() == 2) {
-    std::tuple lasts = Transform(views, [](const auto& v) { return End(v); });
+    const std::ptrdiff_t ny = Extent<Direction::Y>(std::get<0>(views));
     std::tuple strides = Transform(views, ToStride<Direction::Y>());
-    const auto& first = std::get<0>(firsts);
-    const auto& last = std::get<0>(lasts);
-    std::ptrdiff_t n = GetOrForward<0>(last) - GetOrForward<0>(first);
-    while (n >= std::get<0>(strides)) {
+    for (std::ptrdiff_t j = 0; j < ny; ++j) {
       std::tuple rows = Transform(firsts, ToRow{row_extent});
       std::apply(f, rows);
       std::tuple firsts_and_strides = Zip(firsts, strides);
@@ -191,7 +188,6 @@ void ForEachRow(const Tuple& views, Function f) {
       firsts = std::apply(
           [](auto&&... fs) { return std::tuple{std::get<0>(fs)...}; },
           firsts_and_strides);
-      n = GetOrForward<0>(last) - GetOrForward<0>(first);
     }
   } else {
     const std::ptrdiff_t ny = Extent<Direction::Y>(std::get<0>(views));
-- 
2.43.0


From 07555e7205e8503801169a8f5634d9d3b4f887dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:11 +0000
Subject: [PATCH 08/50] fix: the vectorized conservative update accesses only
 the cells of its rows

---
 src/HyperbolicPatchIntegrator.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/HyperbolicPatchIntegrator.cpp b/src/HyperbolicPatchIntegrator.cpp
index 1b8cf64..89896fb 100644
--- a/src/HyperbolicPatchIntegrator.cpp
+++ b/src/HyperbolicPatchIntegrator.cpp
@@ -52,12 +52,10 @@ void UpdateConservatively_SIMD(span<double> nexts, span<const double> prevs,
     AdvanceBy(size, out, in, fluxL, fluxR);
     n = end - out;
   }
-  const auto mask = Vc::Vector<double>([](int i) { return i; }) < int(n);
-  const Vc::Vector<double> prev = mask_load(in, mask);
-  const Vc::Vector<double> fL = mask_load(fluxL, mask);
-  const Vc::Vector<double> fR = mask_load(fluxR, mask);
-  const Vc::Vector<double> next = prev + dt_over_dx * (fL - fR);
-  next.store(out, mask, Vc::Unaligned);
+  // masked vector accesses are not confined to the row on every architecture
+  for (; out != end; AdvanceBy(1, out, in, fluxL, fluxR)) {
+    *out = *in + dt_dx * (*fluxL - *fluxR);
+  }
 }
 
 template <int Rank>
-- 
2.43.0


From dd7937135ebbc486dd734511a518179ba0744cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 09/50] fix: stable time step skips or invents stencils

---
 include/fub/flux_method/FluxMethod.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fub/flux_method/FluxMethod.hpp b/include/fub/flux_method/FluxMethod.hpp
index 52e2848..51ab877 100644
--- a/include/fub/flux_method/FluxMethod.hpp
+++ b/include/fub/flux_method/FluxMethod.hpp
@@ -298,7 +298,7 @@ FluxMethod<BaseMethod>::ComputeStableDt(execution::SequentialTag,
                                         const View<const Complete>& states,
                                         double dx, Direction dir) {
   double min_dt = std::numeric_limits<double>::infinity();
-  ForEachIndex(Shrink(Box<0>(states), dir, {0, GetStencilSize()}),
+  ForEachIndex(Shrink(Box<0>(states), dir, {0, GetStencilSize() - 1}),
                [&](const auto... is) {
                  using Index = std::array<std::ptrdiff_t, sizeof...(is)>;
                  const Index face{is...};
@@ -371,7 +371,7 @@ FluxMethod<BaseMethod>::ComputeStableDt(execution::SimdTag,
       LoadN(stencil_array_[i], states[i], n);
     }
     Array1d mask_;
-    for (int i = 0; i < mask_.rows(); ++i) {
+    for (int i = 0; i < mask_.size(); ++i) {
       mask_[i] = static_cast<double>(i);
     }
     auto mask = (mask_ < n).eval();
-- 
2.43.0


From 599e8bca0e3a025f4432b5d458ad7f1c416f67e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 10/50] fix: tag buffer misses, drops and invents tags

---
 src/tagging_method/TagBuffer.cpp | 82 +++++++++++++-------------------
 1 file changed, 33 insertions(+), 49 deletions(-)

diff --git a/src/tagging_method/TagBuffer.cpp b/src/tagging_method/TagBuffer.cpp
index f3123f1..cd524ff 100644
--- a/src/tagging_method/TagBuffer.cpp
+++ b/src/tagging_method/TagBuffer.cpp
@@ -22,67 +22,51 @@
 
 #include "fub/ForEach.hpp"
 
+#include <algorithm>
+
 namespace fub {
+namespace {
+// Cells which are tagged because of the buffer get their own mark, such that
+// they do not widen the buffer any further.
+constexpr char kBufferMark = '\3';
+
+template <int Rank>
+void TagBuffer_(const PatchDataView<char, Rank, layout_stride>& tags,
+                int width) {
+  const IndexBox<Rank> box = tags.Box();
+  ForEachIndex(box, [&](auto... is) {
+    const char tag = tags(is...);
+    if (tag == '\0' || tag == kBufferMark) {
+      return;
+    }
+    const Index<Rank> center{is...};
+    IndexBox<Rank> neighborhood{center, center};
+    for (std::size_t d = 0; d < static_cast<std::size_t>(Rank); ++d) {
+      neighborhood.lower[d] = std::max(center[d] - width, box.lower[d]);
+      neighborhood.upper[d] = std::min(center[d] + width + 1, box.upper[d]);
+    }
+    ForEachIndex(neighborhood, [&](auto... js) {
+      if (tags(js...) == '\0') {
+        tags(js...) = kBufferMark;
+      }
+    });
+  });
+}
+} // namespace
 
 void TagBuffer::TagCellsForRefinement(
     const PatchDataView<char, 1, layout_stride>& tags) {
-  span<char> data = tags.Span();
-  for (std::ptrdiff_t i = buffer_width_; i < data.size() - buffer_width_; ++i) {
-    if (data[i] == '\1') {
-      for (std::ptrdiff_t j = 0; j < buffer_width_; ++j) {
-        data[i + j] = static_cast<char>('\2' - data[i + j]);
-      }
-      for (std::ptrdiff_t j = buffer_width_; j > 0; --j) {
-        data[i - j - 1] = static_cast<char>('\2' - data[i - j - 1]);
-      }
-    }
-  }
+  TagBuffer_(tags, buffer_width_);
 }
 
 void TagBuffer::TagCellsForRefinement(
     const PatchDataView<char, 2, layout_stride>& tags) {
-  mdspan<char, 2, layout_stride> data = tags.MdSpan();
-  const std::ptrdiff_t nx = data.extent(0);
-  const std::ptrdiff_t ny = data.extent(1);
-  for (std::ptrdiff_t j = 0; j < ny; ++j) {
-    for (std::ptrdiff_t i = 0; i < nx; ++i) {
-      if (data(i, j) == '\1' || data(i, j) == '\2') {
-        const std::ptrdiff_t k0 =
-            std::max(i - buffer_width_, std::ptrdiff_t{0});
-        const std::ptrdiff_t k1 = std::min(i + buffer_width_, nx);
-        const std::ptrdiff_t l0 =
-            std::max(j - buffer_width_, std::ptrdiff_t{0});
-        const std::ptrdiff_t l1 = std::min(j + buffer_width_, ny);
-        for (std::ptrdiff_t l = l0; l < l1; ++l) {
-          for (std::ptrdiff_t k = k0; k < k1; ++k) {
-            data(k, l) =
-                std::max(data(k, l), static_cast<char>('\3' - data(k, l)));
-          }
-        }
-      }
-    }
-  }
+  TagBuffer_(tags, buffer_width_);
 }
 
 void TagBuffer::TagCellsForRefinement(
     const PatchDataView<char, 3, layout_stride>& tags) {
-  const std::array<std::ptrdiff_t, 2> shift{buffer_width_, buffer_width_};
-  const Direction X = Direction::X;
-  const Direction Y = Direction::Y;
-  const Direction Z = Direction::Z;
-  IndexBox<3> box =
-      Shrink(Shrink(Shrink(tags.Box(), X, shift), Y, shift), Z, shift);
-  ForEachIndex(box, [&](std::ptrdiff_t i0, std::ptrdiff_t j0,
-                        std::ptrdiff_t k0) {
-    Index<3> lower{i0 - buffer_width_, j0 - buffer_width_, k0 - buffer_width_};
-    Index<3> upper{i0 + buffer_width_, j0 + buffer_width_, k0 + buffer_width_};
-    IndexBox<3> neighborhood{lower, upper};
-    ForEachIndex(neighborhood, [&](std::ptrdiff_t i, std::ptrdiff_t j,
-                                   std::ptrdiff_t k) {
-      tags(i, j, k) =
-          std::max(tags(i, j, k), static_cast<char>('\2' - tags(i, j, k)));
-    });
-  });
+  TagBuffer_(tags, buffer_width_);
 }
 
 } // namespace fub
-- 
2.43.0


From dcea58df574bbd9e82c79a80f0895a99d9017327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:23 +0000
Subject: [PATCH 11/50] fix: array gradient detector compares wrong cells

---
 .../fub/tagging_method/GradientDetector.hpp   | 98 ++++++++++---------
 1 file changed, 51 insertions(+), 47 deletions(-)

diff --git a/include/fub/tagging_method/GradientDetector.hpp b/include/fub/tagging_method/GradientDetector.hpp
index 344045d..318846b 100644
--- a/include/fub/tagging_method/GradientDetector.hpp
+++ b/include/fub/tagging_method/GradientDetector.hpp
@@ -27,6 +27,8 @@
 #include "fub/core/mdspan.hpp"
 #include "fub/ext/Eigen.hpp"
 
+#include <algorithm>
+#include <functional>
 #include <utility>
 
 namespace fub {
@@ -240,31 +242,22 @@ template <typename Equation, typename... Projections>
 void ArrayGradientDetector_<Equation, Projections...>::TagCellsForRefinement(
     const PatchDataView<char, Rank, layout_stride>& tags,
     const View<const Complete<Equation>>& states) {
-  Direction dir = Direction::X;
-  BasicView shifted = Subview(states, Grow(tags.Box(), dir, {1, 1}));
-  std::tuple views{tags, Shrink(shifted, dir, {0, 2}),
-                   Shrink(shifted, dir, {1, 1}), Shrink(shifted, dir, {2, 0})};
-  FUB_ASSERT(Box<0>(std::get<2>(views)) == tags.Box());
-  ForEachRow(views, [&](span<char> tags_row,
-                        const Row<const Complete<Equation>>& rL,
-                        const Row<const Complete<Equation>>& rM,
-                        const Row<const Complete<Equation>>& rR) {
-    char* tags_pointer = tags_row.begin();
-    ViewPointer<const Complete<Equation>> pL = Begin(rL);
-    ViewPointer<const Complete<Equation>> pM = Begin(rM);
-    ViewPointer<const Complete<Equation>> pR = Begin(rR);
-    ViewPointer<const Complete<Equation>> pEnd = End(rR);
-    int n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
-    if (n >= kDefaultChunkSize) {
-      Load(sM_, pL);
-      Load(sR_, pM);
+  for (std::size_t d = 0; d < static_cast<std::size_t>(Rank); ++d) {
+    const Direction dir = static_cast<Direction>(d);
+    // Tag those cells which have both neighbors
+    const IndexBox<Rank> box =
+        Intersect(tags.Box(), Shrink(Box<0>(states), dir, {1, 1}));
+    if (!std::equal(box.lower.begin(), box.lower.end(), box.upper.begin(),
+                    std::less<>{})) {
+      continue;
     }
-    const Array<char, 1> ones = Array<char, 1>::Constant(char(1));
-    while (n >= kDefaultChunkSize) {
-      sL_ = sM_;
-      sM_ = sR_;
-      Load(sR_, pR);
-      Array<char, 1> tags_array = Array<char, 1>::Map(tags_pointer);
+    BasicView shifted = Subview(states, Grow(box, dir, {1, 1}));
+    std::tuple views{tags.Subview(box), Shrink(shifted, dir, {0, 2}),
+                     Shrink(shifted, dir, {1, 1}),
+                     Shrink(shifted, dir, {2, 0})};
+    FUB_ASSERT(Box<0>(std::get<2>(views)) == box);
+    auto TagArray = [&](Array<char, 1>& tags_array) {
+      const Array<char, 1> ones = Array<char, 1>::Constant(char(1));
       boost::mp11::tuple_for_each(Base::conditions_, [&](auto&& condition) {
         auto&& [proj, tolerance] = condition;
         const Array1d xL = std::invoke(proj, sL_);
@@ -272,31 +265,42 @@ void ArrayGradientDetector_<Equation, Projections...>::TagCellsForRefinement(
         const Array1d xR = std::invoke(proj, sR_);
         const Array1d left = (xM - xL).abs() / (xM.abs() + xL.abs());
         const Array1d right = (xM - xR).abs() / (xM.abs() + xR.abs());
-        tags_array = (left < tolerance).select(tags_array, ones);
-        tags_array = (right < tolerance).select(tags_array, ones);
+        tags_array = (left > tolerance).select(ones, tags_array);
+        tags_array = (right > tolerance).select(ones, tags_array);
       });
-      Array<char, 1>::Map(tags_pointer) = tags_array;
-      Advance(pR, kDefaultChunkSize);
-      tags_pointer += kDefaultChunkSize;
-      n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
-    }
-    LoadN(sL_, pL, n);
-    LoadN(sM_, pM, n);
-    LoadN(sR_, pR, n);
-    Array<char, 1> tags_array = Array<char, 1>::Zero();
-    LoadN(tags_array, tags_pointer, n);
-    boost::mp11::tuple_for_each(Base::conditions_, [&](auto&& condition) {
-      auto&& [proj, tolerance] = condition;
-      const Array1d xL = std::invoke(proj, sL_);
-      const Array1d xM = std::invoke(proj, sM_);
-      const Array1d xR = std::invoke(proj, sR_);
-      const Array1d left = (xM - xL).abs() / (xM.abs() + xL.abs());
-      const Array1d right = (xM - xR).abs() / (xM.abs() + xR.abs());
-      tags_array = (left < tolerance).select(tags_array, ones);
-      tags_array = (right < tolerance).select(tags_array, ones);
+    };
+    ForEachRow(views, [&](span<char> tags_row,
+                          const Row<const Complete<Equation>>& rL,
+                          const Row<const Complete<Equation>>& rM,
+                          const Row<const Complete<Equation>>& rR) {
+      char* tags_pointer = tags_row.begin();
+      ViewPointer<const Complete<Equation>> pL = Begin(rL);
+      ViewPointer<const Complete<Equation>> pM = Begin(rM);
+      ViewPointer<const Complete<Equation>> pR = Begin(rR);
+      ViewPointer<const Complete<Equation>> pEnd = End(rR);
+      int n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
+      while (n >= kDefaultChunkSize) {
+        Load(sL_, pL);
+        Load(sM_, pM);
+        Load(sR_, pR);
+        Array<char, 1> tags_array = Array<char, 1>::Map(tags_pointer);
+        TagArray(tags_array);
+        Array<char, 1>::Map(tags_pointer) = tags_array;
+        Advance(pL, kDefaultChunkSize);
+        Advance(pM, kDefaultChunkSize);
+        Advance(pR, kDefaultChunkSize);
+        tags_pointer += kDefaultChunkSize;
+        n = static_cast<int>(get<0>(pEnd) - get<0>(pR));
+      }
+      LoadN(sL_, pL, n);
+      LoadN(sM_, pM, n);
+      LoadN(sR_, pR, n);
+      Array<char, 1> tags_array = Array<char, 1>::Zero();
+      LoadN(tags_array, tags_pointer, n);
+      TagArray(tags_array);
+      StoreN(tags_pointer, tags_array, n);
     });
-    StoreN(tags_pointer, tags_array, n);
-  });
+  }
 }
 
 } // namespace fub
-- 
2.43.0


From 42f2f0541a3b81017c891c5c6d1339d7af4f8433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 12/50] fix: shallow water flux uses momentum in place of
 velocity

The flux multiplied the momentum by the momentum of the normal direction, not
by its velocity, so that momentum was advected wrongly unless the height is 1.
---
 src/equations/ShallowWater.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equations/ShallowWater.cpp b/src/equations/ShallowWater.cpp
index c643179..c5eeb14 100644
--- a/src/equations/ShallowWater.cpp
+++ b/src/equations/ShallowWater.cpp
@@ -26,7 +26,7 @@ namespace fub {
 void ShallowWater::Flux(Conservative& flux, const Complete& state,
                         Direction dir) const noexcept {
   const int d = int(dir);
-  const double velocity = state.momentum[d];
+  const double velocity = state.momentum[d] / state.height;
   flux.height = state.momentum[d];
   flux.momentum[0] = velocity * state.momentum[0];
   flux.momentum[1] = velocity * state.momentum[1];
@@ -36,7 +36,7 @@ void ShallowWater::Flux(Conservative& flux, const Complete& state,
 void ShallowWater::Flux(ConservativeArray& flux, const CompleteArray& state,
                         Direction dir) const noexcept {
   const int d = int(dir);
-  const Array1d velocity = state.momentum.row(d);
+  const Array1d velocity = state.momentum.row(d) / state.height;
   flux.height = state.momentum.row(d);
   flux.momentum.row(0) = velocity * state.momentum.row(0);
   flux.momentum.row(1) = velocity * state.momentum.row(1);
-- 
2.43.0


From 6deddc98d461ad489f73536bfb5304d11f1e4399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 13/50] fix: isentropic expansion counts its kinetic energy
 twice

SetIsentropicPressure of PerfectGasMix sets the velocity that keeps the total
enthalpy, IsentropicExpansionWithoutDissipation added the kinetic energy of its
own velocity to that energy and saw no difference of the enthalpies.
---
 include/fub/equations/EulerEquation.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fub/equations/EulerEquation.hpp b/include/fub/equations/EulerEquation.hpp
index 8ffbc7a..505e037 100644
--- a/include/fub/equations/EulerEquation.hpp
+++ b/include/fub/equations/EulerEquation.hpp
@@ -312,6 +312,9 @@ inline constexpr struct IsentropicExpansionWithoutDissipationFn {
       dest.energy = src.energy - rhoE_kin;
       const double h_before = (dest.energy + dest.pressure) / dest.density;
       SetIsentropicPressure(eq, dest, dest, pressure_dest);
+      // SetIsentropicPressure may set a velocity, which is determined below.
+      dest.energy -= KineticEnergy(dest.density, dest.momentum);
+      dest.momentum = Array<double, N, 1>::Zero();
       const double h_after = (dest.energy + dest.pressure) / dest.density;
       const double h_diff = h_before - h_after;
       const double e_kin_new = 2.0 * efficiency * std::abs(h_diff) +
-- 
2.43.0


From ef8a35ab61b3dfad53d26c5086251d609f4e9045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 14/50] fix: isentropic change of pressure changes the
 composition

Species and passive scalars are densities; they were kept while the density
changed, so that mass fractions were scaled and their sum exceeded one.
---
 include/fub/equations/PerfectGasMix.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fub/equations/PerfectGasMix.hpp b/include/fub/equations/PerfectGasMix.hpp
index f0e7af1..489050a 100644
--- a/include/fub/equations/PerfectGasMix.hpp
+++ b/include/fub/equations/PerfectGasMix.hpp
@@ -633,8 +633,9 @@ private:
     q.density = rho_new;
     q.momentum = rhou_new;
     q.energy = rhoE_new;
-    q.species = q0.species;
-    q.passive_scalars = q0.passive_scalars;
+    // keep the mass fractions
+    q.species = q0.species * (rho_new / rho_old);
+    q.passive_scalars = q0.passive_scalars * (rho_new / rho_old);
     q.pressure = p_new;
     q.speed_of_sound = std::sqrt(eq.gamma * p_new / rho_new);
   }
-- 
2.43.0


From c34ebb84043ad9df01daf36db753380a3a3d4a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 15/50] fix: HLLEM flux of scalar and three-dimensional states
 upwinds with a wrong sign and drops mass

---
 src/equations/perfect_gas/HllemMethod.hpp | 26 ++++++++++++-----------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 59d8ae6..0019a69 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -490,7 +490,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -514,7 +514,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -545,9 +545,9 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
       const double f_hllem_rhov =
-          f_rho * (upwind * vL_[iy] - (1 - upwind) * vR_[iy]);
+          f_rho * (upwind * vL_[iy] + (1 - upwind) * vR_[iy]);
       const double f_hllem_rhoE =
-          f_rho * (upwind * eKinRL - (1 - upwind) * eKinRR);
+          f_rho * (upwind * eKinRL + (1 - upwind) * eKinRR);
       flux.momentum[iy] = f_hllem_rhov;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half +
                     f_hllem_rhoE;
@@ -572,7 +572,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -596,7 +596,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -625,15 +625,17 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
                            l25 * deltaRhoE;
     const double b_delta = b * delta;
     const double b_delta_alpha_2 = b_delta * alpha_2;
+    flux.density = flux_hlle_.density - b_delta_alpha_2;
+    flux.momentum[ix] = flux_hlle_.momentum[ix] - b_delta_alpha_2 * roeU[ix];
     if constexpr (Larrouturou) {
       const double f_rho = flux.density;
       const int upwind = (f_rho > 0.0);
       const double f_hllem_rhov =
-          f_rho * (upwind * vL_[iy] - (1 - upwind) * vR_[iy]);
+          f_rho * (upwind * vL_[iy] + (1 - upwind) * vR_[iy]);
       const double f_hllem_rhow =
-          f_rho * (upwind * vL_[iz] - (1 - upwind) * vR_[iz]);
+          f_rho * (upwind * vL_[iz] + (1 - upwind) * vR_[iz]);
       const double f_hllem_rhoE =
-          f_rho * (upwind * eKinRL - (1 - upwind) * eKinRR);
+          f_rho * (upwind * eKinRL + (1 - upwind) * eKinRR);
       flux.momentum[iy] = f_hllem_rhov;
       flux.momentum[iz] = f_hllem_rhow;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half +
@@ -665,7 +667,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.species[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -689,7 +691,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
         if constexpr (Larrouturou) {
           const double f_rho = flux.density;
           const int upwind = (f_rho > 0.0);
-          const double f_hllem = f_rho * (upwind * YL - (1 - upwind) * YR);
+          const double f_hllem = f_rho * (upwind * YL + (1 - upwind) * YR);
           flux.passive_scalars[i] = f_hllem;
         } else {
           const double roeY = (sqRhoL * YL + sqRhoR * YR) / sqRhoSum;
@@ -989,7 +991,7 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const Array1d b_delta_alpha_2 = b_delta * alpha_2;
     flux.density = flux_hlle_array_.density - b_delta_alpha_2;
     flux.momentum.row(ix) =
-        flux_hlle_array_.momentum.row(ix) - b_delta_alpha_2 * roeU.row(iy);
+        flux_hlle_array_.momentum.row(ix) - b_delta_alpha_2 * roeU.row(ix);
 
     if constexpr (Larrouturou) {
       const MaskArray upwind = (flux.density > 0.0);
-- 
2.43.0


From 233d5d9d5451a7d9eaf369a3b3d7ca5f06389c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 16/50] fix: HLLEM Riemann solutions lose the tangential
 momentum of supersonic flow

---
 src/equations/perfect_gas/HllemMethod.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index 0019a69..b4fab5f 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -359,9 +359,9 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
   }
 
   if (0.0 < sL) {
-    solution = left_;
+    solution = left;
   } else if (sR < 0.0) {
-    solution = right_;
+    solution = right;
   } else {
     AsCons(solution) = w_hllem_;
     CompleteFromCons(equation_, solution, solution);
-- 
2.43.0


From adea69f86a789594867ee276d6783b3559e52f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 17/50] fix: HLLEM anti-diffusion ignores the reference Mach
 number

---
 src/equations/perfect_gas/HllemMethod.hpp | 33 ++++++++++++-----------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/equations/perfect_gas/HllemMethod.hpp b/src/equations/perfect_gas/HllemMethod.hpp
index b4fab5f..77eea91 100644
--- a/src/equations/perfect_gas/HllemMethod.hpp
+++ b/src/equations/perfect_gas/HllemMethod.hpp
@@ -184,7 +184,7 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
     const int iy = (ix + 1) % 2;
     const double l21 = gm1 / roeA2 * (roeH - Msq * roeU.matrix().squaredNorm());
     const double l22 = gm1 / roeA2 * Msq * roeU[0];
-    const double l23 = gm1 / roeA2 * roeU[1];
+    const double l23 = gm1 / roeA2 * Msq * roeU[1];
     const double l24 = gm1 / roeA2 * (-1.0);
     const double alpha_2 = l21 * deltaRho + l22 * deltaRhoU[0] +
                            l23 * deltaRhoU[1] + l24 * deltaRhoE;
@@ -211,7 +211,7 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
                               u_bar_delta_alpha_3 * 1.0;
       w_hllem_.energy = w_hlle_.energy -
                         u_bar_delta_alpha_2 * squaredNormRoeU_half -
-                        u_bar_delta_alpha_3 * roeU[iy];
+                        u_bar_delta_alpha_3 * Msq * roeU[iy];
     }
     if constexpr (fub::euler::state_with_species<
                                                  Conservative>()) {
@@ -267,8 +267,8 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
     const int iz = (iy + 1) % 3;
     const double l21 = gm1 / roeA2 * (roeH - Msq * roeU.matrix().squaredNorm());
     const double l22 = gm1 / roeA2 * Msq * roeU[0];
-    const double l23 = gm1 / roeA2 * roeU[1];
-    const double l24 = gm1 / roeA2 * roeU[2];
+    const double l23 = gm1 / roeA2 * Msq * roeU[1];
+    const double l24 = gm1 / roeA2 * Msq * roeU[2];
     const double l25 = gm1 / roeA2 * (-1.0);
     const double l31 = -roeU[iy];
     // const double l32 = 0;
@@ -307,7 +307,8 @@ void Hllem<EulerEquation, Larrouturou>::SolveRiemannProblem(
           u_bar_delta * (alpha_2 * roeU[iz] + alpha_4 * 1.0);
       w_hllem_.energy = w_hlle_.energy -
                         u_bar_delta * (alpha_2 * squaredNormRoeU_half +
-                                       alpha_3 * roeU[iy] + alpha_4 * roeU[iz]);
+                                       alpha_3 * Msq * roeU[iy] +
+                                       alpha_4 * Msq * roeU[iz]);
     }
     if constexpr (fub::euler::state_with_species<
                                                  Conservative>()) {
@@ -533,7 +534,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const int iy = (ix + 1) % 2;
     const double l21 = gm1 / roeA2 * (roeH - Msq * roeU.matrix().squaredNorm());
     const double l22 = gm1 / roeA2 * Msq * roeU[0];
-    const double l23 = gm1 / roeA2 * roeU[1];
+    const double l23 = gm1 / roeA2 * Msq * roeU[1];
     const double l24 = gm1 / roeA2 * (-1.0);
     const double alpha_2 = l21 * deltaRho + l22 * deltaRhoU[0] +
                            l23 * deltaRhoU[1] + l24 * deltaRhoE;
@@ -559,7 +560,7 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       flux.momentum[iy] = flux_hlle_.momentum[iy] - b_delta_alpha_2 * roeU[iy] -
                           b_delta_alpha_3 * 1.0;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half -
-                    b_delta_alpha_3 * roeU[iy];
+                    b_delta_alpha_3 * Msq * roeU[iy];
     }
     if constexpr (fub::euler::state_with_species<
                                                  Conservative>()) {
@@ -617,8 +618,8 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const int iz = (iy + 1) % 3;
     const double l21 = gm1 / roeA2 * (roeH - Msq * roeU.matrix().squaredNorm());
     const double l22 = gm1 / roeA2 * Msq * roeU[0];
-    const double l23 = gm1 / roeA2 * roeU[1];
-    const double l24 = gm1 / roeA2 * roeU[2];
+    const double l23 = gm1 / roeA2 * Msq * roeU[1];
+    const double l24 = gm1 / roeA2 * Msq * roeU[2];
     const double l25 = gm1 / roeA2 * (-1.0);
     const double alpha_2 = l21 * deltaRho + l22 * deltaRhoU[0] +
                            l23 * deltaRhoU[1] + l24 * deltaRhoU[2] +
@@ -654,7 +655,8 @@ double Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
       flux.momentum[iz] = flux_hlle_.momentum[iz] - b_delta_alpha_2 * roeU[iz] -
                           b_delta_alpha_4;
       flux.energy = flux_hlle_.energy - b_delta_alpha_2 * squaredNormRoeU_half -
-                    b_delta_alpha_3 * roeU[iy] - b_delta_alpha_4 * roeU[iz];
+                    b_delta_alpha_3 * Msq * roeU[iy] -
+                    b_delta_alpha_4 * Msq * roeU[iz];
     }
     if constexpr (fub::euler::state_with_species<
                                                  Conservative>()) {
@@ -896,7 +898,7 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const int iy = (ix == 0);
     const Array1d l21 = gm1_over_roeA2 * (roeH - squaredNormRoeU);
     const Array1d l22 = gm1_over_roeA2 * Msq * roeU.row(0);
-    const Array1d l23 = gm1_over_roeA2 * roeU.row(1);
+    const Array1d l23 = gm1_over_roeA2 * Msq * roeU.row(1);
     const Array1d l24 = -gm1_over_roeA2;
     const Array1d alpha_2 = l21 * deltaRho + l22 * deltaRhoU.row(0) +
                             l23 * deltaRhoU.row(1) + l24 * deltaRhoE;
@@ -921,7 +923,7 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
                               b_delta_alpha_2 * roeU.row(iy) - b_delta_alpha_3;
       flux.energy = flux_hlle_array_.energy -
                     b_delta_alpha_2 * squaredNormRoeU_half -
-                    b_delta_alpha_3 * roeU.row(iy);
+                    b_delta_alpha_3 * Msq * roeU.row(iy);
     }
     if constexpr (euler::state_with_species<Conservative>()) {
       const int n_species = flux.species.rows();
@@ -980,8 +982,8 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
     const int iz = (iy + 1) % 3;
     const Array1d l21 = gm1_over_roeA2 * (roeH - squaredNormRoeU);
     const Array1d l22 = gm1_over_roeA2 * Msq * roeU.row(0);
-    const Array1d l23 = gm1_over_roeA2 * roeU.row(1);
-    const Array1d l24 = gm1_over_roeA2 * roeU.row(2);
+    const Array1d l23 = gm1_over_roeA2 * Msq * roeU.row(1);
+    const Array1d l24 = gm1_over_roeA2 * Msq * roeU.row(2);
     const Array1d l25 = -gm1_over_roeA2;
 
     const Array1d alpha_2 = l21 * deltaRho + l22 * deltaRhoU.row(0) +
@@ -1017,7 +1019,8 @@ Array1d Hllem<EulerEquation, Larrouturou>::ComputeNumericFlux(
                               b_delta_alpha_2 * roeU.row(iz) - b_delta_alpha_4;
       flux.energy =
           flux_hlle_array_.energy - b_delta_alpha_2 * squaredNormRoeU_half -
-          b_delta_alpha_3 * roeU.row(iy) - b_delta_alpha_4 * roeU.row(iz);
+          b_delta_alpha_3 * Msq * roeU.row(iy) -
+          b_delta_alpha_4 * Msq * roeU.row(iz);
     }
 
     if constexpr (euler::state_with_species<Conservative>()) {
-- 
2.43.0


From 72a3b093b2fea8a1e868b875f03d77da737537c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 18/50] fix: vectorized HLL Riemann solutions keep stale
 pressures

---
 include/fub/flux_method/HllMethod.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/flux_method/HllMethod.hpp b/include/fub/flux_method/HllMethod.hpp
index e1ab328..5280151 100644
--- a/include/fub/flux_method/HllMethod.hpp
+++ b/include/fub/flux_method/HllMethod.hpp
@@ -254,7 +254,7 @@ void HllArrayBase<Equation, SignalSpeeds, true>::SolveRiemannProblem(
       },
       AsCons(solution), flux_left_array_, flux_right_array_, AsCons(left),
       AsCons(right));
-  //  CompleteFromCons(GetEquation(), solution, solution);
+  CompleteFromCons(GetEquation(), solution, solution);
 }
 
 template <typename Equation, typename SignalSpeeds>
-- 
2.43.0


From 82d269363b3446e2694023f63e65b81394ebd38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:41 +0000
Subject: [PATCH 19/50] fix: shallow water shock speeds cancel for nearly equal
 heights

The speed of a shock was the quotient of the jumps of momentum and height.
The middle state is known up to the tolerance of Newton's method only, so the
quotient was arbitrary for faint shocks, and with it the stable time step.
---
 src/equations/ShallowWater.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/equations/ShallowWater.cpp b/src/equations/ShallowWater.cpp
index c5eeb14..292fc2a 100644
--- a/src/equations/ShallowWater.cpp
+++ b/src/equations/ShallowWater.cpp
@@ -22,6 +22,14 @@
 #include "fub/NewtonIteration.hpp"
 
 namespace fub {
+namespace {
+// The speed of a shock from height h to height hM relative to the flow in
+// front of it. In contrast to the quotient of the jumps this does not cancel
+// if both heights are almost equal.
+double ShockSpeed(double g, double h, double hM) {
+  return std::sqrt(0.5 * g * hM * (hM + h) / h);
+}
+} // namespace
 
 void ShallowWater::Flux(Conservative& flux, const Complete& state,
                         Direction dir) const noexcept {
@@ -112,8 +120,8 @@ std::array<double, 2> ExactRiemannSolver<ShallowWater>::ComputeSignals(
     const double sqrt_g_hL = std::sqrt(equation_.gravity_ * left.height);
     signals[0] = uL - sqrt_g_hL;
   } else {
-    signals[0] = (middle.momentum[d0] - left.momentum[d0]) /
-                 (middle.height - left.height);
+    signals[0] = left.momentum[d0] / left.height -
+                 ShockSpeed(equation_.gravity_, left.height, middle.height);
   }
   // Compute right fastest signal
   if (middle.height <= right.height) {
@@ -122,8 +130,8 @@ std::array<double, 2> ExactRiemannSolver<ShallowWater>::ComputeSignals(
     const double sqrt_g_hR = std::sqrt(equation_.gravity_ * right.height);
     signals[1] = uR + sqrt_g_hR;
   } else {
-    signals[1] = (right.momentum[d0] - middle.momentum[d0]) /
-                 (right.height - middle.height);
+    signals[1] = right.momentum[d0] / right.height +
+                 ShockSpeed(equation_.gravity_, right.height, middle.height);
   }
   return signals;
 }
@@ -174,7 +182,7 @@ void ExactRiemannSolver<ShallowWater>::SolveRiemannProblem(
     middle.momentum[d1] = hM * vL;
     // left side is Shock
     if (hM > hL) {
-      const double sL = (hM * uM - hL * uL) / (hM - hL);
+      const double sL = uL - ShockSpeed(g, hL, hM);
       if (0 < sL) {
         state = left;
       } else {
@@ -201,7 +209,7 @@ void ExactRiemannSolver<ShallowWater>::SolveRiemannProblem(
     middle.momentum[d1] = hM * vR;
     // right side is shock
     if (hM > hR) {
-      const double sR = (hR * uR - hM * uM) / (hR - hM);
+      const double sR = uR + ShockSpeed(g, hR, hM);
       if (sR < 0) {
         state = right;
       } else {
-- 
2.43.0


From a5b47e5b70a23257fa1b0d336c32e8f1e15a4378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:26 +0000
Subject: [PATCH 20/50] fix: second order methods link in every number of
 dimensions

---
 .../MusclHancockCharacteristicMethod.hpp           | 14 +++++++-------
 .../perfect_gas/MusclHancockMethod_3d.cpp          |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp b/src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp
index 69e5ca5..080a8e5 100644
--- a/src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp
+++ b/src/equations/perfect_gas/MusclHancockCharacteristicMethod.hpp
@@ -26,14 +26,14 @@ namespace fub::perfect_gas {
 using Limiter = std::function<double(double, double)>;
 using ArrayLimiter = std::function<Array1d(Array1d, Array1d)>;
 
-std::array<int, 3> MakeIndices(Direction dir) {
+inline std::array<int, 3> MakeIndices(Direction dir) {
   const int ix = static_cast<int>(dir);
   const int iy = (ix + 1) % 3;
   const int iz = (iy + 1) % 3;
   return {ix, iy, iz};
 }
 
-Characteristics ComputeAmplitudes(const Primitives& left,
+inline Characteristics ComputeAmplitudes(const Primitives& left,
                                   const Primitives& right, double rhoc,
                                   double ooc2, int ix, int iy, int iz) {
   const double dp = right.pressure - left.pressure;
@@ -48,7 +48,7 @@ Characteristics ComputeAmplitudes(const Primitives& left,
   return amplitudes;
 }
 
-CharacteristicsArray ComputeAmplitudes(const PrimitivesArray& left,
+inline CharacteristicsArray ComputeAmplitudes(const PrimitivesArray& left,
                                        const PrimitivesArray& right,
                                        Array1d rhoc, Array1d ooc2, int ix,
                                        int iy, int iz) {
@@ -64,7 +64,7 @@ CharacteristicsArray ComputeAmplitudes(const PrimitivesArray& left,
   return amplitudes;
 }
 
-void Recombine(Primitives& diffs, const Characteristics& q, double rhoc,
+inline void Recombine(Primitives& diffs, const Characteristics& q, double rhoc,
                double ooc2, Direction dir) {
   diffs.pressure = 0.5 * (q.minus + q.plus);
   diffs.density = ooc2 * diffs.pressure + q.zero;
@@ -74,7 +74,7 @@ void Recombine(Primitives& diffs, const Characteristics& q, double rhoc,
   diffs.velocity[iz] = q.w;
 }
 
-void Recombine(PrimitivesArray& diffs, const CharacteristicsArray& q,
+inline void Recombine(PrimitivesArray& diffs, const CharacteristicsArray& q,
                Array1d rhoc, Array1d ooc2, Direction dir) {
   diffs.pressure = 0.5 * (q.minus + q.plus);
   diffs.density = ooc2 * diffs.pressure + q.zero;
@@ -155,7 +155,7 @@ ComputeSlopes(CharacteristicsArray& limited,
   return limited;
 }
 
-void DoTimeStep(Characteristics& ampls, const Characteristics& slope,
+inline void DoTimeStep(Characteristics& ampls, const Characteristics& slope,
                 int is_right_side, double lambda, double u, double c) {
   // clang-format off
   int sign = 1 - 2 * is_right_side;
@@ -167,7 +167,7 @@ void DoTimeStep(Characteristics& ampls, const Characteristics& slope,
   // clang-format on
 }
 
-void DoTimeStep(CharacteristicsArray& ampls, const CharacteristicsArray& slope,
+inline void DoTimeStep(CharacteristicsArray& ampls, const CharacteristicsArray& slope,
                 int is_right_side, Array1d lambda, Array1d u, Array1d c) {
   // clang-format off
   int sign = 1 - 2 * is_right_side;
diff --git a/src/equations/perfect_gas/MusclHancockMethod_3d.cpp b/src/equations/perfect_gas/MusclHancockMethod_3d.cpp
index 00a9981..b4a2023 100644
--- a/src/equations/perfect_gas/MusclHancockMethod_3d.cpp
+++ b/src/equations/perfect_gas/MusclHancockMethod_3d.cpp
@@ -22,7 +22,7 @@
 
 namespace fub {
 
-template struct MusclHancock<PerfectGas<2>>;
+template struct MusclHancock<PerfectGas<3>>;
 template class FluxMethod<MusclHancock<PerfectGas<3>>>;
 
 } // namespace fub
-- 
2.43.0


From 57a06fc940d43326f4134dc378fc40926ffabe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 21/50] fix: ConservativeGradient keeps its equation

---
 include/fub/flux_method/Gradient.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fub/flux_method/Gradient.hpp b/include/fub/flux_method/Gradient.hpp
index b4f8804..92b9534 100644
--- a/include/fub/flux_method/Gradient.hpp
+++ b/include/fub/flux_method/Gradient.hpp
@@ -90,8 +90,8 @@ public:
   explicit ConservativeGradient(const GradientMethod& method)
       : gradient_{method} {}
 
-  ConservativeGradient(const Equation&, const GradientMethod& method)
-      : gradient_{method} {}
+  ConservativeGradient(const Equation& eq, const GradientMethod& method)
+      : equation_{eq}, gradient_{method} {}
 
   void ComputeGradient(Gradient& dudx, span<const Complete, 3> q, double dx,
                        Direction dir);
-- 
2.43.0


From cd04ed478060a711f5f5c4955b5c3a06fa7c58b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 22/50] fix: ReconstructInvers inverts Reconstruct

---
 include/fub/flux_method/Reconstruct.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/fub/flux_method/Reconstruct.hpp b/include/fub/flux_method/Reconstruct.hpp
index 1860847..e0c0df6 100644
--- a/include/fub/flux_method/Reconstruct.hpp
+++ b/include/fub/flux_method/Reconstruct.hpp
@@ -316,11 +316,12 @@ void PrimitiveReconstruction<EulerEquation>::ReconstructInvers(
     u = (uL - eta * du) / one_minus_tau_du;
   } else {
     const double A = one_minus_tau_du * tau * drho;
-    const double B = one_minus_tau_du * (rhoL - eta * drho) + tau * drho * (uL - eta * du);
+    const double B = one_minus_tau_du * (rhoL - eta * drho) - tau * drho * (uL - eta * du);
     const double C = -((rhoL - eta * drho) * (uL - eta * du) + tau * dp * one_minus_tau_du );
     const double D = B*B - 4.0 * A * C;
     FUB_ASSERT(D >= 0);
-    u = 0.5 * (-B + std::sqrt(D)) / A;
+    // this form of the root holds for A = 0, too
+    u = -2.0 * C / (B + std::sqrt(D));
   }
   w_rec_.density = (rhoL - eta * (1.0 - lambda * u) * drho) / one_minus_tau_du; 
   w_rec_.pressure = (pL - eta * (1.0 - lambda * u) * dp) / one_minus_gamma_tau_du;
@@ -343,7 +344,7 @@ void PrimitiveReconstruction<EulerEquation>::ReconstructInvers(
     for (int i = 0; i < w_rec_.passive_scalars.size(); ++i) {
       w_rec_.passive_scalars[i] =
           w_.passive_scalars[i] -
-          eta * (dw_dx.passive_scalars[i] +
+          eta * (dw_dx.passive_scalars[i] -
                      lambda * u * dw_dx.passive_scalars[i]);
     }
   }
-- 
2.43.0


From 67e64646cb075e35bfb5fad738a7a2e72ac1c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 23/50] fix: characteristic reconstruction scales sound waves
 by the Mach number

---
 include/fub/flux_method/Reconstruct.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/fub/flux_method/Reconstruct.hpp b/include/fub/flux_method/Reconstruct.hpp
index e0c0df6..769861b 100644
--- a/include/fub/flux_method/Reconstruct.hpp
+++ b/include/fub/flux_method/Reconstruct.hpp
@@ -409,7 +409,7 @@ void CharacteristicsReconstruction<EulerEquation>::Reconstruct(
     Complete& reconstruction, const Complete& q0, const Characteristics& dKdx,
     Duration dt, double dx, Direction dir, Side side) noexcept {
   PrimFromComplete(equation_, w_rec_, q0);
-  const double Minv = 1.0 / euler::MaSq(equation_);
+  const double Minv = 1.0 / std::sqrt(euler::MaSq(equation_));
   const int ix = static_cast<int>(dir);
   const double u = w_rec_.velocity[ix];
   const double c = q0.speed_of_sound;
@@ -463,6 +463,7 @@ void CharacteristicsReconstruction<EulerEquation>::Reconstruct(
     const CharacteristicsArray& dKdx, Duration dt, double dx, Direction dir,
     Side side) noexcept {
   PrimFromComplete(equation_, w_rec_array_, q0);
+  const double Minv = 1.0 / std::sqrt(euler::MaSq(equation_));
   const int ix = static_cast<int>(dir);
   const Array1d u = w_rec_array_.velocity.row(ix);
   const Array1d c = q0.speed_of_sound;
@@ -470,9 +471,9 @@ void CharacteristicsReconstruction<EulerEquation>::Reconstruct(
   const Array1d lambda = Array1d::Constant(sign * dt.count() / dx);
   const Array1d dx_half = Array1d::Constant(sign * 0.5 * dx);
   dKdt_array_.minus =
-      dx_half * dKdx.minus * (Array1d::Constant(1.0) - lambda * (u - c));
+      dx_half * dKdx.minus * (Array1d::Constant(1.0) - lambda * (u - c * Minv));
   dKdt_array_.plus =
-      dx_half * dKdx.plus * (Array1d::Constant(1.0) - lambda * (u + c));
+      dx_half * dKdx.plus * (Array1d::Constant(1.0) - lambda * (u + c * Minv));
   for (int i = 0; i < dKdt_array_.zero.rows(); ++i) {
     dKdt_array_.zero.row(i) =
         dx_half * dKdx.zero.row(i) * (Array1d::Constant(1.0) - lambda * u);
@@ -496,7 +497,7 @@ void CharacteristicsReconstruction<EulerEquation>::Reconstruct(
   dwdt_array_.pressure = 0.5 * (dKdt_array_.minus + dKdt_array_.plus);
   dwdt_array_.density = dwdt_array_.pressure / c2 + dKdt_array_.zero.row(0);
   dwdt_array_.velocity.row(ix) =
-      0.5 * (dKdt_array_.plus - dKdt_array_.minus) / rhoc;
+      0.5 * (dKdt_array_.plus - dKdt_array_.minus) * Minv / rhoc;
   constexpr int Rank = EulerEquation::Rank();
   for (int i = 1; i < Rank; ++i) {
     const int iy = (ix + i) % Rank;
-- 
2.43.0


From cdba31334057ccba5638304e41ce325ca2dbfc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:57 +0000
Subject: [PATCH 24/50] fix: primitive reconstruction scales the pressure
 gradient by the Mach number

---
 include/fub/flux_method/Reconstruct.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/fub/flux_method/Reconstruct.hpp b/include/fub/flux_method/Reconstruct.hpp
index 769861b..40810cc 100644
--- a/include/fub/flux_method/Reconstruct.hpp
+++ b/include/fub/flux_method/Reconstruct.hpp
@@ -231,6 +231,7 @@ void PrimitiveReconstruction<EulerEquation>::Reconstruct(
   const double a = q0.speed_of_sound;
   const double a2 = a * a;
   const double rho_a2 = rho * a2;
+  const double ooMaSq = 1.0 / euler::MaSq(equation_);
   w_rec_.density =
       w_.density +
       dx_half * (dw_dx.density -
@@ -242,7 +243,7 @@ void PrimitiveReconstruction<EulerEquation>::Reconstruct(
   w_rec_.velocity[ix] =
       w_.velocity[ix] +
       dx_half * (dw_dx.velocity[ix] -
-                 lambda * (u * dw_dx.velocity[ix] + dw_dx.pressure / rho));
+                 lambda * (u * dw_dx.velocity[ix] + ooMaSq * dw_dx.pressure / rho));
   constexpr int Rank = EulerEquation::Rank();
   for (int i = 1; i < Rank; ++i) {
     const int iy = (ix + i) % Rank;
@@ -305,6 +306,7 @@ void PrimitiveReconstruction<EulerEquation>::ReconstructInvers(
   const double du = dw_dx.velocity[ix];
   const double drho = dw_dx.density;
   const double dp = dw_dx.pressure;
+  const double ooMaSq = 1.0 / euler::MaSq(equation_);
 
   const double one_minus_tau_du = (1.0 - tau * du);
   const double one_minus_gamma_tau_du = (1.0 - equation_.gamma * tau * du);
@@ -317,7 +319,7 @@ void PrimitiveReconstruction<EulerEquation>::ReconstructInvers(
   } else {
     const double A = one_minus_tau_du * tau * drho;
     const double B = one_minus_tau_du * (rhoL - eta * drho) - tau * drho * (uL - eta * du);
-    const double C = -((rhoL - eta * drho) * (uL - eta * du) + tau * dp * one_minus_tau_du );
+    const double C = -((rhoL - eta * drho) * (uL - eta * du) + tau * ooMaSq * dp * one_minus_tau_du );
     const double D = B*B - 4.0 * A * C;
     FUB_ASSERT(D >= 0);
     // this form of the root holds for A = 0, too
@@ -366,6 +368,7 @@ void PrimitiveReconstruction<EulerEquation>::Reconstruct(
   const Array1d a = q0.speed_of_sound;
   const Array1d a2 = a * a;
   const Array1d rho_a2 = rho * a2;
+  const double ooMaSq = 1.0 / euler::MaSq(equation_);
   w_rec_array_.density =
       w_array_.density +
       dx_half * (dw_dx.density -
@@ -377,7 +380,8 @@ void PrimitiveReconstruction<EulerEquation>::Reconstruct(
   w_rec_array_.velocity.row(ix) =
       w_array_.velocity.row(ix) +
       dx_half * (dw_dx.velocity.row(ix) -
-                 lambda * (u * dw_dx.velocity.row(ix) + dw_dx.pressure / rho));
+                 lambda * (u * dw_dx.velocity.row(ix) +
+                           ooMaSq * dw_dx.pressure / rho));
   constexpr int Rank = EulerEquation::Rank();
   for (int i = 1; i < Rank; ++i) {
     const int iy = (ix + i) % Rank;
-- 
2.43.0


From d99414ba68192ffe88bb02febf3b39168c4af051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:34 +0000
Subject: [PATCH 25/50] fix: MUSCL flux is zero where all faces are closed

---
 src/equations/perfect_gas/MusclHancockPrimMethod.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/equations/perfect_gas/MusclHancockPrimMethod.hpp b/src/equations/perfect_gas/MusclHancockPrimMethod.hpp
index 216d111..1edbb59 100644
--- a/src/equations/perfect_gas/MusclHancockPrimMethod.hpp
+++ b/src/equations/perfect_gas/MusclHancockPrimMethod.hpp
@@ -189,6 +189,7 @@ void MusclHancockPrim<Dim>::ComputeNumericFlux(
     Direction dir) {
   MaskArray mask = face_fractions > 0.0;
   if (!mask.any()) {
+    ForEachComponent([](auto&& f) { f = Array1d::Zero(); }, flux);
     return;
   }
   auto limiter = [](Array1d qL, Array1d qM, Array1d qR) -> Array1d {
-- 
2.43.0


From 315a6a21a48956f527c50a2dd2ce01b4735d80b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 26/50] fix: make AnyCast for flux methods usable

---
 include/fub/HyperbolicMethod.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fub/HyperbolicMethod.hpp b/include/fub/HyperbolicMethod.hpp
index 764d040..fcf5df7 100644
--- a/include/fub/HyperbolicMethod.hpp
+++ b/include/fub/HyperbolicMethod.hpp
@@ -146,6 +146,8 @@ public:
   int GetStencilWidth() const;
 
 private:
+  template <typename T, typename I> friend T& AnyCast(AnyFluxMethod<I>& f);
+
   std::unique_ptr<detail::FluxMethodBase<IntegratorContext>> flux_method_;
 };
 
-- 
2.43.0


From 8d994e85cffc73f3e094368b7d009e58b447f7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:45 +0000
Subject: [PATCH 27/50] fix: copy empty initial data

---
 include/fub/AnyInitialData.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fub/AnyInitialData.hpp b/include/fub/AnyInitialData.hpp
index 40e43cd..9a754f1 100644
--- a/include/fub/AnyInitialData.hpp
+++ b/include/fub/AnyInitialData.hpp
@@ -134,7 +134,8 @@ AnyInitialData<GriddingAlgorithm>::AnyInitialData(T&& initial_data)
 
 template <typename GriddingAlgorithm>
 AnyInitialData<GriddingAlgorithm>::AnyInitialData(const AnyInitialData& other)
-    : initial_data_(other.initial_data_->Clone()) {}
+    : initial_data_(other.initial_data_ ? other.initial_data_->Clone()
+                                        : nullptr) {}
 
 template <typename GriddingAlgorithm>
 AnyInitialData<GriddingAlgorithm>&
-- 
2.43.0


From dac1c8a9adae838e204d224b627ea7569ab07d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:35 +0000
Subject: [PATCH 28/50] fix: print statistics that are given as a map

---
 include/fub/counter/CounterRegistry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/counter/CounterRegistry.hpp b/include/fub/counter/CounterRegistry.hpp
index cd7761c..b544618 100644
--- a/include/fub/counter/CounterRegistry.hpp
+++ b/include/fub/counter/CounterRegistry.hpp
@@ -80,7 +80,7 @@ int LengthOfFirstColumn(const ResultRange& results) {
       return std::max_element(results.begin(), results.end(),
                               [](auto&& p1, auto&& p2) {
                                 const std::string& name1 = std::get<0>(p1);
-                                const std::string& name2 = std::get<1>(p2);
+                                const std::string& name2 = std::get<0>(p2);
                                 return name1.size() < name2.size();
                               })
           ->first.size();
-- 
2.43.0


From 370179f12b20e71481b9bd2d7c6f657d6a1aed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 29/50] fix: count the time of a timer that is replaced by
 another one

---
 src/counter/Timer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/counter/Timer.cpp b/src/counter/Timer.cpp
index 3735b86..6839836 100644
--- a/src/counter/Timer.cpp
+++ b/src/counter/Timer.cpp
@@ -34,6 +34,10 @@ Timer::Timer(Timer&& other) noexcept
                                std::chrono::steady_clock::time_point())) {}
 
 Timer& Timer::operator=(Timer&& other) noexcept {
+  if (counter_ && this != &other) {
+    this->stop();
+    this->submit();
+  }
   counter_ = std::exchange(other.counter_, nullptr);
   start_time_ =
       std::exchange(other.start_time_, std::chrono::steady_clock::time_point());
-- 
2.43.0


From ef0270de74a368b1479adfe0084c7de410b873f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:31 +0000
Subject: [PATCH 30/50] fix: gather the statistics of all processes for the
 same counter

---
 src/counter/CounterRegistry.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/counter/CounterRegistry.cpp b/src/counter/CounterRegistry.cpp
index 248e76f..90dc712 100644
--- a/src/counter/CounterRegistry.cpp
+++ b/src/counter/CounterRegistry.cpp
@@ -23,6 +23,25 @@
 
 namespace fub {
 
+namespace {
+// The statistics of each counter are gathered in a collective operation. All
+// processes have to visit the counters in the same order, regardless of the
+// order in which the counters have been created.
+std::vector<const Counter*>
+SortByName(const std::unordered_map<std::string, Counter>& database) {
+  std::vector<const Counter*> counters;
+  counters.reserve(database.size());
+  for (const std::pair<const std::string, Counter>& c : database) {
+    counters.push_back(&c.second);
+  }
+  std::sort(counters.begin(), counters.end(),
+            [](const Counter* c1, const Counter* c2) {
+              return c1->get_name() < c2->get_name();
+            });
+  return counters;
+}
+} // namespace
+
 Counter* CounterRegistry::get(std::string const& name) {
   auto iterator = database_.emplace(name, name).first;
   return &iterator->second;
@@ -35,8 +54,8 @@ Timer CounterRegistry::get_timer(std::string const& name) {
 
 std::vector<CounterResult> CounterRegistry::gather_statistics() {
   std::vector<CounterResult> statistics;
-  for (const std::pair<const std::string, Counter>& c : database_) {
-    std::optional<CounterResult> result = c.second.gather_statistics();
+  for (const Counter* counter : SortByName(database_)) {
+    std::optional<CounterResult> result = counter->gather_statistics();
     if (result.has_value()) {
       statistics.push_back(*result);
     }
@@ -47,8 +66,8 @@ std::vector<CounterResult> CounterRegistry::gather_statistics() {
 std::unordered_map<std::string, CounterResult>
 CounterRegistry::gather_statistics_map() {
   std::unordered_map<std::string, CounterResult> statistics;
-  for (const std::pair<const std::string, Counter>& c : database_) {
-    std::optional<CounterResult> result = c.second.gather_statistics();
+  for (const Counter* counter : SortByName(database_)) {
+    std::optional<CounterResult> result = counter->gather_statistics();
     if (result.has_value()) {
       statistics.emplace(result->name, *result);
     }
-- 
2.43.0


From 58574f36b3cb21d1ee420ef2dfe89ff967cf4ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 31/50] fix: compute the distance to the closest point of a
 cone

---
 src/geometry/Cone.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geometry/Cone.cpp b/src/geometry/Cone.cpp
index 30b2abf..92844db 100644
--- a/src/geometry/Cone.cpp
+++ b/src/geometry/Cone.cpp
@@ -56,13 +56,10 @@ double ConeIF::ComputeDistanceTo(const std::array<double, 3>& x) const
     if (r < base_radius_) {
       return sign * -l;
     }
-    return sign * std::sqrt(l * l + (x0 - (p - l * normal)).squaredNorm());
+    return sign * std::hypot(l, r - base_radius_);
   }
 
   Eigen::Vector3d apex = x0 + height_ * normal;
-  if (height_ < l) {
-    return sign * (p - apex).norm();
-  }
 
   const Eigen::Vector3d rim_point = [&]() -> Eigen::Vector3d {
     if (dp_radial.norm() > std::sqrt(std::numeric_limits<double>::epsilon())) {
@@ -75,7 +72,10 @@ double ConeIF::ComputeDistanceTo(const std::array<double, 3>& x) const
   const double distance_on_face = face_tangential.dot(p - rim_point);
 
   if (distance_on_face < 0.0) {
-    return sign * std::sqrt(l * l + (p - rim_point).squaredNorm());
+    return sign * (p - rim_point).norm();
+  }
+  if ((apex - rim_point).norm() < distance_on_face) {
+    return sign * (p - apex).norm();
   }
 
   Eigen::Vector3d p_on_face = rim_point + distance_on_face * face_tangential;
-- 
2.43.0


From a9792ad1de0490f107a7549458386935225aa6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:16 +0000
Subject: [PATCH 32/50] fix: read all points of a file

---
 src/geometry/ExpandTube.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/ExpandTube.cpp b/src/geometry/ExpandTube.cpp
index a27ee6d..aefff27 100644
--- a/src/geometry/ExpandTube.cpp
+++ b/src/geometry/ExpandTube.cpp
@@ -111,7 +111,7 @@ Eigen::Matrix<double, 3, Eigen::Dynamic>
 ReadPointsFromFile(const std::string& filename) {
   const std::string content = ReadFile_(filename);
   const std::ptrdiff_t n_points =
-      std::count(content.begin(), content.end(), '\n');
+      std::count(content.begin(), content.end(), '\n') + 1;
   Eigen::Matrix<double, 3, Eigen::Dynamic> points(3, n_points);
   std::istringstream iss(content);
   std::string line{};
@@ -130,7 +130,7 @@ ReadPointsFromFile(const std::string& filename) {
       ++col;
     }
   }
-  points.resize(3, col);
+  points.conservativeResize(3, col);
   return points;
 }
 
-- 
2.43.0


From 081383de7939557887f6492e15af46539ca3b247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 33/50] fix: initialize the mass fractions of the array state

The constructor of FlameMasterReactor set the first species only and left
the others uninitialized.
---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index ce97221..c0e32ba 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -293,10 +293,10 @@ FlameMasterReactor::FlameMasterReactor(const FlameMasterMechanism& mechanism)
   state_.temperature = state_.molesStorage.data();
   state_.moles = make_span(state_.molesStorage).subspan(1);
 
-  array_state_.massFractions.resize(state_.nSpecies, kDefaultChunkSize);
-  array_state_.moles.resize(state_.nSpecies, kDefaultChunkSize);
-  array_state_.molesStorage.resize(state_.nSpeciesEffective + 1,
-                                   kDefaultChunkSize);
+  array_state_.massFractions.setZero(state_.nSpecies, kDefaultChunkSize);
+  array_state_.moles.setZero(state_.nSpecies, kDefaultChunkSize);
+  array_state_.molesStorage.setZero(state_.nSpeciesEffective + 1,
+                                    kDefaultChunkSize);
 
   // Computational space for calls to the chemistry implementation
   state_.production_rates.resize(
-- 
2.43.0


From 675abcf86fd2b4a7bde8a017b1957ec379428e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 34/50] fix: assign the array state of a reactor

Both assignments of FlameMasterReactor kept the old array state.
---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index c0e32ba..c2427ee 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -362,6 +362,7 @@ FlameMasterReactor& FlameMasterReactor::
 operator=(FlameMasterReactor&& other) noexcept {
   mechanism_ = std::move(other.mechanism_);
   state_ = std::move(other.state_);
+  array_state_ = std::move(other.array_state_);
   ode_solver_ = std::move(other.ode_solver_);
   state_.temperature = state_.molesStorage.data();
   state_.moles = make_span(state_.molesStorage).subspan(1);
-- 
2.43.0


From 3ccf3a1f430fc9e14e4ed9c471c60bd1fc99f6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 35/50] fix: clip negative mass fractions in arrays

The scalar and the masked version count negative mass fractions as zero,
this one counted their absolute value.
---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index c2427ee..bc7ed6c 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -878,7 +878,7 @@ void FlameMasterReactor::SetMassFractionsArray(
     const ArrayXd& newMassFractions) {
   Array1d sum = Array1d::Zero();
   for (int i = 0; i < array_state_.massFractions.rows(); ++i) {
-    array_state_.massFractions.row(i) = newMassFractions.row(i).abs();
+    array_state_.massFractions.row(i) = newMassFractions.row(i).max(0.0);
     sum += array_state_.massFractions.row(i);
   }
   sum = (sum > 0.0).select(sum, 1.0);
-- 
2.43.0


From d6e7d411eb46e304de87f668fbaf08b9871f86b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 36/50] fix: compute production rates for the current density

The concentrations were those of the density at the time when the mass
fractions were set.
---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index bc7ed6c..76d3e0c 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -922,6 +922,7 @@ span<const double> FlameMasterReactor::GetReactionRates() const {
 }
 
 span<const double> FlameMasterReactor::GetProductionRates() {
+  UpdateMolesFromMassFractions(state_);
   mechanism_->ComputeProductionRates(state_.production_rates,          // cdot
                                      state_.reaction_rates,            // w
                                      state_.rate_coefficients,         // k
-- 
2.43.0


From 8eeb3d08e5a5c587e517269a716b167a485ede8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 37/50] fix: advance the current state in AdvanceAndFindMaxdT

The integration started from the concentrations of an old density, and the
slopes were not those of single time steps because the temperature of the
last one was never stored.
---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index 76d3e0c..7b53b0f 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -450,6 +450,7 @@ double FlameMasterReactor::AdvanceAndFindMaxdT(double dt) {
       const double dT =
           (data->oldTemperature - newTemperature) / (data->oldTime - t);
       data->oldTime = t;
+      data->oldTemperature = newTemperature;
       if (data->maxdT < dT) {
         data->maxdT = dT;
         data->argmaxdT = t;
@@ -458,6 +459,8 @@ double FlameMasterReactor::AdvanceAndFindMaxdT(double dt) {
   };
   AdvanceAndFindMaxdTData data{0., GetTemperature(), -9000, -1};
 
+  UpdateMolesFromMassFractions(state_);
+
   // Do the actual computation
   ode_solver_->Integrate(AdvanceSystem{this, &state_},
                          make_span(state_.molesStorage), 0.0, dt,
-- 
2.43.0


From 078ef1eea019a620aa219635a045f153a19ce6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 38/50] fix: repeat a failed integration from its start

The second attempt passed the address of something else as user data, which
crashed, and would have integrated the first half of the time twice, from
where the first attempt ended.
---
 src/ode_solver/RadauSolver.cpp | 50 +++++++++++++++-------------------
 1 file changed, 22 insertions(+), 28 deletions(-)

diff --git a/src/ode_solver/RadauSolver.cpp b/src/ode_solver/RadauSolver.cpp
index fb88204..9034306 100644
--- a/src/ode_solver/RadauSolver.cpp
+++ b/src/ode_solver/RadauSolver.cpp
@@ -22,6 +22,7 @@
 
 #include "fub/ode_solver/OdeSolverFactory.hpp"
 
+#include <algorithm>
 #include <string>
 
 namespace fub {
@@ -188,6 +189,7 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
   iwork_space_[12] = 7; // Start off with order 13
   work_space_[2] = jacobian_threshhold;
 
+  const std::vector<double> y_start(y0.begin(), y0.end());
   int idid = call_radau(radau_rhs,                          // RHS function
                         reinterpret_cast<int*>(&user_data), // IPAR
                         t0,                                 // Initial time
@@ -218,36 +220,28 @@ void RadauSolver::integrate(system_type system, span<double> y0, double t0,
   case -2:
     throw radau_error::LargerNMaxIsNeeded{};
   case -3:
-    idid = call_radau(radau_rhs, // RHS function
-                      reinterpret_cast<int*>(std::addressof(system)), // IPAR
-                      t0,                     // Initial time
-                      t / 2,                  // Final integration time
-                      y0,                     // Initial y array and output
-                      initial_time_step_size, // Initial step size
-                      relative_tolerance,     // Tolerances
-                      absolute_tolerance,     //
-                      work_space_,            // Temporary array of size LWORK
-                      iwork_space_,           // Temporary array of size LIWORK
-                      feedback ? radau_feedback : sol_t{nullptr},
-                      jacobian ? radau_jacobian : jac_t{nullptr});
-    if (idid > 0) {
-      idid = call_radau(radau_rhs, // RHS function
-                        reinterpret_cast<int*>(std::addressof(system)), // IPAR
-                        t0,                     // Initial time
-                        t / 2,                  // Final integration time
-                        y0,                     // Initial y array and output
-                        initial_time_step_size, // Initial step size
-                        relative_tolerance,     // Tolerances
-                        absolute_tolerance,     //
-                        work_space_,            // Temporary array of size LWORK
-                        iwork_space_, // Temporary array of size LIWORK
-                        feedback ? radau_feedback : sol_t{nullptr},
-                        jacobian ? radau_jacobian : jac_t{nullptr});
-      if (idid > 0) {
-        break;
+    // Try again with two smaller intervals
+    std::copy(y_start.begin(), y_start.end(), y0.begin());
+    for (int half = 0; half < 2; ++half) {
+      const double t_mid = t0 + 0.5 * dt;
+      idid = call_radau(
+          radau_rhs,                          // RHS function
+          reinterpret_cast<int*>(&user_data), // IPAR
+          half == 0 ? t0 : t_mid,             // Initial time
+          half == 0 ? t_mid : t,              // Final integration time
+          y0,                     // Initial y array and output
+          initial_time_step_size, // Initial step size
+          relative_tolerance,     // Tolerances
+          absolute_tolerance,     //
+          work_space_,            // Temporary array of size LWORK
+          iwork_space_,           // Temporary array of size LIWORK
+          feedback ? radau_feedback : sol_t{nullptr},
+          jacobian ? radau_jacobian : jac_t{nullptr});
+      if (idid <= 0) {
+        throw radau_error::StepSizeBecomesTooSmall{};
       }
     }
-    throw radau_error::StepSizeBecomesTooSmall{};
+    return;
   case -4:
     throw radau_error::MatrixIsRepeatedlySingular{};
   case -42:
-- 
2.43.0


From dacd6a91f7c98a2d51c32a0cd7b8785ede9025d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 39/50] fix: clone a RadauSolver with its tolerances

---
 include/fub/ode_solver/RadauSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fub/ode_solver/RadauSolver.hpp b/include/fub/ode_solver/RadauSolver.hpp
index b9e0a73..fffd5f9 100644
--- a/include/fub/ode_solver/RadauSolver.hpp
+++ b/include/fub/ode_solver/RadauSolver.hpp
@@ -71,7 +71,7 @@ public:
 
 private:
   std::unique_ptr<OdeSolver> clone() const override {
-    return std::make_unique<RadauSolver>();
+    return std::make_unique<RadauSolver>(*this);
   }
 
   void integrate(system_type system, span<double> y_0, double t, double dt,
-- 
2.43.0


From 03581a9b7e8dff94110a9c6dbda16cf5ee443f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:07 +0000
Subject: [PATCH 40/50] fix: find the steepest change of temperature in cooling
 reactors

Where the temperature falls by more than 9000 K/s all the time, no time was
found and -1 was returned.
---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index 7b53b0f..ef9792a 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -24,6 +24,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <limits>
 #include <numeric>
 #include <sstream>
 
@@ -457,7 +458,8 @@ double FlameMasterReactor::AdvanceAndFindMaxdT(double dt) {
       }
     }
   };
-  AdvanceAndFindMaxdTData data{0., GetTemperature(), -9000, -1};
+  AdvanceAndFindMaxdTData data{
+      0., GetTemperature(), std::numeric_limits<double>::lowest(), -1};
 
   UpdateMolesFromMassFractions(state_);
 
-- 
2.43.0


From bb3e05e45ac7a1eb2715330935f658e441353aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 41/50] fix: evaluate the thermodynamic functions after Advance

Energies and heat capacities were left as they were for the last evaluation of
the right hand side, which is not always at the final temperature.
---
 src/equations/ideal_gas_mix/FlameMasterReactor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
index ef9792a..e3e0a1c 100644
--- a/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
+++ b/src/equations/ideal_gas_mix/FlameMasterReactor.cpp
@@ -413,6 +413,7 @@ void FlameMasterReactor::Advance(double dt) {
 
   // Retrieve mass fractions from the result vector
   UpdateMassFractionsFromMoles(state_);
+  UpdateThermoState(*mechanism_, state_, GetTemperature());
 }
 
 void FlameMasterReactor::Advance(
@@ -433,6 +434,7 @@ void FlameMasterReactor::Advance(
 
   // Retrieve mass fractions from the result vector
   UpdateMassFractionsFromMoles(state_);
+  UpdateThermoState(*mechanism_, state_, GetTemperature());
 }
 
 struct AdvanceAndFindMaxdTData {
@@ -470,6 +472,7 @@ double FlameMasterReactor::AdvanceAndFindMaxdT(double dt) {
 
   // Retrieve mass fractions from the result vector
   UpdateMassFractionsFromMoles(state_);
+  UpdateThermoState(*mechanism_, state_, GetTemperature());
   return data.argmaxdT;
 }
 
-- 
2.43.0


From 0bc984a425e8ce401ed8a137779328057ddf4977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:36 +0000
Subject: [PATCH 42/50] fix: initialize the step size control of radau

The first prediction used the size and error of a step before that were never
set, so that the steps and the last digits of results depended on the stack.
---
 src/ode_solver/radau.f | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ode_solver/radau.f b/src/ode_solver/radau.f
index ae48dcc..f673f0b 100644
--- a/src/ode_solver/radau.f
+++ b/src/ode_solver/radau.f
@@ -804,6 +804,9 @@ C ---------- CONSTANTS ---------
          LAST=.TRUE.
       END IF
       HOPT=H
+      HACC=H
+      ERRACC=1.0D-2
+      NEWT=0
       FACCON=1.D0
       NSING=0
       XOLD=X
-- 
2.43.0


From 80530631d917df40d665c9e1c9df0cb291f10d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:19 +0000
Subject: [PATCH 43/50] fix: let the characteristic method for ideal gas
 mixtures link in several dimensions

---
 .../ideal_gas_mix/MusclHancockCharacteristicMethod.hpp        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
index bbcf324..904ff6c 100644
--- a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
@@ -23,6 +23,8 @@
 
 namespace fub::ideal_gas {
 
+namespace {
+
 using Limiter = std::function<double(double, double)>;
 using ArrayLimiter = std::function<Array1d(Array1d, Array1d)>;
 
@@ -275,6 +277,8 @@ void Reconstruct(CompleteArray<IdealGasMix<Rank>>& rec, PrimitivesArray& diffs,
   CompleteFromPrim(eq, rec, diffs);
 }
 
+} // namespace
+
 template <int Rank>
 void MusclHancockCharacteristic<Rank>::ComputeNumericFlux(
     Conservative& flux, span<const Complete, 4> stencil, Duration dt, double dx,
-- 
2.43.0


From f56e223d914e9064ba403343ab754d60d817d0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:19 +0000
Subject: [PATCH 44/50] fix: reconstruct every species once in the
 characteristic method for ideal gas mixtures

---
 .../ideal_gas_mix/MusclHancockCharacteristicMethod.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
index 904ff6c..c31720e 100644
--- a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
@@ -271,7 +271,7 @@ void Reconstruct(CompleteArray<IdealGasMix<Rank>>& rec, PrimitivesArray& diffs,
     diffs.velocity.row(d) += (q.momentum.row(d) / q.density);
   }
   diffs.pressure += q.pressure;
-  for (int s = 0; s < q.species.size(); ++s) {
+  for (int s = 0; s < q.species.rows(); ++s) {
     diffs.species.row(s) += (q.species.row(s) / q.density);
   }
   CompleteFromPrim(eq, rec, diffs);
-- 
2.43.0


From 2284cbc47ba79323104fda56f6062ae02ca66ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:53 +0000
Subject: [PATCH 45/50] fix: use the whole speed of sound in the signal
 velocities of ideal gas mixtures

---
 src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp b/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp
index e634aeb..b4afbc9 100644
--- a/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp
+++ b/src/equations/ideal_gas_mix/EinfeldtSignalVelocities.hpp
@@ -44,8 +44,8 @@ operator()(const IdealGasMix<Dim>&, const Complete& left, const Complete& right,
       0.5 * (sqRhoL * sqRhoR) / ((sqRhoL + sqRhoR) * (sqRhoL + sqRhoR)) *
           (uR - uL) * (uR - uL));
   const double sL1 = uL - aL;
-  const double sL2 = roeU - 0.5 * roeA;
-  const double sR1 = roeU + 0.5 * roeA;
+  const double sL2 = roeU - roeA;
+  const double sR1 = roeU + roeA;
   const double sR2 = uR + aR;
   return {std::min(sL1, sL2), std::max(sR1, sR2)};
 }
@@ -107,8 +107,8 @@ operator()(const IdealGasMix<Dim>&, const CompleteArray& left,
        0.5 * sqRhoL_over_sqRho * sqRhoR_over_sqRho * (uR - uL) * (uR - uL))
           .sqrt();
   const Array1d sL1 = uL - aL;
-  const Array1d sL2 = roeU - 0.5 * roeA;
-  const Array1d sR1 = roeU + 0.5 * roeA;
+  const Array1d sL2 = roeU - roeA;
+  const Array1d sR1 = roeU + roeA;
   const Array1d sR2 = uR + aR;
   return {sL1.min(sL2), sR1.max(sR2)};
 }
-- 
2.43.0


From af5776fb750186c17e9fe76d5e06719a7a159a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:08 +0000
Subject: [PATCH 46/50] fix: reconstruct the temperature on the right side of a
 face towards the face

---
 src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
index 2dcaf63..02ead9c 100644
--- a/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp
@@ -441,7 +441,7 @@ void MusclHancockPrimitive<Rank>::ComputeNumericFlux(
                dt_over_dx * dpdt_array_.velocity.row(i));
   }
   pL_array_.temperature =
-      pM_array_.temperature -
+      pM_array_.temperature +
       0.5 * (-dpdx_array_.temperature + dt_over_dx * dpdt_array_.temperature);
   for (int i = 0; i < nspecies; ++i) {
     pL_array_.mass_fractions.row(i) =
@@ -514,7 +514,7 @@ void MusclHancockPrimitive<Rank>::ComputeNumericFlux(
                dt_over_dx * dpdt_array_.velocity.row(i));
   }
   pL_array_.temperature =
-      pM_array_.temperature -
+      pM_array_.temperature +
       0.5 * (-dpdx_array_.temperature + dt_over_dx * dpdt_array_.temperature);
   for (int i = 0; i < nspecies; ++i) {
     pL_array_.mass_fractions.row(i) =
-- 
2.43.0


From 349041568fb54645da2798b1cdd92710e4316f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:08 +0000
Subject: [PATCH 47/50] fix: advance the characteristic reconstruction of ideal
 gas mixtures by half a step

---
 .../MusclHancockCharacteristicMethod.hpp             | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
index c31720e..c48c3f8 100644
--- a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
@@ -283,14 +283,14 @@ template <int Rank>
 void MusclHancockCharacteristic<Rank>::ComputeNumericFlux(
     Conservative& flux, span<const Complete, 4> stencil, Duration dt, double dx,
     Direction dir) {
-  const double dt_over_dx_half = 0.5 * dt.count() / dx;
+  const double dt_over_dx = dt.count() / dx;
   int left_side = 0;
   int right_side = 1;
   Reconstruct(reconstruction_[0], diffs_, amplitudes_, slopes_, left_side,
-              equation_, stencil.template first<3>(), dt_over_dx_half, limiter_,
+              equation_, stencil.template first<3>(), dt_over_dx, limiter_,
               dir);
   Reconstruct(reconstruction_[1], diffs_, amplitudes_, slopes_, right_side,
-              equation_, stencil.template last<3>(), dt_over_dx_half, limiter_,
+              equation_, stencil.template last<3>(), dt_over_dx, limiter_,
               dir);
   hlle_.ComputeNumericFlux(flux, reconstruction_, dt, dx, dir);
 }
@@ -299,15 +299,15 @@ template <int Rank>
 void MusclHancockCharacteristic<Rank>::ComputeNumericFlux(
     ConservativeArray& flux, span<const CompleteArray, 4> stencil, Duration dt,
     double dx, Direction dir) {
-  const Array1d dt_over_dx_half = Array1d::Constant(0.5 * dt.count() / dx);
+  const Array1d dt_over_dx = Array1d::Constant(dt.count() / dx);
   int left_side = 0;
   int right_side = 1;
   Reconstruct(reconstruction_array_[0], diffs_array_, amplitudes_array_,
               slopes_array_, left_side, equation_, stencil.template first<3>(),
-              dt_over_dx_half, array_limiter_, dir);
+              dt_over_dx, array_limiter_, dir);
   Reconstruct(reconstruction_array_[1], diffs_array_, amplitudes_array_,
               slopes_array_, right_side, equation_, stencil.template last<3>(),
-              dt_over_dx_half, array_limiter_, dir);
+              dt_over_dx, array_limiter_, dir);
   hlle_.ComputeNumericFlux(flux, reconstruction_array_, dt, dx, dir);
 }
 
-- 
2.43.0


From f51551c2fa53546ba22b7418f0b59ab94c538d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:50 +0000
Subject: [PATCH 48/50] fix: leave covered cells out of the characteristic
 reconstruction of ideal gas mixtures

---
 .../MusclHancockCharacteristicMethod.hpp      | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
index c48c3f8..32f427f 100644
--- a/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
+++ b/src/equations/ideal_gas_mix/MusclHancockCharacteristicMethod.hpp
@@ -315,10 +315,34 @@ template <int Rank>
 void MusclHancockCharacteristic<Rank>::ComputeNumericFlux(
     ConservativeArray& flux, Array1d face_fractions,
     span<const CompleteArray, 4> stencil,
-    span<const Array1d, 4> /* volume_fractions */, Duration dt, double dx,
+    span<const Array1d, 4> volume_fractions, Duration dt, double dx,
     Direction dir) {
-  ComputeNumericFlux(flux, stencil, dt, dx, dir);
   MaskArray mask = (face_fractions > 0.0);
+  if (!mask.any()) {
+    ForEachComponent([](auto&& flux) { flux = Array1d::Zero(); }, flux);
+    return;
+  }
+  // Covered cells repeat the state next to the face, which leaves no slope, and
+  // closed faces repeat some open face
+  std::array<CompleteArray, 4> cells{stencil[0], stencil[1], stencil[2],
+                                     stencil[3]};
+  const MaskArray has_left = mask && volume_fractions[0] > 0.0;
+  const MaskArray has_right = mask && volume_fractions[3] > 0.0;
+  int open = 0;
+  while (!mask[open]) {
+    ++open;
+  }
+  ForEachComponent(
+      [&](auto&& qLL, auto&& qL, auto&& qR, auto&& qRR) {
+        const double qL_open = qL[open];
+        const double qR_open = qR[open];
+        qL = mask.select(qL, qL_open);
+        qR = mask.select(qR, qR_open);
+        qLL = has_left.select(qLL, qL);
+        qRR = has_right.select(qRR, qR);
+      },
+      cells[0], cells[1], cells[2], cells[3]);
+  ComputeNumericFlux(flux, cells, dt, dx, dir);
   ForEachComponent([&mask](auto&& flux) { flux = mask.select(flux, 0.0); },
                    flux);
 }
-- 
2.43.0


From 3b214be1bf7fdd7eed9d8d087ddad8fb0776ca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:14 +0000
Subject: [PATCH 49/50] fix: centroid of the open part of a cut face

GetAbsoluteUnshieldedCentroid took everything but the part that is shielded
from the left (right) for open, also the part of the face that the wall
covers and the part that is shielded from both sides.
---
 src/CutCellData.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/CutCellData.cpp b/src/CutCellData.cpp
index 7f56fde..f401a6d 100644
--- a/src/CutCellData.cpp
+++ b/src/CutCellData.cpp
@@ -149,29 +149,35 @@ Eigen::Vector2d GetAbsoluteUnshieldedCentroid(const CutCellData<2>& geom,
   Eigen::Vector2d face_offset = 0.5 * dx;
   face_offset[dir_x] = 0.0;
   const Eigen::Vector2d regular_centroid = node_offset + face_offset;
+  // The part of the face that each side sees is what remains of the face if we
+  // remove what is covered or lies in the shadow of the boundary at this side.
+  const double beta = geom.face_fractions[dir_x](face[0], face[1]);
   const double betaSL = geom.shielded_left_fractions[dir_x](face[0], face[1]);
   const double betaSR = geom.shielded_right_fractions[dir_x](face[0], face[1]);
-  
+  const double betaDS = geom.doubly_shielded_fractions[dir_x](face[0], face[1]);
+  const double betaUL = beta - betaSL - betaDS;
+  const double betaUR = beta - betaSR - betaDS;
+
   // find unshielded from left interval
   const Index<2> iL = LeftTo(face, dir);
   std::array<double, 2> betaUL_interval{0.0, 1.0};
-  if (betaSL > 0.0) {
+  if (betaUL < 1.0) {
     const double ny = geom.boundary_normals(iL[0], iL[1], dir_y);
     if (ny < 0.0) {
-      betaUL_interval[0] = betaSL;
+      betaUL_interval[0] = 1.0 - betaUL;
     } else {
-      betaUL_interval[1] = 1.0 - betaSL;
+      betaUL_interval[1] = betaUL;
     }
   }
   // find unshielded from right interval
   const Index<2> iR = RightTo(face, dir);
   std::array<double, 2> betaUR_interval{0.0, 1.0};
-  if (betaSR > 0.0) {
+  if (betaUR < 1.0) {
     const double ny = geom.boundary_normals(iR[0], iR[1], dir_y);
     if (ny < 0.0) {
-      betaUR_interval[0] = betaSR;
+      betaUR_interval[0] = 1.0 - betaUR;
     } else {
-      betaUR_interval[1] = 1.0 - betaSR;
+      betaUR_interval[1] = betaUR;
     }
   }
 
-- 
2.43.0


From d7e8c885dc708f9324447758e43aef8adb19bd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:33 +0000
Subject: [PATCH 50/50] fix: closed faces next to cells without any gas

The masked wave speeds divided the enthalpies by the unmasked densities.  The
states of covered cells are set to zero, so the wave speeds and HLL fluxes of
the faces next to them were NaN, and cut cells take these fluxes into account.
---
 src/equations/euler_equations/EinfeldtSignalVelocities.hpp | 4 ++--
 src/equations/perfect_gas/EinfeldtSignalVelocities.hpp     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/equations/euler_equations/EinfeldtSignalVelocities.hpp b/src/equations/euler_equations/EinfeldtSignalVelocities.hpp
index fbcfaf3..c87f61c 100644
--- a/src/equations/euler_equations/EinfeldtSignalVelocities.hpp
+++ b/src/equations/euler_equations/EinfeldtSignalVelocities.hpp
@@ -129,8 +129,8 @@ operator()(const Equation& equation, const CompleteArray& left,
   const Array1d rhoER = mask.select(right.energy, zero);
   const Array1d pL = mask.select(left.pressure, zero);
   const Array1d pR = mask.select(right.pressure, zero);
-  const Array1d hL = (rhoEL + pL) / rhoL;
-  const Array1d hR = (rhoER + pR) / rhoR;
+  const Array1d hL = (rhoEL + pL) / rhoLs;
+  const Array1d hR = (rhoER + pR) / rhoRs;
   const Array1d roeH = roeAvg(hL, hR);
   const Array1d roeA2 = (equation.gamma_array_ - Array1d::Constant(1.0)) *
                         (roeH - Array1d::Constant(0.5) * roeU * roeU);
diff --git a/src/equations/perfect_gas/EinfeldtSignalVelocities.hpp b/src/equations/perfect_gas/EinfeldtSignalVelocities.hpp
index c542fd0..034732c 100644
--- a/src/equations/perfect_gas/EinfeldtSignalVelocities.hpp
+++ b/src/equations/perfect_gas/EinfeldtSignalVelocities.hpp
@@ -129,8 +129,8 @@ std::array<Array1d, 2> EinfeldtSignalVelocities<PerfectGas<Dim>>::operator()(
   const Array1d rhoER = mask.select(right.energy, zero);
   const Array1d pL = mask.select(left.pressure, zero);
   const Array1d pR = mask.select(right.pressure, zero);
-  const Array1d hL = (rhoEL + pL) / rhoL;
-  const Array1d hR = (rhoER + pR) / rhoR;
+  const Array1d hL = (rhoEL + pL) / rhoLs;
+  const Array1d hR = (rhoER + pR) / rhoRs;
   const Array1d roeH = roeAvg(hL, hR);
   const Array1d roeA2 = (equation.gamma_array_ - Array1d::Constant(1.0)) * (roeH  - Array1d::Constant(0.5) * roeU * roeU);
   const Array1d roeA = roeA2.sqrt();
-- 
2.43.0

