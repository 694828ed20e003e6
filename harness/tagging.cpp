// Cells tagged for refinement by gradients, cut cells and buffers.
#include "vg.hpp"
#include "fub/ForEach.hpp"
#include "fub/ext/Eigen.hpp"
#include "fub/StateRow.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/tagging_method/GradientDetector.hpp"
#include "fub/tagging_method/TagBuffer.hpp"
#include "fub/tagging_method/TagCutCells.hpp"
using namespace fub;
using namespace vg;
using vh::J;
static vh::Trace trace;
static constexpr int kN = kDefaultChunkSize;
template <int R, class T> struct Tags {
  IndexBox<R> all, box;
  std::array<std::ptrdiff_t, R> st;
  std::vector<T> mem;
  PatchDataView<T, R, layout_stride> view;
  Tags(const IndexBox<R>& b, bool pad) : all(b), box(b) {
    if (pad) for (int d = 0; d < R; ++d) { all.lower[d] -= Rnd(0, 2); all.upper[d] += Rnd(0, 2); }
    std::ptrdiff_t n = 1, off = 0;
    std::array<std::ptrdiff_t, R> e;
    for (int d = 0; d < R; ++d) { st[d] = n; n *= all.upper[d] - all.lower[d]; off += (box.lower[d] - all.lower[d]) * st[d]; e[d] = box.upper[d] - box.lower[d]; }
    mem.assign(n, T(0));
    layout_stride::mapping<dynamic_extents<R>> m{dynamic_extents<R>(e), st};
    view = PatchDataView<T, R, layout_stride>(mdspan<T, R, layout_stride>(mem.data() + off, m), box.lower);
  }
  T& at(const Index<R>& i) { std::ptrdiff_t o = 0; for (int d = 0; d < R; ++d) o += (i[d] - all.lower[d]) * st[d]; return mem[o]; }
  std::string str() { std::vector<std::string> v; for (auto x : mem) v.push_back(std::to_string((int)x)); return vh::List(v); }
};
template <int R> static IndexBox<R> Shape(int nx) {
  IndexBox<R> b;
  for (int d = 0; d < R; ++d) { b.lower[d] = Rnd(-4, 4); b.upper[d] = b.lower[d] + (d == 0 ? nx : Rnd(1, R == 3 ? 4 : 6)); }
  return b;
}
template <int R> static void Buffer() {
  IndexBox<R> b = Shape<R>(Rnd(1, R == 1 ? 14 : 7));
  Tags<R, char> t(b, Rnd(0, 1));
  const int w = Rnd(0, 3), density = Rnd(1, 9);
  for (auto& x : t.mem) x = Rnd(0, density * 3) == 0 ? 1 : 0;
  std::string before = t.str();
  TagBuffer(w).TagCellsForRefinement(t.view);
  trace.ev(J().t("a", "buffer").raw("all", S(t.all)).raw("box", S(b)).i("w", w).raw("before", before).raw("after", t.str()));
}
template <int R> static void CutCells() {
  IndexBox<R> b = Shape<R>(Rnd(1, 7)), vb = Shape<R>(Rnd(1, 7));
  if (Rnd(0, 1)) { vb = b; for (int d = 0; d < R; ++d) { vb.lower[d] -= Rnd(0, 2); vb.upper[d] += Rnd(0, 2); } }
  Tags<R, char> t(b, Rnd(0, 1));
  Tags<R, double> v(vb, Rnd(0, 1));
  std::vector<std::string> vols;
  for (auto& x : t.mem) x = Rnd(0, 3) == 0;
  for (auto& x : v.mem) { const int q = Rnd(0, 4); vols.push_back(std::to_string(q)); x = q / 4.0; }
  std::string before = t.str();
  StridedDataView<const double, R> cv = v.view;
  TagCutCells().TagCellsForRefinement(t.view, cv);
  trace.ev(J().t("a", "cut").raw("all", S(t.all)).raw("box", S(b)).raw("vall", S(v.all)).raw("vbox", S(vb)).raw("vols", vh::List(vols)).raw("before", before).raw("after", t.str()));
}
// conditions: variable and tolerance p/64
template <int R, bool Array> static void Gradient(bool volumes) {
  using Eq = PerfectGas<R>;
  IndexBox<R> b = Shape<R>(Rnd(0, 2) ? Rnd(1, 6) : Rnd(1, 3 * kN));
  if (!Array && Rnd(0, 2) == 0) for (int d = 1; d < R; ++d) b.upper[d] = b.lower[d] + Rnd(1, 3);
  IndexBox<R> cells = b;
  const bool full = Rnd(0, 2) != 0; // ghost cells all around
  for (int d = 0; d < R; ++d) { cells.lower[d] -= full ? 1 : Rnd(0, 1); cells.upper[d] += full ? 1 : Rnd(0, 1); }
  Store_<R, Complete<Eq>> q(Eq{}, cells, Rnd(0, 1));
  Tags<R, char> t(b, Rnd(0, 1));
  const int contrast = Rnd(0, 40);
  std::vector<std::string> rho, p, vols;
  for (std::ptrdiff_t k = 0; k < q.plane * q.ncomp(); ++k) q.mem->p[k] = std::numeric_limits<double>::quiet_NaN();
  Cells<R>(cells, [&](const Index<R>& i) {
    for (int c = 0; c < q.ncomp(); ++c) q.at(c, i) = Rnd(0, 3) ? 50 + (Rnd(0, 3) ? 0 : Rnd(-contrast, contrast)) : (Rnd(0, 5) ? 50 : 0);
    rho.push_back(std::to_string((int)q.at(0, i))); p.push_back(std::to_string((int)q.at(R + 2, i)));
  });
  for (auto& x : t.mem) x = Rnd(0, 9) == 0;
  std::string before = t.str();
  const int tol1 = Rnd(1, 40), tol2 = Rnd(1, 40);
  auto view = AsConst(q.view);
  if constexpr (Array) {
    auto density = [](const CompleteArray<Eq>& s) -> Array1d { return s.density; };
    auto pressure = [](const CompleteArray<Eq>& s) -> Array1d { return s.pressure; };
    GradientDetector<Eq, decltype(density), decltype(pressure)> g(Eq{}, std::pair{density, tol1 / 64.0}, std::pair{pressure, tol2 / 64.0});
    static_assert(decltype(g)::is_array_based);
    g.TagCellsForRefinement(t.view, view);
  } else {
    GradientDetector g(Eq{}, std::pair{&Complete<Eq>::density, tol1 / 64.0}, std::pair{&Complete<Eq>::pressure, tol2 / 64.0});
    if (volumes) {
      Tags<R, double> v(cells, Rnd(0, 1));
      for (auto& x : v.mem) x = 1;
      Cells<R>(cells, [&](const Index<R>& i) { const int k = Rnd(0, 4); vols.push_back(std::to_string(k)); v.at(i) = k / 4.0; });
      StridedDataView<const double, R> cv = v.view;
      g.TagCellsForRefinement(t.view, view, cv);
    } else g.TagCellsForRefinement(t.view, view);
  }
  trace.ev(J().t("a", "gradient").b("array", Array).raw("all", S(t.all)).raw("box", S(b)).raw("cells", S(cells)).raw("rho", vh::List(rho)).raw("p", vh::List(p))
    .i("t1", tol1).i("t2", tol2).b("vols", volumes).raw("v", vh::List(vols)).raw("before", before).raw("after", t.str()));
}
// a method of fewer dimensions than the tags have
static void Embedded() {
  using Eq = PerfectGas<1>;
  IndexBox<1> cells{{-1}, {Rnd(2, 12)}};
  IndexBox<2> b{{0, 0}, {cells.upper[0] - Rnd(0, 1), 1}};
  Store_<1, Complete<Eq>> q(Eq{}, cells, Rnd(0, 1));
  Tags<2, char> t(b, false);
  std::vector<std::string> rho, p;
  Cells<1>(cells, [&](const Index<1>& i) {
    for (int c = 0; c < q.ncomp(); ++c) q.at(c, i) = 50 + (Rnd(0, 2) ? 0 : Rnd(-30, 30));
    rho.push_back(std::to_string((int)q.at(0, i))); p.push_back(std::to_string((int)q.at(3, i)));
  });
  std::string before = t.str();
  const int tol1 = Rnd(1, 40), tol2 = Rnd(1, 40);
  GradientDetector g(Eq{}, std::pair{&Complete<Eq>::density, tol1 / 64.0}, std::pair{&Complete<Eq>::pressure, tol2 / 64.0});
  auto view = AsConst(q.view);
  g.TagCellsForRefinement(t.view, view);
  IndexBox<1> b1{{b.lower[0]}, {b.upper[0]}};
  trace.ev(J().t("a", "gradient").b("array", false).raw("all", S(b1)).raw("box", S(b1)).raw("cells", S(cells)).raw("rho", vh::List(rho)).raw("p", vh::List(p))
    .i("t1", tol1).i("t2", tol2).b("vols", false).raw("v", "[]").raw("before", before).raw("after", t.str()));
}
template <int R> static void Run(int rounds) {
  for (int k = 0; k < rounds; ++k) {
    trace.start(J().i("rank", R).str());
    try {
      for (int n = 0; n < 3; ++n) {
        trace.ev(J().t("a", "next"));
        Buffer<R>(); CutCells<R>();
        Gradient<R, false>(false); Gradient<R, false>(true); Gradient<R, true>(false);
        if (R == 1) { Embedded(); Gradient<R, true>(false); }
      }
    } catch (const std::exception&) { trace.ev(J().t("a", "exception")); }
    trace.finish();
  }
}
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  vh::install(trace, argv[1], vh::thorough() ? 3000 : 200);
  rng().seed(vh::seed());
  const int k = vh::thorough() ? 1500 : 120;
  Run<1>(k); Run<2>(k); Run<3>(k / 2);
  std::printf("traces=%lld\n", trace.count);
  std::fclose(trace.out);
}
