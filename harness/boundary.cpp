// Boundary cells filled by reflection and by outflow, and the reflections and
// rotations of single states they rest on.
#include "vg.hpp"
#include "fub/ForEach.hpp"
#include "fub/ext/Eigen.hpp"
#include "fub/boundary_condition/ReflectiveBoundary.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/IdealGasMix.hpp"
#include "fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"
#include "fub/boundary_condition/TransmissiveBoundary.hpp"
using namespace fub;
using namespace vg;
using vh::J;
static vh::Trace trace;

static std::string Num(double x) { return std::to_string(vh::Grid(x, 1.0, 1e-6)); }
template <class S> static std::string Vals(const S& s) {
  std::vector<std::string> v;
  Named(s, [&](const char*, auto& x) {
    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) v.push_back(Num(x));
    else for (int c = 0; c < x.size(); ++c) v.push_back(Num(x[c]));
  });
  return vh::List(v);
}
template <class S> static std::string VarNames_(const S& s) {
  std::vector<std::string> v;
  Named(s, [&](const char* n, auto& x) {
    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) v.push_back("\"" + std::string(n) + "\"");
    else for (int c = 0; c < x.size(); ++c) v.push_back("\"" + std::string(n) + std::to_string(c) + "\"");
  });
  return vh::List(v);
}
template <class S> static void Draw(S& s, int unit) { // vectors are multiples of the unit
  Named(s, [&](const char* n, auto& x) {
    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) x = Rnd(-400, 400);
    else for (int c = 0; c < x.size(); ++c) {
      const bool vec = std::string(n) == "momentum" || std::string(n) == "velocity";
      x[c] = vec ? unit * Rnd(-12, 12) : Rnd(-400, 400);
    }
  });
}
// integer directions of integer length
template <int R> struct Dir_ { std::array<int, R> n; int k; Eigen::Matrix<double, R, 1> v() const { Eigen::Matrix<double, R, 1> m; for (int d = 0; d < R; ++d) m[d] = double(n[d]) / k; return m; } };
template <int R> static Dir_<R> Direct() {
  Dir_<R> d{};
  static const int two[][3] = {{1, 0, 1}, {0, 1, 1}, {3, 4, 5}, {4, 3, 5}, {5, 12, 13}};
  static const int three[][4] = {{1, 0, 0, 1}, {0, 1, 0, 1}, {0, 0, 1, 1}, {1, 2, 2, 3}, {2, 1, 2, 3}, {2, 3, 6, 7}, {0, 3, 4, 5}, {6, 2, 3, 7}};
  if constexpr (R == 1) { d.n[0] = 1; d.k = 1; }
  else if constexpr (R == 2) { auto& t = two[Rnd(0, 4)]; d.n = {t[0], t[1]}; d.k = t[2]; }
  else { auto& t = three[Rnd(0, 7)]; d.n = {t[0], t[1], t[2]}; d.k = t[3]; }
  for (auto& x : d.n) if (Rnd(0, 1)) x = -x;
  return d;
}
template <int R> static std::string N(const std::array<int, R>& a) { std::vector<std::string> v; for (auto x : a) v.push_back(std::to_string(x)); return vh::List(v); }

template <class St, class Eq> static void ReflectState(const Eq& eq) {
  constexpr int R = Eq::Rank();
  St s(eq), r(eq);
  auto n = Direct<R>();
  Draw(s, n.k * n.k);
  J j; j.t("a", "reflect").raw("names", VarNames_(s)).raw("n", N<R>(n.n)).i("k", n.k).raw("before", Vals(s));
  if (Rnd(0, 1)) { Reflect(s, s, n.v(), eq); j.raw("after", Vals(s)); } // in place, as the cut-cell methods do
  else { Reflect(r, s, n.v(), eq); j.raw("after", Vals(r)); }
  trace.ev(j);
}
template <class St, class Eq> static void RotateState(const Eq& eq) {
  constexpr int R = Eq::Rank();
  if constexpr (R > 1) {
    St s(eq), r(eq);
    auto a = Direct<R>(), b = Direct<R>();
    Draw(s, 1);
    auto m = MakeRotation(a.v(), b.v());
    std::vector<std::string> ms;
    for (int i = 0; i < R; ++i) { std::vector<std::string> row; for (int k = 0; k < R; ++k) row.push_back(std::to_string(vh::Grid(m(i, k), 1e-4, 0.51))); ms.push_back(vh::List(row)); }
    J j; j.t("a", "rotate").raw("names", VarNames_(s)).raw("from", N<R>(a.n)).i("kf", a.k).raw("to", N<R>(b.n)).i("kt", b.k).raw("m", vh::List(ms)).raw("before", Vals(s));
    if (Rnd(0, 1)) { Rotate(s, s, m, eq); r = s; } else Rotate(r, s, m, eq);
    // the rotated vector in hundredths, all else as it is
    std::vector<std::string> v;
    Named(r, [&](const char* n, auto& x) {
      if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) v.push_back(Num(x));
      else for (int c = 0; c < x.size(); ++c) v.push_back(std::string(n) == "momentum" ? std::to_string(vh::Grid(x[c], 0.01, 0.51)) : Num(x[c]));
    });
    j.raw("after", vh::List(v));
    trace.ev(j);
  }
}
template <int R> static IndexBox<R> Interior() {
  IndexBox<R> b;
  for (int d = 0; d < R; ++d) { b.lower[d] = Rnd(-3, 3); b.upper[d] = b.lower[d] + Rnd(1, R == 3 ? 3 : 5); }
  return b;
}
template <int R, class F> static std::string All(F& f) {
  std::vector<std::string> v;
  for (int c = 0; c < f.ncomp(); ++c) {
    std::vector<std::string> w;
    Cells<R>(f.all, [&](const Index<R>& i) { w.push_back(std::isnan(f.at(c, i)) ? std::string("-1000000") : Num(f.at(c, i))); });
    v.push_back(vh::List(w));
  }
  return vh::List(v);
}
template <class Eq> static void Wall(ReflectiveBoundary<Eq>& bc, const Eq& eq) {
  constexpr int R = Eq::Rank();
  IndexBox<R> in = Interior<R>();
  const int dir = Rnd(0, R - 1), side = Rnd(0, 1);
  const int w = Rnd(1, (int)(in.upper[dir] - in.lower[dir]));
  IndexBox<R> all = in, fill = in;
  for (int d = 0; d < R; ++d) if (d == dir || Rnd(0, 1)) { all.lower[d] -= w; all.upper[d] += w; fill = all; }
  if (side == 0) { fill.upper[dir] = in.lower[dir]; fill.lower[dir] = in.lower[dir] - w; }
  else { fill.lower[dir] = in.upper[dir]; fill.upper[dir] = in.upper[dir] + w; }
  for (int d = 0; d < R; ++d) if (d != dir && Rnd(0, 2) == 0) { fill.lower[d] = in.lower[d]; fill.upper[d] = in.upper[d]; }
  Store_<R, Complete<Eq>> f(eq, all, Rnd(0, 1));
  Cells<R>(f.all, [&](const Index<R>& i) { for (int c = 0; c < f.ncomp(); ++c) f.at(c, i) = Val(c, i); });
  bc.FillBoundary(f.view, fill, Direction(dir), side);
  trace.ev(J().t("a", "wall").raw("all", S(f.all)).raw("fill", S(fill)).i("dir", dir + 1).i("side", side).raw("names", f.Names()).raw("after", All<R>(f)));
}
template <class Eq> static void Outflow(const Eq& eq, bool cut) {
  constexpr int R = Eq::Rank();
  Complete<Eq> fallback(eq); Draw(fallback, 1);
  TransmissiveBoundary<Eq> bc(eq, fallback);
  const int dir = Rnd(0, R - 1), side = Rnd(0, 1), w = Rnd(1, 3);
  IndexBox<2> b;
  for (int d = 0; d < 2; ++d) { b.lower[d] = d < R ? Rnd(-3, 3) : 0; b.upper[d] = d < R ? b.lower[d] + (d == dir ? w : 0) + Rnd(1, 5) : 1; }
  IndexBox<R> all; for (int d = 0; d < R; ++d) { all.lower[d] = b.lower[d]; all.upper[d] = b.upper[d]; }
  Store_<R, Complete<Eq>> f(eq, all, false);
  Cells<R>(all, [&](const Index<R>& i) { for (int c = 0; c < f.ncomp(); ++c) f.at(c, i) = Val(c, i); });
  std::vector<std::string> nans; // covered cells
  if (cut) Cells<R>(all, [&](const Index<R>& i) { if (Rnd(0, 2) == 0) { nans.push_back(S(i)); f.at(Rnd(0, f.ncomp() - 1), i) = std::numeric_limits<double>::quiet_NaN(); } });
  std::string before = All<R>(f);
  std::array<std::ptrdiff_t, 3> e{b.upper[0] - b.lower[0], b.upper[1] - b.lower[1], f.ncomp()}, o{b.lower[0], b.lower[1], 0};
  PatchDataView<double, 3> data(mdspan<double, 3>(f.mem->p, dynamic_extents<3>(e)), o);
  // the order of the components in memory is the library's own
  if (cut) bc(data, fub::amrex::cutcell::PatchHierarchy{}, fub::amrex::PatchHandle{0}, Location{(std::size_t)dir, side}, w, Duration(0));
  else bc(data, fub::amrex::PatchHierarchy{}, fub::amrex::PatchHandle{0}, Location{(std::size_t)dir, side}, w, Duration(0));
  std::vector<std::string> fb; ForEachComponent([&](double x) { fb.push_back(Num(x)); }, fallback);
  trace.ev(J().t("a", "outflow").b("cut", cut).raw("all", S(all)).i("dir", dir + 1).i("side", side).i("w", w).raw("nans", vh::List(nans)).raw("fallback", vh::List(fb))
    .raw("before", before).raw("after", All<R>(f)));
}
template <class Eq> static void Run(const Eq& eq, const char* name, int rounds) {
  ReflectiveBoundary<Eq> bc(eq);
  for (int k = 0; k < rounds; ++k) {
    trace.start(J().t("eq", name).i("rank", Eq::Rank()).str());
    try {
      for (int n = 0; n < 4; ++n) Wall(bc, eq);
      for (int n = 0; n < 6; ++n) {
        ReflectState<Complete<Eq>>(eq);
        RotateState<Complete<Eq>>(eq);
        if constexpr (!std::is_same_v<Eq, IdealGasMix<Eq::Rank()>>) ReflectState<Conservative<Eq>>(eq);
        if constexpr (std::is_same_v<Eq, PerfectGas<Eq::Rank()>>) ReflectState<Primitive<Eq>>(eq);
        RotateState<Conservative<Eq>>(eq);
      }
      if constexpr (Eq::Rank() <= 2) for (int n = 0; n < 4; ++n) Outflow(eq, n % 2);
    } catch (const std::exception&) { trace.ev(J().t("a", "exception")); }
    trace.finish();
  }
}
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  vh::install(trace, argv[1], vh::thorough() ? 3000 : 200);
  rng().seed(vh::seed());
  const int k = vh::thorough() ? 400 : 20;
  Run(PerfectGas<1>{}, "PerfectGas", k); Run(PerfectGas<2>{}, "PerfectGas", k); Run(PerfectGas<3>{}, "PerfectGas", k);
  PerfectGasConstants c;
  for (int m = 0; m < k; ++m) { // any number of species and passive scalars
    Run(PerfectGasMix<1>(c, Rnd(0, 3), Rnd(0, 2)), "PerfectGasMix", 1);
    Run(PerfectGasMix<2>(c, Rnd(0, 3), Rnd(0, 2)), "PerfectGasMix", 1);
    Run(PerfectGasMix<3>(c, Rnd(0, 3), Rnd(0, 2)), "PerfectGasMix", 1);
  }
  Burke2012 mech; FlameMasterReactor reactor(mech);
  Run(IdealGasMix<1>(reactor), "IdealGasMix", k / 2); Run(IdealGasMix<2>(reactor), "IdealGasMix", k / 2); Run(IdealGasMix<3>(reactor), "IdealGasMix", k / 2);
  std::printf("traces=%lld\n", trace.count);
  std::fclose(trace.out);
}
