// Conformance harness for slopes, reconstructions and the methods of second
// and third order: single states, chunks of states and masked chunks.
#include "fub/core/type_traits.hpp"
#include "vn.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/equations/Burgers.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "fub/equations/perfect_gas/MusclHancockCharactersticMethod.hpp"
#include "fub/equations/perfect_gas/MusclHancockPrimMethod.hpp"
#include "fub/equations/perfect_gas/ThirdOrderRungeKuttaMethod.hpp"
#include "fub/equations/perfect_gas_mix/HllemMethod.hpp"
#include "fub/flux_method/MusclHancockMethod.hpp"
#include "fub/flux_method/MusclHancockMethod2.hpp"
#ifndef PART
#define PART 0
#endif
using namespace vn;
using vh::J;
using Vs = std::vector<V>;
static std::string Qs(const Vs& q) { std::vector<std::string> s; for (auto& x : q) s.push_back(Nums(x)); return vh::List(s); }
static const char* B(bool b) { return b ? "true" : "false"; }
static std::string On(bool l, bool r) { return std::string("[") + B(l) + "," + B(r) + "]"; }
static void Pass(const char* what, bool ok) { tr().ev(J().t("a", "passes").t("what", what).b("ok", ok)); }
static int Reps(int n) { return n * (vh::thorough() ? 12 : 1); }
static std::string LawStr(const char* law, int n, int ns, int np, double gamma, double msq, double g, const V& vel, const std::string& what, double rspec = 1) {
  return J().t("law", law).i("n", n).i("ns", ns).i("np", np).raw("gamma", Num(gamma)).raw("rspec", Num(rspec)).raw("msq", Num(msq)).raw("g", Num(g)).raw("vel", Nums(vel)).t("what", what).str();
}

// A Riemann solver that only notes what it is given.
static Vs g_states[W]; // per lane (lane 0 for single states)
static double g_dt, g_dx; static int g_dir, g_calls; static bool g_ok;
static Array1d g_frac; static std::array<Array1d, 2> g_vols;
template <class Eq> struct Recorder {
  using Complete = ::fub::Complete<Eq>; using Conservative = ::fub::Conservative<Eq>;
  using CompleteArray = ::fub::CompleteArray<Eq>; using ConservativeArray = ::fub::ConservativeArray<Eq>;
  Eq eq;
  Recorder(const Eq& e) : eq(e) {}
  static constexpr int GetStencilWidth() noexcept { return 1; }
  const Eq& GetEquation() const { return eq; }
  void note(Duration dt, double dx, Direction dir) { g_dt = dt.count(); g_dx = dx; g_dir = int(dir); ++g_calls; }
  void ComputeNumericFlux(Conservative& f, span<const Complete, 2> q, Duration dt, double dx, Direction dir) {
    note(dt, dx, dir); g_states[0] = {Flat(q[0]), Flat(q[1])};
    double k = 1000; ForEachComponent([&](double& x) { x = ++k; }, f);
  }
  void arr(ConservativeArray& f, span<const CompleteArray, 2> q) {
    for (int i = 0; i < W; ++i) g_states[i] = {Lane(q[0], i), Lane(q[1], i)};
    double k = 1000; ForEachComponent([&](auto&& x) { k += 10; for (int i = 0; i < W; ++i) x[i] = k + i; }, f);
  }
  void ComputeNumericFlux(ConservativeArray& f, span<const CompleteArray, 2> q, Duration dt, double dx, Direction dir) { note(dt, dx, dir); arr(f, q); }
  void ComputeNumericFlux(ConservativeArray& f, Array1d frac, span<const CompleteArray, 2> q, span<const Array1d, 2> vols, Duration dt, double dx, Direction dir) {
    note(dt, dx, dir); arr(f, q); g_frac = frac; g_vols = {vols[0], vols[1]};
  }
  double ComputeStableDt(span<const Complete, 2> q, double dx, Direction dir) noexcept { note(Duration(0), dx, dir); g_states[0] = {Flat(q[0]), Flat(q[1])}; return 42.5; }
  Array1d ComputeStableDt(span<const CompleteArray, 2> q, double dx, Direction dir) noexcept {
    note(Duration(0), dx, dir); for (int i = 0; i < W; ++i) g_states[i] = {Lane(q[0], i), Lane(q[1], i)};
    Array1d r; for (int i = 0; i < W; ++i) r[i] = 40 + i; return r;
  }
  Array1d ComputeStableDt(span<const CompleteArray, 2> q, Array1d frac, span<const Array1d, 2> vols, double dx, Direction dir) noexcept {
    g_frac = frac; g_vols = {vols[0], vols[1]}; return ComputeStableDt(q, dx, dir) + 100.0;
  }
};
template <class S> bool FluxPasses(const S& f) {
  double k = 1000; bool ok = true;
  ForEachComponent([&](double x) { ok = ok && x == ++k; }, f);
  return ok;
}
template <class S> bool FluxPassesArr(const S& f) {
  double k = 1000; bool ok = true;
  ForEachComponent([&](auto&& x) { k += 10; for (int i = 0; i < W; ++i) ok = ok && x[i] == k + i; }, f);
  return ok;
}

struct Ctx { double dt, dx; int d; };
// the step in relation to the fastest wave
static Ctx RndCtx(double fastest, int rank) {
  Ctx c; c.dx = LogU(1e-3, 10); c.d = Rnd(0, rank - 1);
  c.dt = (Rnd(0, 9) == 0 ? 0.0 : U(0.05, 0.6)) * c.dx / fastest;
  return c;
}
struct Mask { Array1d frac; std::array<Array1d, 4> vols; bool junk[4][W]; };
static Mask RndMasks() {
  Mask m; const int all = Rnd(0, 4); const bool none = Rnd(0, 9) == 0;
  for (int i = 0; i < W; ++i) {
    for (int k = 0; k < 4; ++k) { m.vols[k][i] = Rnd(0, all == 0 ? 6 : 2) ? (Rnd(0, 1) ? 1.0 : U(1e-3, 1)) : 0.0; }
    m.frac[i] = m.vols[1][i] > 0 && m.vols[2][i] > 0 && !none && Rnd(0, 4) ? (Rnd(0, 1) ? 1.0 : U(1e-3, 1)) : 0.0;
  }
  return m;
}
// cells without volume hold nothing or nonsense
static V Junk(const V& q) { return Rnd(0, 1) ? V(q.size(), 0.0) : q; }

// fill: a function that yields a state for a stencil position from a base
template <class Eq, class Gen> struct Runner {
  Eq eq; Gen gen; double fastest; bool isgas;
  using C = Complete<Eq>; using CA = CompleteArray<Eq>;
  Vs stencil(int n) { return gen(n); }
  template <int N> std::array<C, N> make() { return make_impl<N>(std::make_index_sequence<N>()); }
  template <int N, std::size_t... I> std::array<C, N> make_impl(std::index_sequence<I...>) { return {((void)I, C(eq))...}; }
  template <int N> std::array<CA, N> makea() { return makea_impl<N>(std::make_index_sequence<N>()); }
  template <int N, std::size_t... I> std::array<CA, N> makea_impl(std::index_sequence<I...>) { return {((void)I, CA(eq))...}; }

  J head(const char* a, const char* f, const char* m, const char* k, const Ctx& c) {
    return J().t("a", a).t("f", f).t("m", m).t("k", k).raw("dt", Num(c.dt)).raw("dx", Num(c.dx)).i("d", c.d + 1);
  }
  // ---- slopes of the old interface
  template <class Lim> void Slope(const char* k) {
    Lim lim;
    auto s3 = make<3>(); const Vs q = stencil(3); for (int i = 0; i < 3; ++i) Fill(s3[i], q[i]);
    Conservative<Eq> g(eq); lim.ComputeLimitedSlope(g, span<const C, 3>(s3));
    tr().ev(J().t("a", "slope").t("k", k).t("f", "scalar").b("on", true).raw("q", Qs(q)).raw("r", Nums(Flat(g))));
    auto a3 = makea<3>(); std::vector<Vs> qs;
    for (int i = 0; i < W; ++i) { qs.push_back(stencil(3)); for (int j = 0; j < 3; ++j) FillLane(a3[j], i, qs[i][j]); }
    ConservativeArray<Eq> ga(eq), gm(eq); const MaskArray m = RndMask();
    lim.ComputeLimitedSlope(ga, span<const CA, 3>(a3));
    lim.ComputeLimitedSlope(gm, span<const CA, 3>(a3), m);
    for (int i = 0; i < W; i += 2) {
      tr().ev(J().t("a", "slope").t("k", k).t("f", "array").b("on", true).raw("q", Qs(qs[i])).raw("r", Nums(Lane(ga, i))));
      const int j = i + 1;
      tr().ev(J().t("a", "slope").t("k", k).t("f", "masked").b("on", m[j]).raw("q", Qs(qs[j])).raw("r", Nums(Lane(gm, j))));
    }
  }
  // ---- gradients
  template <class GM> void Gradient(const char* m, const char* k, GM gm) {
    Ctx c = RndCtx(fastest, Eq::Rank()); const Direction dir = Direction(c.d);
    auto s3 = make<3>(); const Vs q = stencil(3); for (int i = 0; i < 3; ++i) Fill(s3[i], q[i]);
    typename GM::Gradient g(eq); gm.ComputeGradient(g, s3, c.dx, dir);
    tr().ev(head("gradient", "scalar", m, k, c).raw("q", Qs(q)).raw("r", Nums(Flat(g))));
    auto a3 = makea<3>(); std::vector<Vs> qs;
    for (int i = 0; i < W; ++i) { qs.push_back(stencil(3)); for (int j = 0; j < 3; ++j) FillLane(a3[j], i, qs[i][j]); }
    typename GM::GradientArray ga(eq); gm.ComputeGradient(ga, a3, c.dx, dir);
    for (int i = Rnd(0, 1); i < W; i += 3) tr().ev(head("gradient", "array", m, k, c).raw("q", Qs(qs[i])).raw("r", Nums(Lane(ga, i))));
  }
  // ---- reconstruction with given slopes
  template <class RM, class GM> void Reconstruct(const char* m, RM rm, GM gm) {
    Ctx c = RndCtx(fastest, Eq::Rank()); const Direction dir = Direction(c.d);
    const bool up = Rnd(0, 1); const Side side = up ? Side::Upper : Side::Lower;
    auto s3 = make<3>(); const Vs q = stencil(3); for (int i = 0; i < 3; ++i) Fill(s3[i], q[i]);
    typename GM::Gradient g(eq); gm.ComputeGradient(g, s3, c.dx, dir);
    { V v = Flat(g); for (double& x : v) x *= U(0.3, 1.0); Fill(g, v); }
    C r(eq); rm.Reconstruct(r, s3[1], g, Duration(c.dt), c.dx, dir, side);
    auto ev = [&](const char* a, const char* f, const V& q0, const V& gg, const V& rr) {
      tr().ev(head(a, f, m, "", c).b("up", up).raw("q", Qs({q0})).raw("g", Nums(gg)).raw("r", Nums(rr))); };
    ev("reconstruct", "scalar", q[1], Flat(g), Flat(r));
    if constexpr (std::is_same_v<RM, PrimitiveReconstruction<Eq>>) {
      // back again; now and then without a slope of the pressure or the density
      V v = Flat(g); const int n = Eq::Rank();
      if (Rnd(0, 3) == 0) v[0] = 0.0; if (Rnd(0, 3) == 0) v[n + 1] = 0.0; if (Rnd(0, 5) == 0) v[1 + c.d] = 0.0;
      Fill(g, v);
      rm.Reconstruct(r, s3[1], g, Duration(c.dt), c.dx, dir, side);
      C back(eq); rm.ReconstructInvers(back, r, g, Duration(c.dt), c.dx, dir, side);
      ev("inverse", "scalar", q[1], Flat(g), Flat(back));
    }
    if constexpr (std::is_same_v<RM, ConservativeReconstruction<Eq>>) {
      Conservative<Eq> rc(eq); rm.Reconstruct(rc, AsCons(s3[1]), g, Duration(c.dt), c.dx, dir, side);
      rm.Reconstruct(r, s3[1], g, Duration(c.dt), c.dx, dir, side);
      Pass("conservative part alone", Flat(rc) == Flat(AsCons(r)));
    }
    auto a3 = makea<3>(); std::vector<Vs> qs;
    for (int i = 0; i < W; ++i) { qs.push_back(stencil(3)); for (int j = 0; j < 3; ++j) FillLane(a3[j], i, qs[i][j]); }
    typename GM::GradientArray ga(eq); gm.ComputeGradient(ga, a3, c.dx, dir);
    CA ra(eq); rm.Reconstruct(ra, a3[1], ga, Duration(c.dt), c.dx, dir, side);
    for (int i = Rnd(0, 1); i < W; i += 3) ev("reconstruct", "array", qs[i][1], Lane(ga, i), Lane(ra, i));
  }
  // ---- methods on top of the recorder
  template <class M> void Muscl(const char* m, const char* k) {
    M mt(eq); Ctx c = RndCtx(fastest, Eq::Rank()); const Direction dir = Direction(c.d);
    auto s4 = make<4>(); const Vs q = stencil(4); for (int i = 0; i < 4; ++i) Fill(s4[i], q[i]);
    Conservative<Eq> f(eq);
    auto same = [&] { return g_dt == c.dt && g_dx == c.dx && g_dir == c.d && g_calls == 1; };
    g_calls = 0; mt.ComputeNumericFlux(f, s4, Duration(c.dt), c.dx, dir);
    auto ev = [&](const char* fm, bool open, bool l, bool r, const Vs& q, const Vs& rec) {
      tr().ev(head("muscl", fm, m, k, c).b("open", open).raw("on", On(l, r)).raw("q", Qs(q)).raw("r1", Nums(rec[0])).raw("r2", Nums(rec[1]))); };
    ev("scalar", true, true, true, q, g_states[0]);
    Pass("scalar flux", FluxPasses(f) && same());
    g_calls = 0; const double dt1 = mt.ComputeStableDt(s4, c.dx, dir);
    Pass("scalar step", dt1 == 42.5 && g_states[0] == Vs{q[1], q[2]} && g_dx == c.dx && g_dir == c.d && g_calls == 1);
    auto a4 = makea<4>(); std::vector<Vs> qs;
    for (int i = 0; i < W; ++i) { qs.push_back(stencil(4)); for (int j = 0; j < 4; ++j) FillLane(a4[j], i, qs[i][j]); }
    ConservativeArray<Eq> fa(eq); g_calls = 0; mt.ComputeNumericFlux(fa, a4, Duration(c.dt), c.dx, dir);
    for (int i = Rnd(0, 1); i < W; i += 3) ev("array", true, true, true, qs[i], g_states[i]);
    Pass("array flux", FluxPassesArr(fa) && same());
    g_calls = 0; const Array1d dta = mt.ComputeStableDt(a4, c.dx, dir);
    bool ok = g_calls == 1 && g_dx == c.dx && g_dir == c.d;
    for (int i = 0; i < W; ++i) ok = ok && dta[i] == 40 + i && g_states[i] == Vs{qs[i][1], qs[i][2]};
    Pass("array step", ok);
    if constexpr (Eq::Rank() > 1 && !std::is_same_v<Eq, ShallowWater>) Masked(mt, m, k, c, a4, qs, ev);
  }
  template <class M, class Ev> void Masked(M& mt, const char* m, const char* k, const Ctx& c, std::array<CA, 4>& a4, std::vector<Vs>& qs, Ev ev) {
    const Direction dir = Direction(c.d);
    Mask mk = RndMasks(); auto am = a4;
    for (int i = 0; i < W; ++i) for (int j = 0; j < 4; ++j) if (mk.vols[j][i] == 0.0) FillLane(am[j], i, Junk(qs[i][j]));
    g_calls = 0; ConservativeArray<Eq> fm(eq);
    mt.ComputeNumericFlux(fm, mk.frac, am, span<Array1d, 4>(mk.vols), Duration(c.dt), c.dx, dir);
    if (!(mk.frac > 0.0).any()) {
      bool zero = g_calls == 0; // nothing to do, or left to the method below
      if (zero) ForEachComponent([&](auto&& x) { for (int i = 0; i < W; ++i) zero = zero && x[i] == 0; }, fm);
      Pass("closed faces", zero || (g_calls == 1 && FluxPassesArr(fm)));
    } else {
      Pass("masked flux", FluxPassesArr(fm) && g_dt == c.dt && g_dx == c.dx && g_dir == c.d && g_calls == 1 && (g_frac == mk.frac).all() && (g_vols[0] == mk.vols[1]).all() && (g_vols[1] == mk.vols[2]).all());
      for (int i = 0; i < W; ++i) {
        const bool l = mk.vols[0][i] > 0, r = mk.vols[3][i] > 0;
        if (mk.frac[i] > 0) ev("masked", true, l, r, qs[i], g_states[i]);
      }
    }
    g_calls = 0; const Array1d dtm = mt.ComputeStableDt(am, mk.frac, span<const Array1d, 4>(mk.vols), c.dx, dir);
    bool ok = g_calls == 1 && g_dx == c.dx && g_dir == c.d && (g_frac == mk.frac).all() && (g_vols[0] == mk.vols[1]).all() && (g_vols[1] == mk.vols[2]).all();
    for (int i = 0; i < W; ++i) ok = ok && dtm[i] == 140 + i;
    Pass("masked step", ok);
  }
  // two states and their slopes
  template <class M, class GM> void MusclGradients(const char* m, GM gm, bool arrays) {
    M mt(eq); Ctx c = RndCtx(fastest, Eq::Rank()); const Direction dir = Direction(c.d);
    auto s4 = make<4>(); const Vs q = stencil(4); for (int i = 0; i < 4; ++i) Fill(s4[i], q[i]);
    std::array<typename GM::Gradient, 2> g{typename GM::Gradient(eq), typename GM::Gradient(eq)};
    gm.ComputeGradient(g[0], span<const C, 4>(s4).template subspan<0, 3>(), c.dx, dir);
    gm.ComputeGradient(g[1], span<const C, 4>(s4).template subspan<1, 3>(), c.dx, dir);
    for (auto& x : g) { V v = Flat(x); for (double& y : v) y *= U(0.3, 1.0); Fill(x, v); }
    Conservative<Eq> f(eq); g_calls = 0;
    mt.ComputeNumericFlux(f, span<const C, 4>(s4).template subspan<1, 2>(), g, Duration(c.dt), c.dx, dir);
    tr().ev(head("muscl gradients", "scalar", m, "", c).raw("q", Qs({q[1], q[2]})).raw("g", Nums(Flat(g[0]))).raw("g2", Nums(Flat(g[1]))).raw("r1", Nums(g_states[0][0])).raw("r2", Nums(g_states[0][1])));
    Pass("scalar flux", FluxPasses(f) && g_calls == 1 && g_dt == c.dt && g_dx == c.dx && g_dir == c.d);
    (void)arrays;
  }
};

// a stencil of states that differ mildly; strict: all that is reconstructed
// from it is physical
static bool Physical(const GasGen& g, double msq, const Vs& q) {
  const int n = g.n, np2 = n + 2;
  for (std::size_t i = 1; i + 1 < q.size(); ++i) {
    double lo[8], hi[8];
    for (int k = 0; k < np2; ++k) {
      const double D = 0.8 * std::max(std::abs(q[i][k] - q[i - 1][k]), std::abs(q[i + 1][k] - q[i][k]));
      lo[k] = q[i][k] - D; hi[k] = std::abs(q[i][k]) + D;
    }
    double m2 = 0; for (int d = 0; d < n; ++d) m2 += hi[1 + d] * hi[1 + d];
    if (lo[0] <= 0 || lo[n + 1] <= 1.1 * msq * 0.5 * m2 / lo[0]) return false;
  }
  return true;
}
static Vs GasStencil(const GasGen& g, double msq, int n, bool strict = false) {
  const V base = g.prim(); const double a = std::sqrt(g.gamma * base[g.n + 1] / base[0]);
  const int k = Rnd(0, 7); double s = k < 2 ? 0.02 : k < 6 ? 0.25 : 0.6;
  for (;; s /= 2) {
    Vs r; V w = base;
    for (int i = 0; i < n; ++i) {
      if (k != 7 || Rnd(0, 1)) {
        w = base;
        w[0] *= std::exp(U(-s, s)); w[g.n + 1] *= std::exp(U(-s, s));
        for (int d = 0; d < g.n; ++d) w[1 + d] += a * U(-s, s);
        double left = 1;
        for (int j = 0; j < g.ns; ++j) { double& y = w[g.n + 2 + j]; y = std::max(0.0, std::min(left, y + U(-s, s))); left -= y; }
        for (int j = 0; j < g.np; ++j) w[g.n + 2 + g.ns + j] += U(-s, s);
        if (k == 6) w[0] = base[0] * (1 + i * s); // straight lines
      }
      V v = w; for (int d = 0; d < g.n; ++d) v[1 + d] /= std::sqrt(msq);
      r.push_back(g.complete(v, msq));
    }
    if (!strict || Physical(g, msq, r)) return r;
  }
}
static double Fastest(const GasGen& g, double msq) { return (1 + g.mach) * 2 * std::sqrt(g.gamma * g.pmax / g.rmin) / std::sqrt(msq); }
template <class R> void OldSlopes(R& run) {
  run.template Slope<MinMod>("minmod"); run.template Slope<VanLeer>("vanleer"); run.template Slope<NoLimiter>("none"); run.template Slope<NoGradient>("zero");
}
template <class Eq, class Gen> void Cons(Eq eq, Gen gen, double fastest, bool gas) {
  Runner<Eq, Gen> run{eq, gen, fastest, gas};
  OldSlopes(run);
  using CD0 = CentralDifferenceGradient<MinModLimiter>; using CD1 = CentralDifferenceGradient<VanLeerLimiter>;
  using CD2 = CentralDifferenceGradient<NoLimiter2>; using CD3 = CentralDifferenceGradient<UpwindLimiter>;
  run.Gradient("cons", "minmod", ConservativeGradient<Eq, CD0>(eq, CD0()));
  run.Gradient("cons", "vanleer", ConservativeGradient<Eq, CD1>(eq));
  run.Gradient("cons", "central", ConservativeGradient<Eq, CD2>(eq));
  run.Gradient("cons", "zero", ConservativeGradient<Eq, CD3>(eq));
  for (int i = 0; i < 2; ++i) run.Reconstruct("cons", ConservativeReconstruction<Eq>(eq), ConservativeGradient<Eq, CD0>(eq));
  using Rec = Recorder<Eq>;
  run.template Muscl<MusclHancock<Eq, Rec, MinMod>>("cons", "minmod");
  run.template Muscl<MusclHancock<Eq, Rec, VanLeer>>("cons", "vanleer");
  run.template Muscl<MusclHancock<Eq, Rec, NoGradient>>("cons", "zero");
  run.template Muscl<MusclHancock<Eq, Rec, NoLimiter>>("cons", "none");
  run.template MusclGradients<MusclHancock<Eq, Rec, MinMod>>("cons", ConservativeGradient<Eq, CD0>(eq), false);
  run.template Muscl<MusclHancock2<Eq, ConservativeGradient<Eq, CD0>, ConservativeReconstruction<Eq>, Rec>>("cons", "minmod");
  run.template Muscl<MusclHancock2<Eq, ConservativeGradient<Eq, CD1>, ConservativeReconstruction<Eq>, Rec>>("cons", "vanleer");
  run.template MusclGradients<MusclHancock2<Eq, ConservativeGradient<Eq, CD1>, ConservativeReconstruction<Eq>, Rec>>("cons", ConservativeGradient<Eq, CD1>(eq), true);
}
template <class Eq, class Gen> void Gas(Eq eq, Gen gen, double fastest) {
  Runner<Eq, Gen> run{eq, gen, fastest, true};
  using CD0 = CentralDifferenceGradient<MinModLimiter>; using CD1 = CentralDifferenceGradient<VanLeerLimiter>;
  using CD2 = CentralDifferenceGradient<NoLimiter2>; using CD3 = CentralDifferenceGradient<UpwindLimiter>;
  using Rec = Recorder<Eq>;
  run.Gradient("prim", "minmod", PrimitiveGradient<Eq, CD0>(eq));
  run.Gradient("prim", "vanleer", PrimitiveGradient<Eq, CD1>(eq, CD1()));
  run.Gradient("prim", "central", PrimitiveGradient<Eq, CD2>(eq));
  run.Gradient("char", "minmod", CharacteristicsGradient<Eq, CD0>(eq, CD0()));
  run.Gradient("char", "vanleer", CharacteristicsGradient<Eq, CD1>(eq));
  run.Gradient("char", "central", CharacteristicsGradient<Eq, CD2>(eq));
  for (int i = 0; i < 4; ++i) run.Reconstruct("prim", PrimitiveReconstruction<Eq>(eq), PrimitiveGradient<Eq, CD0>(eq));
  for (int i = 0; i < 3; ++i) run.Reconstruct("char", CharacteristicsReconstruction<Eq>(eq), CharacteristicsGradient<Eq, CD0>(eq));
  using P = MusclHancock2<Eq, PrimitiveGradient<Eq, CD1>, PrimitiveReconstruction<Eq>, Rec>;
  using K = MusclHancock2<Eq, CharacteristicsGradient<Eq, CD0>, CharacteristicsReconstruction<Eq>, Rec>;
  run.template Muscl<P>("prim", "vanleer");
  run.template Muscl<K>("char", "minmod");
  run.template Muscl<MusclHancock2<Eq, PrimitiveGradient<Eq, CD3>, PrimitiveReconstruction<Eq>, Rec>>("prim", "zero");
  run.template MusclGradients<P>("prim", PrimitiveGradient<Eq, CD0>(eq), true);
  run.template MusclGradients<K>("char", CharacteristicsGradient<Eq, CD1>(eq), true);
}
// complete methods on top of HLLEM
template <class M, class Eq, class Gen> void Full(const char* m, const char* k, const Eq& eq, Gen gen, double fastest, bool scalar) {
  Runner<Eq, Gen> run{eq, gen, fastest, true};
  M mt(eq); Ctx c = RndCtx(fastest, Eq::Rank()); const Direction dir = Direction(c.d);
  auto ev = [&](const char* a, const char* fm, bool open, bool l, bool r, const Vs& q, const V& res) {
    tr().ev(run.head(a, fm, m, k, c).b("open", open).raw("on", On(l, r)).raw("q", Qs(q)).raw("r", Nums(res))); };
  if (scalar) {
    auto s4 = run.template make<4>(); const Vs q = run.stencil(4); for (int i = 0; i < 4; ++i) Fill(s4[i], q[i]);
    Conservative<Eq> f(eq); mt.ComputeNumericFlux(f, s4, Duration(c.dt), c.dx, dir);
    ev("flux", "scalar", true, true, true, q, Flat(f));
    ev("dt", "scalar", true, true, true, q, {mt.ComputeStableDt(s4, c.dx, dir)});
  }
  auto a4 = run.template makea<4>(); std::vector<Vs> qs;
  for (int i = 0; i < W; ++i) { qs.push_back(run.stencil(4)); for (int j = 0; j < 4; ++j) FillLane(a4[j], i, qs[i][j]); }
  ConservativeArray<Eq> fa(eq); mt.ComputeNumericFlux(fa, a4, Duration(c.dt), c.dx, dir);
  const Array1d da = mt.ComputeStableDt(a4, c.dx, dir);
  for (int i = Rnd(0, 2); i < W; i += 3) { ev("flux", "array", true, true, true, qs[i], Lane(fa, i)); ev("dt", "array", true, true, true, qs[i], {da[i]}); }
  if constexpr (Eq::Rank() > 1) for (int rep = 0; rep < 4; ++rep) {
    Mask mk = RndMasks(); c = RndCtx(fastest, Eq::Rank()); const Direction dir = Direction(c.d);
    for (int i = 0; i < W; ++i) { qs[i] = run.stencil(4); for (int j = 0; j < 4; ++j) FillLane(a4[j], i, qs[i][j]); }
    for (int i = 0; i < W; ++i) for (int j = 0; j < 4; ++j) if (mk.vols[j][i] == 0.0) FillLane(a4[j], i, Junk(qs[i][j]));
    // the flux holds something from before
    ConservativeArray<Eq> fm(eq); ForEachComponent([](auto&& x) { x = Array1d::Constant(7.0); }, fm);
    mt.ComputeNumericFlux(fm, mk.frac, a4, span<Array1d, 4>(mk.vols), Duration(c.dt), c.dx, dir);
    const Array1d dm = mt.ComputeStableDt(a4, mk.frac, span<const Array1d, 4>(mk.vols), c.dx, dir);
    for (int i = 0; i < W; ++i) {
      const bool open = mk.frac[i] > 0, l = mk.vols[0][i] > 0, r = mk.vols[3][i] > 0;
      if (open || i % 4 == 0) ev("flux", "masked", open, l, r, qs[i], Lane(fm, i));
      if (i == rep) ev("dt", "masked", open, l, r, qs[i], {dm[i]});
    }
  }
}
template <class Eq> void SetGamma(Eq& eq, double gamma) {
  eq.gamma = gamma; eq.gamma_minus_1_inv = 1.0 / (gamma - 1.0);
  eq.gamma_array_ = Array1d::Constant(eq.gamma); eq.gamma_minus_1_inv_array_ = Array1d::Constant(eq.gamma_minus_1_inv);
}
static GasGen MildGen(double gamma, int n) { GasGen g{gamma}; g.n = n; g.mach = 1.5; g.rmin = g.pmin = 0.2; g.rmax = g.pmax = 5; return g; }
template <int N> void RunGas(int reps) {
  for (int r = 0; r < reps; ++r) {
    PerfectGas<N> eq; if (Rnd(0, 2)) SetGamma(eq, Rnd(0, 1) ? U(1.05, 1.7) : 5.0 / 3.0);
    const GasGen g = MildGen(eq.gamma, N);
    auto gen = [g](int n) { return GasStencil(g, 1.0, n, true); };
    const double fast = Fastest(g, 1.0) / 4;
    using E = PerfectGas<N>;
    tr().start(LawStr("gas", N, 0, 0, eq.gamma, 1, 0, {}, "conservative")); Cons(eq, gen, fast, true); tr().finish();
    tr().start(LawStr("gas", N, 0, 0, eq.gamma, 1, 0, {}, "primitive")); Gas(eq, gen, fast); tr().finish();
    tr().start(LawStr("gas", N, 0, 0, eq.gamma, 1, 0, {}, "MusclHancockPrim")); Full<perfect_gas::MusclHancockPrim<N>>("prim", "mean", eq, gen, fast, false); tr().finish();
    tr().start(LawStr("gas", N, 0, 0, eq.gamma, 1, 0, {}, "MusclHancockCharacteristic")); Full<perfect_gas::MusclHancockCharacteristic<N>>("char", "vanleer", eq, gen, fast, true); tr().finish();
    using CD1 = CentralDifferenceGradient<VanLeerLimiter>; using H = perfect_gas::HllemMethod<E>;
    tr().start(LawStr("gas", N, 0, 0, eq.gamma, 1, 0, {}, "MusclHancock2")); Full<MusclHancock2<E, CharacteristicsGradient<E, CD1>, CharacteristicsReconstruction<E>, H>>("char", "vanleer", eq, gen, fast, true); tr().finish();
    tr().start(LawStr("gas", N, 0, 0, eq.gamma, 1, 0, {}, "MusclHancock")); Full<MusclHancock<E, H, VanLeer>>("cons", "vanleer", eq, gen, fast, true); tr().finish();
    if constexpr (N == 1) {
      PerfectGas<1> ns = eq; ns.Rspec = Rnd(0, 1) ? 1.0 : U(0.2, 300);
      perfect_gas::ThirdOrderRungeKutta<1> rk(ns); rk.eta_0 = Rnd(0, 1) ? 0.0 : LogU(1e-5, 1e-2); rk.k_0 = Rnd(0, 1) ? 0.0 : LogU(1e-5, 1e-2) * ns.Rspec;
      rk.eta_0 *= std::sqrt(ns.Rspec); rk.k_0 *= std::sqrt(ns.Rspec);
      tr().start(LawStr("gas", 1, 0, 0, eq.gamma, 1, 0, {}, "ThirdOrderRungeKutta", ns.Rspec));
      Runner<E, decltype(gen)> run{ns, gen, fast, true};
      Ctx c = RndCtx(2 * fast, 1); c.dx = std::max(c.dx, 0.05);
      c.dt = std::min(c.dt, 0.3 * c.dx / (2 * fast));
      auto ev = [&](const char* a, const char* f, const Vs& q, const V& res) {
        tr().ev(J().t("a", a).t("f", f).raw("dt", Num(c.dt)).raw("dx", Num(c.dx)).raw("eta", Num(rk.eta_0)).raw("kappa", Num(rk.k_0)).raw("q", Qs(q)).raw("r", Nums(res))); };
      auto mild = [&] { // small waves keep all intermediate states physical
        const V base = g.prim(); const double a = std::sqrt(g.gamma * base[2] / base[0]); Vs s;
        for (int i = 0; i < 12; ++i) { V w = base; w[0] *= std::exp(U(-.1, .1)); w[1] += a * U(-.1, .1); w[2] *= std::exp(U(-.1, .1)); s.push_back(g.complete(w)); }
        return s; };
      auto s12 = run.template make<12>(); const Vs q = mild(); for (int i = 0; i < 12; ++i) Fill(s12[i], q[i]);
      Conservative<E> f(ns); rk.ComputeNumericFlux(f, s12, Duration(c.dt), c.dx, Direction::X);
      ev("rk3", "scalar", q, Flat(f)); ev("rk3 dt", "scalar", q, {rk.ComputeStableDt(s12, c.dx, Direction::X)});
      auto a12 = run.template makea<12>(); std::vector<Vs> qs;
      for (int i = 0; i < W; ++i) { qs.push_back(mild()); for (int j = 0; j < 12; ++j) FillLane(a12[j], i, qs[i][j]); }
      ConservativeArray<E> fa(ns); rk.ComputeNumericFlux(fa, a12, Duration(c.dt), c.dx, Direction::X);
      const Array1d da = rk.ComputeStableDt(a12, c.dx, Direction::X);
      for (int i = Rnd(0, 1); i < W; i += 4) { ev("rk3", "array", qs[i], Lane(fa, i)); ev("rk3 dt", "array", qs[i], {da[i]}); }
      tr().finish();
    }
  }
}
template <int N> void RunMix(int reps) {
  for (int r = 0; r < reps; ++r) {
    const int ns = Rnd(0, 3), np = Rnd(0, 2);
    const double gamma = Rnd(0, 2) ? U(1.05, 1.7) : 1.4;
    PerfectGasMix<N> eq; eq.SetConstants(1.0, gamma); eq.n_species = ns; eq.n_passive_scalars = np;
    const double msq = Rnd(0, 1) ? 1.0 : U(0.05, 0.9);
    eq.Msq = msq; eq.Msqinv = 1.0 / msq;
    GasGen g = MildGen(gamma, N); g.ns = ns; g.np = np;
    auto gen = [g, msq](int n) { return GasStencil(g, msq, n, true); };
    const double fast = Fastest(g, msq) / 4;
    using E = PerfectGasMix<N>; using CD1 = CentralDifferenceGradient<VanLeerLimiter>;
    tr().start(LawStr("mix", N, ns, np, gamma, msq, 0, {}, "conservative")); Cons(eq, gen, fast, true); tr().finish();
    tr().start(LawStr("mix", N, ns, np, gamma, msq, 0, {}, "primitive")); Gas(eq, gen, fast); tr().finish();
    if constexpr (N < 3) {
      using H = perfect_gas::HllemMethod<E>;
      tr().start(LawStr("mix", N, ns, np, gamma, msq, 0, {}, "MusclHancock2")); Full<MusclHancock2<E, PrimitiveGradient<E, CD1>, PrimitiveReconstruction<E>, H>>("prim", "vanleer", eq, gen, fast, true); tr().finish();
    }
  }
}
void part0(); void part1(); void part2(); void part3(); void part4(); void part5();
#if PART == 0
static void Limits() {
  auto one = [](const char* k, auto lim) {
    CentralDifferenceGradient<decltype(lim)> cd;
    auto val = [] { const int j = Rnd(0, 9); return j == 0 ? 0.0 : j == 1 ? 1.0 : (Rnd(0, 1) ? 1 : -1) * LogU(1e-8, 1e4); };
    Array1d a, b, r;
    for (int i = 0; i < W; ++i) { a[i] = val(); b[i] = Rnd(0, 7) ? val() : a[i]; }
    r = cd.ComputeGradient(a, b);
    for (int i = 0; i < W; ++i) {
      tr().ev(J().t("a", "limit").t("k", k).t("f", "array").raw("x", Num(a[i])).raw("y", Num(b[i])).raw("r", Nums(V{r[i]})));
      tr().ev(J().t("a", "limit").t("k", k).t("f", "scalar").raw("x", Num(a[i])).raw("y", Num(b[i])).raw("r", Nums(V{cd.ComputeGradient(a[i], b[i])})));
    }
  };
  for (int i = 0; i < Reps(3); ++i) { one("minmod", MinModLimiter()); one("vanleer", VanLeerLimiter()); one("central", NoLimiter2()); one("zero", UpwindLimiter()); }
  for (int i = 0; i < Reps(20); ++i) {
    auto val = [] { return Rnd(0, 9) ? (Rnd(0, 1) ? 1 : -1) * LogU(1e-8, 1e4) : 0.0; };
    const double x = val(), y = val();
    tr().ev(J().t("a", "limit").t("k", "vanleer").t("f", "VanLeer").raw("x", Num(x)).raw("y", Num(y)).raw("r", Nums(V{VanLeer()(x, y)})));
    Array1d a = Array1d::Constant(x), b = Array1d::Constant(y);
    tr().ev(J().t("a", "limit").t("k", "vanleer").t("f", "VanLeer").raw("x", Num(x)).raw("y", Num(y)).raw("r", Nums(V{VanLeer()(a, b)[Rnd(0, W - 1)]})));
  }
}
void part0() {
  tr().start(LawStr("bur", 1, 0, 0, 1, 1, 0, {}, "limiters")); Limits(); tr().finish();
  for (int r = 0; r < Reps(4); ++r) {
    ShallowWater swe; if (Rnd(0, 1)) swe.gravity_ = U(0.5, 20);
    tr().start(LawStr("swe", 2, 0, 0, 1, 1, swe.gravity_, {}, "shallow water"));
    Cons(swe, [&](int n) { Vs s; const double h = LogU(0.5, 5), a = std::sqrt(swe.gravity_ * h), u = U(-2, 2) * a, v = U(-2, 2) * a, e = U(0.02, 0.4);
      for (int i = 0; i < n; ++i) { const double hh = h * std::exp(U(-e, e)); s.push_back({hh, hh * (u + e * a * U(-1, 1)), hh * (v + e * a * U(-1, 1))}); } return s; }, 5 * std::sqrt(swe.gravity_ * 5), false);
    tr().finish();
  }
}
int main(int argc, char** argv) {
  vh::Trace t; vh::install(t, argv[1], 600);
  vg::rng().seed(vh::seed());
  part0(); part1(); part2(); part3(); part4(); part5();
  std::fclose(t.out);
  std::printf("traces=%lld\n", t.count);
}
#elif PART == 1
void part1() { RunGas<1>(Reps(3)); }
#elif PART == 2
void part2() { RunGas<2>(Reps(3)); }
#elif PART == 3
void part3() { RunGas<3>(Reps(3)); }
#elif PART == 4
void part4() { RunMix<1>(Reps(3)); RunMix<2>(Reps(3)); }
#elif PART == 5
void part5() { RunMix<3>(Reps(3)); }
#endif
