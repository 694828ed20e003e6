// The equation of mixtures of ideal gases with real chemistry data: changes of
// variables, fluxes, wave speeds, HLLE and the two MUSCL methods.
#include "fub/core/type_traits.hpp"
#include "vn.hpp"
#include "fub/equations/IdealGasMix.hpp"
#include "fub/equations/ideal_gas_mix/HlleMethod.hpp"
#include "fub/equations/ideal_gas_mix/MusclHancockPrimMethod.hpp"
#include "fub/equations/ideal_gas_mix/MusclHancockCharactersticMethod.hpp"
#include "fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"
#include <malloc.h>
using namespace vn;
using vh::J;
namespace {
constexpr int NS = 11;
const Direction dirs[] = {Direction::X, Direction::Y, Direction::Z};
using Vs = std::vector<V>;
std::string Qs(const Vs& q) { std::vector<std::string> s; for (const V& v : q) s.push_back(Nums(v)); return vh::List(s); }
V Fractions() {
  V y(NS, 0.0);
  const int k = Rnd(0, 5);
  if (k == 0) y[Rnd(0, 1) ? 0 : 7] = 1.0;
  else if (k == 1) { y[0] = 0.7; y[3] = 0.25; y[6] = 0.05; }
  else for (double& x : y) x = Rnd(0, 2) ? U(0, 1) : 0.0;
  double n = 0;
  for (double x : y) n += x;
  if (n == 0) { y[0] = 1; n = 1; }
  for (double& x : y) x /= n;
  return y;
}
double Temp() {
  const int k = Rnd(0, 7);
  if (k == 0) return 300.0;
  const double T = k == 1 ? U(260, 310) : U(280, 3000);
  return std::abs(T - 1000) < 1 ? 950.0 : T;
}
struct Prim { double rho, T; V u, Y; };
// a complete state by a reactor of its own
template <int N> V Complete_(FlameMasterReactor& r, const Prim& w) {
  r.SetDensity(w.rho); r.SetMassFractions(w.Y); r.SetTemperature(w.T);
  V q{w.rho};
  double k = 0;
  for (int i = 0; i < N; ++i) { q.push_back(w.rho * w.u[i]); k += 0.5 * w.u[i] * w.u[i]; }
  q.push_back(w.rho * (r.GetInternalEnergy() + k));
  for (double y : w.Y) q.push_back(w.rho * y);
  q.push_back(r.GetPressure());
  const double g = r.GetCp() / r.GetCv();
  q.push_back(std::sqrt(g * r.GetPressure() / w.rho));
  q.push_back(r.GetCp()); q.push_back(g); q.push_back(w.T);
  return q;
}
template <int N> Prim RndPrim(double mach = 2) {
  Prim w{LogU(0.02, 20), Temp(), {}, Fractions()};
  for (int i = 0; i < N; ++i) w.u.push_back(Rnd(0, 7) ? U(-mach, mach) * 500.0 : 0.0);
  return w;
}
template <int N> struct Run {
  using Eq = IdealGasMix<N>;
  using C = typename Eq::Complete; using K = typename Eq::Conservative;
  using CA = typename Eq::CompleteArray; using KA = typename Eq::ConservativeArray;
  static constexpr int NC = N + 2 + NS;
  Burke2012 mech;
  FlameMasterReactor own{mech};
  Eq eq{FlameMasterReactor(mech)};
  V state() { return Complete_<N>(own, RndPrim<N>()); }
  // what is in covered cells: nothing
  V covered() { return V(NC + 5, 0.0); }
  V consOf(const V& q) { V c(q.begin(), q.begin() + NC); if (Rnd(0, 3) == 0) for (int s = 0; s < NS; ++s) c[N + 2 + s] *= 1 + 1e-9 * U(-1, 1); return c; }
  void ev(const char* a, const char* kind, const Vs& q, const std::vector<bool>& on, const Vs& o, J j = J()) {
    tr().ev(j.t("a", a).t("kind", kind).raw("q", Qs(q)).raw("on", bools(on)).raw("o", Qs(o)));
  }
  static std::string bools(const std::vector<bool>& on) { std::vector<std::string> s; for (bool b : on) s.push_back(b ? "true" : "false"); return vh::List(s); }
  static std::vector<bool> all() { return std::vector<bool>(W, true); }
  static std::vector<bool> of(const MaskArray& m) { std::vector<bool> v; for (int i = 0; i < W; ++i) v.push_back(m[i]); return v; }
  template <class S> static Vs lanes(const S& s) { Vs v; for (int i = 0; i < W; ++i) v.push_back(Lane(s, i)); return v; }
  static J dirTxt(int d) { J j; j.i("d", d + 1); return j; }
  // the equation keeps something from before
  void dirty() {
    const V y = Fractions();
    eq.GetReactor().SetMassFractions(span<const double>(y)); eq.GetReactor().SetDensity(LogU(0.1, 10)); eq.GetReactor().SetTemperature(Temp());
  }
  void Cons() {
    dirty();
    { const V c = consOf(state()); K k(eq); C q(eq); Fill(k, c);
      if (Rnd(0, 1)) eq.CompleteFromCons(q, k);
      else { Fill(AsCons(q), c); CompleteFromCons(eq, q, q); }
      ev("cons", "scalar", {c}, {true}, {Flat(q)}); }
    { KA k(eq); CA q(eq); Vs c; for (int i = 0; i < W; ++i) { c.push_back(consOf(state())); FillLane(k, i, c[i]); }
      eq.CompleteFromCons(q, k); ev("cons", "array", c, all(), lanes(q)); }
    { KA k(eq); CA q(eq); Vs c; const MaskArray m = RndMask();
      for (int i = 0; i < W; ++i) { V x = consOf(state()); if (!m[i] && Rnd(0, 1)) x.assign(NC, 0.0); c.push_back(x); FillLane(k, i, x); FillLane(q, i, V(NC + 5, 7.0)); }
      eq.CompleteFromCons(q, k, m); ev("cons", "masked", c, of(m), lanes(q)); }
  }
  static std::string Mix(const FlameMasterReactor& r, const V& u) {
    return J().raw("rho", Num(r.GetDensity())).raw("T", Num(r.GetTemperature())).raw("Y", Nums(r.GetMassFractions())).raw("u", Nums(u)).str();
  }
  void Reactor() {
    { dirty(); V u; Eigen::Array<double, N, 1> v; for (int i = 0; i < N; ++i) { u.push_back(U(-900, 900)); v[i] = u[i]; }
      C q(eq); const bool rest = Rnd(0, 3) == 0; if (rest) u.assign(N, 0.0);
      if (rest) eq.CompleteFromReactor(q); else eq.CompleteFromReactor(q, v);
      ev("reactor", "scalar", {}, {true}, {Flat(q)}, J().raw("m", vh::List(std::vector<std::string>{Mix(eq.GetReactor(), u)}))); }
    { std::vector<Prim> w; Array1d rho, T; ArrayXd Y(NS, W); Array<double, N> v; std::vector<std::string> m;
      const MaskArray mk = RndMask(); const bool masked = Rnd(0, 1);
      for (int i = 0; i < W; ++i) { w.push_back(RndPrim<N>()); rho[i] = w[i].rho; T[i] = w[i].T; for (int s = 0; s < NS; ++s) Y(s, i) = w[i].Y[s]; for (int d = 0; d < N; ++d) v(d, i) = w[i].u[d];
        m.push_back(J().raw("rho", Num(w[i].rho)).raw("T", Num(w[i].T)).raw("Y", Nums(w[i].Y)).raw("u", Nums(w[i].u)).str()); }
      FlameMasterReactor& r = eq.GetReactor(); r.SetDensityArray(rho); r.SetMassFractionsArray(Y); r.SetTemperatureArray(T);
      CA q(eq); if (masked) eq.CompleteFromReactor(q, v, mk); else eq.CompleteFromReactor(q, v);
      ev("reactor", masked ? "masked" : "array", {}, masked ? of(mk) : all(), lanes(q), J().raw("m", vh::List(m))); }
    { const V s = state(); C q(eq); Fill(q, s); dirty(); eq.SetReactorStateFromComplete(q); const FlameMasterReactor& r = eq.GetReactor();
      tr().ev(J().t("a", "load").raw("q", Nums(s)).raw("rho", Num(r.GetDensity())).raw("T", Num(r.GetTemperature())).raw("Y", Nums(r.GetMassFractions()))); }
  }
  template <class S> Vs fill(S& s, const MaskArray& m) {
    Vs q; for (int i = 0; i < W; ++i) { q.push_back(m[i] ? state() : Rnd(0, 1) ? covered() : state()); FillLane(s, i, q[i]); } return q;
  }
  void Fluxes() {
    const int d = Rnd(0, N - 1); const Direction dir = dirs[d]; const MaskArray full = MaskArray::Constant(true), m = RndMask();
    { const V s = state(); C q(eq); Fill(q, s); K f(eq); eq.Flux(f, q, dir); ev("flux", "scalar", {s}, {true}, {Flat(f)}, dirTxt(d));
      const auto v = Eq::Velocity(q); ev("velocity", "scalar", {s}, {true}, {V(v.data(), v.data() + N)}); }
    { CA q(eq); const Vs s = fill(q, full); KA f(eq); eq.Flux(f, q, dir); ev("flux", "array", s, all(), lanes(f), dirTxt(d));
      const auto v = Eq::Velocity(q); Vs o; for (int i = 0; i < W; ++i) { o.emplace_back(); for (int j = 0; j < N; ++j) o[i].push_back(v(j, i)); } ev("velocity", "array", s, all(), o); }
    { CA q(eq); const Vs s = fill(q, m); KA f(eq); eq.Flux(f, q, m, dir); ev("flux", "masked", s, of(m), lanes(f), dirTxt(d));
      const auto v = Eq::Velocity(q, m); Vs o; for (int i = 0; i < W; ++i) { o.emplace_back(); for (int j = 0; j < N; ++j) o[i].push_back(v(j, i)); } ev("velocity", "masked", s, of(m), o); }
  }
  // states next to each other
  Vs row(int n) {
    Vs s; Prim w = RndPrim<N>(1.5); const bool far = Rnd(0, 2) == 0, mix = Rnd(0, 1);
    const int shape = Rnd(0, 3);
    Prim step = w;
    V Y2 = Fractions();
    for (int k = 0; k < n; ++k) {
      Prim x = w;
      const double t = shape == 0 ? k : shape == 1 ? (k > 1) : U(-1, 1);
      if (shape == 3) { s.push_back(Complete_<N>(own, x)); continue; }
      x.rho *= std::exp(t * (far ? 0.2 : 0.05)); x.T = std::min(2900.0, std::max(265.0, x.T * std::exp(t * (far ? -0.15 : 0.03))));
      for (double& u : x.u) u += t * (far ? 60 : 8);
      if (mix) { const double a = shape == 2 ? U(0, 1) : std::min(1.0, 0.25 * std::abs(t)); for (int i = 0; i < NS; ++i) x.Y[i] = (1 - a) * w.Y[i] + a * Y2[i]; }
      s.push_back(Complete_<N>(own, x));
    }
    return s;
  }
  template <class M> static J P(const M& p) { return J().raw("p", Nums(p)); }
  static std::string Pairs(const std::vector<Vs>& q) { std::vector<std::string> s; for (const Vs& v : q) s.push_back(Qs(v)); return vh::List(s); }
  void pair(const char* a, const char* kind, const std::vector<Vs>& q, const std::vector<bool>& on, const std::string& o, int d, J j = J()) {
    tr().ev(j.t("a", a).t("kind", kind).raw("q", Pairs(q)).raw("on", bools(on)).raw("o", o).i("d", d + 1));
  }
  template <class A> static V num(const A& a) { V v; for (int i = 0; i < W; ++i) v.push_back(a[i]); return v; }
  void Hlle() {
    using E = EinfeldtSignalVelocities<Eq>; using H = Hll<Eq, E>;
    H h(eq); E e; const int d = Rnd(0, N - 1); const Direction dir = dirs[d];
    const double dx = LogU(1e-3, 1); const J dxt = J().raw("dx", Num(dx));
    auto two = [&]() -> Vs { Vs r = row(2); if (Rnd(0, 1)) r[1] = state(); return r; };
    { std::vector<C> s{C(eq), C(eq)}; const Vs q = two(); Fill(s[0], q[0]); Fill(s[1], q[1]); K f(eq);
      const auto v = e(eq, s[0], s[1], dir); pair("speeds", "scalar", {q}, {true}, Qs({V{v[0], v[1]}}), d);
      const span<const C, 2> sp(s.data(), 2);
      const double p = h.ComputeNumericFlux(f, sp, Duration(1e-6), dx, dir); pair("hll", "scalar", {q}, {true}, Qs({Flat(f)}), d, P(V{p}));
      pair("dt", "scalar", {q}, {true}, Nums(V{h.ComputeStableDt(sp, dx, dir)}), d, dxt); }
    const MaskArray m = RndMask();
    for (const bool masked : {false, true}) {
      std::vector<CA> s{CA(eq), CA(eq)}; std::vector<Vs> q;
      for (int i = 0; i < W; ++i) { Vs t = two(); if (masked && !m[i]) { const int k = Rnd(0, 3); if (k & 1) t[0] = covered(); if (k & 2) t[1] = covered(); } q.push_back(t); FillLane(s[0], i, t[0]); FillLane(s[1], i, t[1]); }
      KA f(eq); ForEachComponent([](auto&& x) { x = Array1d::Constant(7.0); }, f); const span<const CA, 2> sp(s.data(), 2);
      if (!masked) {
        const auto v = e(eq, s[0], s[1], dir); Vs o; for (int i = 0; i < W; ++i) o.push_back({v[0][i], v[1][i]}); pair("speeds", "array", q, all(), Qs(o), d);
        const Array1d p = h.ComputeNumericFlux(f, sp, Duration(1e-6), dx, dir); pair("hll", "array", q, all(), Qs(lanes(f)), d, P(num(p)));
        pair("dt", "array", q, all(), Nums(num(h.ComputeStableDt(sp, dx, dir))), d, dxt);
      } else {
        Array1d frac = Array1d::Zero(), one = Array1d::Constant(1.0); for (int i = 0; i < W; ++i) if (m[i]) frac[i] = U(1e-3, 1);
        const std::array<Array1d, 2> vol{one, one};
        const auto v = e(eq, s[0], s[1], m, dir); Vs o; for (int i = 0; i < W; ++i) o.push_back({v[0][i], v[1][i]}); pair("speeds", "masked", q, of(m), Qs(o), d);
        const Array1d p = h.ComputeNumericFlux(f, frac, sp, span<const Array1d, 2>(vol), Duration(1e-6), dx, dir); pair("hll", "masked", q, of(m), Qs(lanes(f)), d, P(num(p)));
        pair("dt", "masked", q, of(m), Nums(num(h.ComputeStableDt(sp, frac, span<const Array1d, 2>(vol), dx, dir))), d, dxt);
      }
    }
  }
  double lambda(const Vs& q) { double s = 0; for (const V& v : q) { double u = 0; for (int i = 0; i < N; ++i) u = std::max(u, std::abs(v[1 + i] / v[0])); s = std::max(s, u + v[NC + 1]); } return s; }
  template <class M> void Muscl(M& m, const char* method, const char* scalar, const char* array) {
    const int d = Rnd(0, N - 1); const Direction dir = dirs[d]; const double dx = LogU(1e-3, 1), cfl = Rnd(0, 5) ? U(0.05, 0.35) : 0.0;
    auto out = [&](const char* how, const char* kind, const std::vector<Vs>& q, const std::vector<bool>& on, const Vs& o, double dt, const std::vector<std::string>& has) {
      pair("muscl", kind, q, on, Qs(o), d, J().raw("has", vh::List(has)).t("how", how).t("method", method).raw("lambda", Num(dt / dx))); };
    { std::vector<C> s(4, C(eq)); const Vs q = row(4); for (int k = 0; k < 4; ++k) Fill(s[k], q[k]); const double dt = cfl * dx / lambda(q); K f(eq);
      const span<const C, 4> sp(s.data(), 4);
      m.ComputeNumericFlux(f, sp, Duration(dt), dx, dir); out(scalar, "scalar", {q}, {true}, {Flat(f)}, dt, {"[true,true]"});
      pair("dt", "scalar", {{q[1], q[2]}}, {true}, Nums(V{m.ComputeStableDt(sp, dx, dir)}), d, J().raw("dx", Num(dx))); }
    for (const bool masked : {false, true}) {
      const MaskArray mk = RndMask(); std::vector<CA> s(4, CA(eq)); std::vector<Vs> q, inner; double fast = 0; std::vector<std::string> has; std::array<Array1d, 4> vol; Array1d frac = Array1d::Zero();
      for (auto& v : vol) v = Array1d::Constant(1.0);
      for (int i = 0; i < W; ++i) {
        Vs t = row(4); fast = std::max(fast, lambda(t)); bool l = true, r = true;
        if (masked) {
          l = Rnd(0, 2); r = Rnd(0, 2); if (!l) { t[0] = covered(); vol[0][i] = 0; } if (!r) { t[3] = covered(); vol[3][i] = 0; }
          if (!mk[i]) { const int k = Rnd(0, 3); if (k & 1) { t[1] = covered(); vol[1][i] = 0; } if (k & 2) { t[2] = covered(); vol[2][i] = 0; } }
          else { frac[i] = U(1e-3, 1); vol[1][i] = U(0.1, 1); }
        }
        has.push_back(std::string("[") + (l ? "true," : "false,") + (r ? "true]" : "false]"));
        q.push_back(t); inner.push_back({t[1], t[2]}); for (int k = 0; k < 4; ++k) FillLane(s[k], i, t[k]);
      }
      const double dt = cfl * dx / fast; KA f(eq); ForEachComponent([](auto&& x) { x = Array1d::Constant(7.0); }, f);
      const span<const CA, 4> sp(s.data(), 4); const span<const Array1d, 4> vs(vol);
      if (!masked) { m.ComputeNumericFlux(f, sp, Duration(dt), dx, dir); out(array, "array", q, all(), lanes(f), dt, has); pair("dt", "array", inner, all(), Nums(num(m.ComputeStableDt(sp, dx, dir))), d, J().raw("dx", Num(dx))); }
      else if (mk.any()) { m.ComputeNumericFlux(f, frac, sp, vs, Duration(dt), dx, dir); out(array, "masked", q, of(mk), lanes(f), dt, has); pair("dt", "masked", inner, of(mk), Nums(num(m.ComputeStableDt(sp, frac, vs, dx, dir))), d, J().raw("dx", Num(dx))); }
    }
  }
  void Turn() {
    if constexpr (N > 1) {
      Eigen::Matrix<double, N, N> R = Eigen::Matrix<double, N, N>::Identity();
      const double a = Rnd(0, 3) ? U(-4, 4) : M_PI / 2;
      const int i = Rnd(0, N - 2); R(i, i) = R(i + 1, i + 1) = std::cos(a); R(i, i + 1) = -std::sin(a); R(i + 1, i) = std::sin(a);
      std::vector<std::string> rows; for (int r = 0; r < N; ++r) { V x; for (int c = 0; c < N; ++c) x.push_back(R(r, c)); rows.push_back(Nums(x)); }
      const V s = state(); C q(eq), o(eq); Fill(q, s); fub::Rotate(o, q, R, eq);
      tr().ev(J().t("a", "rotate").raw("q", Nums(s)).raw("R", vh::List(rows)).raw("o", Nums(Flat(o))));
      K k(eq), ok(eq); const V c(s.begin(), s.begin() + NC); Fill(k, c); fub::Rotate(ok, k, R, eq);
      tr().ev(J().t("a", "rotate").raw("q", Nums(c)).raw("R", vh::List(rows)).raw("o", Nums(Flat(ok))));
    }
    Eigen::Matrix<double, N, 1> nu; for (int i = 0; i < N; ++i) nu[i] = U(-1, 1); if (Rnd(0, 1)) { nu.setZero(); nu[Rnd(0, N - 1)] = Rnd(0, 1) ? 1 : -1; } nu.normalize();
    const V s = state(); C q(eq), o(eq); Fill(q, s); fub::Reflect(o, q, nu, eq);
    tr().ev(J().t("a", "reflect").raw("q", Nums(s)).raw("nu", Nums(V(nu.data(), nu.data() + N))).raw("o", Nums(Flat(o))));
  }
  void NamesOf() {
    auto txt = [](const std::vector<std::string>& v) { std::vector<std::string> s; for (auto& x : v) s.push_back("\"" + x + "\""); return vh::List(s); };
    tr().ev(J().t("a", "names").raw("cons", txt(VarNames<K, std::vector<std::string>>(eq))).raw("complete", txt(VarNames<C, std::vector<std::string>>(eq))));
  }
  void go(int reps) {
    const std::string cfg = J().i("n", N).str();
    ideal_gas::MusclHancockPrimitive<N> prim(eq);
    ideal_gas::MusclHancockCharacteristic<N> ch(eq);
    tr().start(cfg); NamesOf(); tr().finish();
    for (int k = 0; k < reps; ++k) {
      tr().start(cfg); Cons(); tr().finish();
      tr().start(cfg); Reactor(); Fluxes(); Turn(); tr().finish();
      tr().start(cfg); Hlle(); tr().finish();
      tr().start(cfg); Muscl(prim, "primitive", "prim", "prim-array"); tr().finish();
      tr().start(cfg); Muscl(ch, "characteristic", "char", "char"); tr().finish();
    }
  }
};
} // namespace
int main(int, char** argv) {
  mallopt(M_PERTURB, 0x5b);
  vh::Trace t;
  vh::install(t, argv[1], 600);
  vg::rng().seed(vh::seed() * 7919 + 27);
  const int reps = vh::thorough() ? 120 : 20;
  Run<1>().go(reps);
  Run<2>().go(reps);
  Run<3>().go(reps);
  return 0;
}
