// Conformance harness for the exact Riemann solvers and Godunov's method.
#include "vn.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/equations/Burgers.hpp"
#include "fub/equations/perfect_gas/ExactRiemannSolver.hpp"
#include "fub/flux_method/GodunovMethod.hpp"
#ifndef PART
#define PART 0
#endif
using namespace vn;
using vh::J;
struct Pair { V l, r; };
static void Ev(const char* a, const char* f, int d, bool on, const Pair& q, const V& m, const V& r, double xi = 0.0, double dx = 1.0) {
  tr().ev(J().t("a", a).t("f", f).i("d", d + 1).b("on", on).raw("q", Nums(q.l)).raw("q2", Nums(q.r)).raw("m", Nums(m)).raw("r", Nums(r)).raw("xi", Num(xi)).raw("dx", Num(dx)));
}
static Duration Dt() { return Duration(U(0.001, 0.1)); }
static double Sound(const PerfectGas<1>& e, const V& q) { return q.back(); }
static double Sound(const PerfectGas<2>& e, const V& q) { return q.back(); }
static double Sound(const PerfectGas<3>& e, const V& q) { return q.back(); }
static double Sound(const ShallowWater& e, const V& q) { return std::sqrt(e.gravity_ * q[0]); }
template <int N> static double Reach(const PerfectGas<N>& e) { return 2 / (e.gamma - 1); }
static double Reach(const ShallowWater&) { return 2; }

// A pair without vacuum: any, contact, collision, parting, supersonic, faint
template <class Eq, class Mk> Pair Draw(const Eq& eq, Mk one, int d) {
  for (;;) {
    V a = one(0.0, V()), b = one(0.0, V());
    switch (Rnd(0, 9)) {
    case 0: b = a; break;
    case 1: b = one(1e-9, a); break;              // nearly the same
    case 2: b = one(1e-4, a); break;
    case 3: b = a; b[1 + d] = -a[1 + d]; break;   // collision or parting (energy unchanged)
    default: break;
    }
    const double du = b[1 + d] / b[0] - a[1 + d] / a[0];
    if (du < 0.8 * Reach(eq) * (Sound(eq, a) + Sound(eq, b))) return {a, b};
  }
}
template <class M> V MiddleV(const M& m, int d) {
  if constexpr (std::is_same_v<M, std::array<double, 2>>) return {m[0], m[1]};
  else return {m.height, m.momentum[d] / m.height};
}
template <class Eq, class Mk> void Run(const Eq& eq, Mk one) {
  constexpr int R = Eq::Rank();
  constexpr bool gas = std::is_same_v<Eq, PerfectGas<R>>;
  ExactRiemannSolver<Eq> solver(eq);
  Godunov<Eq> god(eq);
  for (int rep = 0; rep < 3; ++rep) {
    const int d = Rnd(0, R - 1); const Direction dir = Direction(d);
    const double dx = LogU(1e-3, 10);
    const Pair q = Draw(eq, one, d);
    std::array<Complete<Eq>, 2> st{Complete<Eq>(eq), Complete<Eq>(eq)};
    Fill(st[0], q.l); Fill(st[1], q.r);
    const V m = MiddleV(solver.ComputeMiddleState(st[0], st[1], dir), d);
    Ev("middle", "scalar", d, true, q, {}, m);
    const auto s = solver.ComputeSignals(st[0], st[1], dir);
    Ev("signals", "scalar", d, true, q, m, V{s[0], s[1]});
    Complete<Eq> c(eq); Fill(c, q.l); // stale content
    solver.SolveRiemannProblem(c, st[0], st[1], dir);
    Ev("solution", "scalar", d, true, q, m, Flat(c));
    Conservative<Eq> f(eq); god.ComputeNumericFlux(f, st, Dt(), dx, dir);
    Ev("godunov", "scalar", d, true, {Flat(c), V()}, {}, Flat(f));
    Ev("dt", "scalar", d, true, q, m, {god.ComputeStableDt(st, dx, dir)}, 0, dx);
    if constexpr (gas) for (int k = 0; k < 6; ++k) { // elsewhere than at the face
      const Duration dt = Dt(); const double lo = s[0] - 0.5, hi = s[1] + 0.5;
      const double x = dt.count() * (k == 5 ? m[1] : U(lo, hi));
      Fill(c, q.r); solver.SolveRiemannProblem(c, st[0], st[1], m[0], m[1], dt, x, dir);
      Ev("solution", "along a ray", d, true, q, m, Flat(c), x / dt.count());
    }
    std::array<CompleteArray<Eq>, 2> sa{CompleteArray<Eq>(eq), CompleteArray<Eq>(eq)};
    std::vector<Pair> qs; std::vector<V> ms;
    for (int i = 0; i < W; ++i) {
      qs.push_back(Draw(eq, one, d)); FillLane(sa[0], i, qs[i].l); FillLane(sa[1], i, qs[i].r);
      Fill(st[0], qs[i].l); Fill(st[1], qs[i].r);
      ms.push_back(MiddleV(solver.ComputeMiddleState(st[0], st[1], dir), d));
    }
    CompleteArray<Eq> ca(eq); solver.SolveRiemannProblem(ca, sa[0], sa[1], dir);
    ConservativeArray<Eq> fa(eq); god.ComputeNumericFlux(fa, sa, Dt(), dx, dir);
    for (int i = 0; i < W; ++i) {
      Ev("solution", "array", d, true, qs[i], ms[i], Lane(ca, i));
      Ev("godunov", "array", d, true, {Lane(ca, i), V()}, {}, Lane(fa, i));
    }
    if constexpr (!gas) {
      const auto sg = solver.ComputeSignals(sa[0], sa[1], dir);
      const Array1d dts = god.ComputeStableDt(sa, dx, dir);
      for (int i = 0; i < W; ++i) {
        Ev("signals", "array", d, true, qs[i], ms[i], V{sg[0][i], sg[1][i]});
        Ev("dt", "array", d, true, qs[i], ms[i], {dts[i]}, 0, dx);
      }
    } else {
      const MaskArray k = RndMask(); const bool junk = Rnd(0, 1);
      Array1d frac;
      for (int i = 0; i < W; ++i) {
        frac[i] = k[i] ? (Rnd(0, 1) ? 1.0 : U(1e-6, 1)) : 0.0;
        if (!k[i] && junk) FillLane(sa[Rnd(0, 1)], i, V(q.l.size(), 0.0));
      }
      std::array<Array1d, 2> vols{frac, frac};
      CompleteArray<Eq> cm(eq); ConservativeArray<Eq> fm(eq);
      solver.SolveRiemannProblem(cm, sa[0], sa[1], k, dir);
      god.ComputeNumericFlux(fm, frac, sa, vols, Dt(), dx, dir);
      const Array1d dts = god.ComputeStableDt(sa, frac, vols, dx, dir);
      for (int i = 0; i < W; ++i) {
        Ev("solution", "masked", d, k[i], qs[i], ms[i], Lane(cm, i));
        Ev("godunov", "masked", d, k[i], {Lane(cm, i), V()}, {}, Lane(fm, i));
        Ev("dt", "masked", d, k[i], qs[i], ms[i], {dts[i]}, 0, dx);
      }
    }
  }
}
template <class Eq> void Scalar(const Eq& eq) {
  constexpr int R = Eq::Rank();
  ExactRiemannSolver<Eq> solver(eq); Godunov<Eq> god(eq);
  auto one = [&] { return V{Rnd(0, 3) ? U(-5, 5) : double(Rnd(-2, 2))}; };
  for (int rep = 0; rep < 8; ++rep) {
    const int d = Rnd(0, R - 1); const Direction dir = Direction(d);
    const double dx = LogU(1e-3, 10);
    auto pair = [&] { Pair q{one(), one()}; if (Rnd(0, 5) == 0) q.r = q.l; if (Rnd(0, 5) == 0) q.r[0] = -q.l[0]; return q; };
    const Pair q = pair();
    std::array<Complete<Eq>, 2> st{Complete<Eq>(eq), Complete<Eq>(eq)};
    Fill(st[0], q.l); Fill(st[1], q.r);
    Ev("signals", "scalar", d, true, q, {}, V{solver.ComputeSignals(st[0], st[1], dir)[0]});
    Complete<Eq> c(eq); solver.SolveRiemannProblem(c, st[0], st[1], dir);
    Ev("solution", "scalar", d, true, q, {}, Flat(c));
    Conservative<Eq> f(eq); god.ComputeNumericFlux(f, st, Dt(), dx, dir);
    Ev("godunov", "scalar", d, true, {Flat(c), V()}, {}, Flat(f));
    Ev("dt", "scalar", d, true, q, {}, {god.ComputeStableDt(st, dx, dir)}, 0, dx);
    std::array<CompleteArray<Eq>, 2> sa{CompleteArray<Eq>(eq), CompleteArray<Eq>(eq)};
    std::vector<Pair> qs;
    for (int i = 0; i < W; ++i) { qs.push_back(pair()); FillLane(sa[0], i, qs[i].l); FillLane(sa[1], i, qs[i].r); }
    CompleteArray<Eq> ca(eq); solver.SolveRiemannProblem(ca, sa[0], sa[1], dir);
    ConservativeArray<Eq> fa(eq); god.ComputeNumericFlux(fa, sa, Dt(), dx, dir);
    const auto sg = solver.ComputeSignals(sa[0], sa[1], dir);
    const Array1d dts = god.ComputeStableDt(sa, dx, dir);
    for (int i = 0; i < W; ++i) {
      Ev("signals", "array", d, true, qs[i], {}, V{sg[0][i]});
      Ev("solution", "array", d, true, qs[i], {}, Lane(ca, i));
      Ev("godunov", "array", d, true, {Lane(ca, i), V()}, {}, Lane(fa, i));
      Ev("dt", "array", d, true, qs[i], {}, {dts[i]}, 0, dx);
    }
  }
}
static std::string LawStr(const char* law, int n, double gamma, double g, const V& vel, const std::string& what) {
  return J().t("law", law).i("n", n).i("ns", 0).i("np", 0).raw("gamma", Num(gamma)).raw("rspec", Num(1)).raw("msq", Num(1)).raw("g", Num(g)).raw("vel", Nums(vel)).t("what", what).str();
}
static int Reps(int n) { return n * (vh::thorough() ? 12 : 1); }
template <int N> void RunGas(int reps) {
  for (int r = 0; r < reps; ++r) {
    PerfectGas<N> eq;
    if (Rnd(0, 2)) {
      eq.gamma = Rnd(0, 1) ? U(1.1, 1.7) : 5.0 / 3.0;
      eq.gamma_minus_1_inv = 1.0 / (eq.gamma - 1.0);
      eq.gamma_array_ = Array1d::Constant(eq.gamma); eq.gamma_minus_1_inv_array_ = Array1d::Constant(eq.gamma_minus_1_inv);
    }
    GasGen gen{eq.gamma}; gen.n = N;
    tr().start(LawStr("gas", N, eq.gamma, 0, {}, "PerfectGas"));
    try {
      Run(eq, [&](double eps, const V& q) {
        V w = gen.prim();
        if (eps > 0) { w[0] = q[0]; for (int d = 0; d < N; ++d) w[1 + d] = q[1 + d] / q[0]; w[N + 1] = q[N + 2]; for (auto& x : w) x *= 1 + eps * U(-1, 1); }
        return gen.complete(w); });
    } catch (const std::exception& e) { tr().ev(J().t("a", "exception").t("what", e.what())); }
    tr().finish();
  }
}
void part0(); void part1(); void part2(); void part3();
#if PART == 0
void part0() {
  for (int r = 0; r < Reps(20); ++r) {
    ShallowWater swe; if (Rnd(0, 1)) swe.gravity_ = U(0.5, 20);
    tr().start(LawStr("swe", 2, 1, swe.gravity_, {}, "ShallowWater"));
    try {
      Run(swe, [&](double eps, const V& q) {
        if (eps > 0) { V w = q; for (auto& x : w) x *= 1 + eps * U(-1, 1); return w; }
        const double h = LogU(0.05, 20), a = std::sqrt(swe.gravity_ * h); return V{h, h * a * U(-3, 3), h * a * U(-3, 3)}; });
    } catch (const std::exception& e) { tr().ev(J().t("a", "exception").t("what", e.what())); }
    tr().finish();
    std::array<double, 2> v{U(-2, 2), Rnd(0, 2) ? U(-2, 2) : 0.0};
    tr().start(LawStr("adv", 2, 1, 0, {v[0], v[1]}, "Advection2d")); Scalar(Advection2d{v}); tr().finish();
    tr().start(LawStr("bur", 1, 1, 0, {}, "Burgers1d")); Scalar(Burgers1d{}); tr().finish();
  }
}
int main(int argc, char** argv) {
  vh::Trace t; vh::install(t, argv[1], 600);
  vg::rng().seed(vh::seed());
  part0(); part1(); part2(); part3();
  std::fclose(t.out);
  std::printf("traces=%lld\n", t.count);
}
#elif PART == 1
void part1() { RunGas<1>(Reps(24)); }
#elif PART == 2
void part2() { RunGas<2>(Reps(24)); }
#elif PART == 3
void part3() { RunGas<3>(Reps(24)); }
#endif
