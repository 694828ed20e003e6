// Conformance harness for the approximate Riemann solvers: HLL and HLLEM for
// single states, chunks of states and masked chunks.
#include "vn.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/equations/perfect_gas/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas_mix/EinfeldtSignalVelocities.hpp"
#include "fub/equations/perfect_gas/HllemMethod.hpp"
#include "fub/equations/perfect_gas_mix/HllemMethod.hpp"
#include "fub/flux_method/HllMethod.hpp"
#ifndef PART
#define PART 0
#endif
using namespace vn;
using vh::J;

struct Pair { V l, r; };
static V Masked(V v, bool on) { return on ? v : V(); }
static void Ev(const char* a, const char* f, int d, bool on, const Pair& q, const V& s, const V& r, const V& p, bool lar = false, double dx = 1.0) {
  tr().ev(J().t("a", a).t("f", f).i("d", d + 1).b("on", on).b("lar", lar).raw("q", Nums(q.l)).raw("q2", Nums(q.r))
          .raw("s", Nums(s)).raw("r", Nums(r)).raw("p", Nums(p)).raw("dx", Num(dx)));
}
static Duration Dt() { return Duration(U(0.001, 0.1)); }

// pairs of states with the relations that matter: equal, contacts, shear
// layers, collisions, supersonic flow to both sides
static Pair GasPair(const GasGen& g, double msq, int d) {
  V a = g.prim(), b = g.prim();
  const int n = g.n;
  switch (Rnd(0, 9)) {
  case 0: b = a; break;
  case 1: b[n + 1] = a[n + 1]; b[1 + d] = a[1 + d]; break;
  case 2: b[n + 1] = a[n + 1]; b[1 + d] = a[1 + d] = 0.0; break;
  case 3: { b = a; b[1 + d] = -a[1 + d]; break; }
  case 4: { const double s = 6 * std::sqrt(g.gamma * std::max(a[n + 1] / a[0], b[n + 1] / b[0])) * (Rnd(0, 1) ? 1 : -1); a[1 + d] += s; b[1 + d] += s; break; }
  default: break;
  }
  for (V* w : {&a, &b}) for (int i = 0; i < n; ++i) (*w)[1 + i] /= std::sqrt(msq);
  return {g.complete(a, msq), g.complete(b, msq)};
}

template <class Eq, class Mk> void RunHll(const Eq& eq, Mk pair, bool masked) {
  constexpr int R = Eq::Rank();
  using Sig = std::conditional_t<std::is_same_v<Eq, ShallowWater>, int, EinfeldtSignalVelocities<Eq>>;
  auto go = [&](auto sig) {
    using S = decltype(sig);
    Hll<Eq, S> hll(eq, sig);
    for (int rep = 0; rep < 3; ++rep) {
      const int d = Rnd(0, R - 1); const Direction dir = Direction(d);
      const double dx = LogU(1e-3, 10);
      const Pair q = pair(d);
      std::array<Complete<Eq>, 2> st{Complete<Eq>(eq), Complete<Eq>(eq)};
      Fill(st[0], q.l); Fill(st[1], q.r);
      const auto s = sig(eq, st[0], st[1], dir); const V sv{s[0], s[1]};
      Ev("signals", "scalar", d, true, q, {}, sv, {});
      Conservative<Eq> f(eq); V p;
      if constexpr (std::is_same_v<Eq, ShallowWater>) hll.ComputeNumericFlux(f, st, Dt(), dx, dir);
      else p = {hll.ComputeNumericFlux(f, st, Dt(), dx, dir)};
      Ev("hll", "scalar", d, true, q, sv, Flat(f), p);
      Complete<Eq> c(eq); hll.SolveRiemannProblem(c, st[0], st[1], dir);
      Ev("hll state", "scalar", d, true, q, sv, Flat(c), {});
      Ev("dt", "scalar", d, true, q, sv, {hll.ComputeStableDt(st, dx, dir)}, {}, false, dx);

      std::array<CompleteArray<Eq>, 2> sa{CompleteArray<Eq>(eq), CompleteArray<Eq>(eq)};
      std::vector<Pair> qs;
      for (int i = 0; i < W; ++i) { qs.push_back(pair(d)); FillLane(sa[0], i, qs[i].l); FillLane(sa[1], i, qs[i].r); }
      const auto sg = sig(eq, sa[0], sa[1], dir);
      ConservativeArray<Eq> fa(eq); Array1d pa = Array1d::Zero(); CompleteArray<Eq> ca(eq);
      if constexpr (std::is_same_v<Eq, ShallowWater>) hll.ComputeNumericFlux(fa, sa, Dt(), dx, dir);
      else pa = hll.ComputeNumericFlux(fa, sa, Dt(), dx, dir);
      hll.SolveRiemannProblem(ca, sa[0], sa[1], dir);
      const Array1d dts = hll.ComputeStableDt(sa, dx, dir);
      for (int i = 0; i < W; ++i) {
        const V si{sg[0][i], sg[1][i]};
        Ev("signals", "array", d, true, qs[i], {}, si, {});
        Ev("hll", "array", d, true, qs[i], si, Lane(fa, i), p.empty() ? V() : V{pa[i]});
        Ev("hll state", "array", d, true, qs[i], si, Lane(ca, i), {});
        Ev("dt", "array", d, true, qs[i], si, {dts[i]}, {}, false, dx);
      }
      if constexpr (!std::is_same_v<Eq, ShallowWater>) if (masked) {
        const MaskArray m = RndMask(); const int junk = Rnd(0, 2);
        Array1d frac, vol;
        for (int i = 0; i < W; ++i) {
          frac[i] = m[i] ? (Rnd(0, 1) ? 1.0 : U(1e-6, 1)) : 0.0; vol[i] = frac[i];
          if (!m[i] && junk) { FillLane(sa[Rnd(0, 1)], i, V(q.l.size(), 0.0)); if (junk == 2) FillLane(sa[0], i, V(q.l.size(), 0.0)); }
        }
        std::array<Array1d, 2> vols{vol, vol};
        const auto sm = sig(eq, sa[0], sa[1], m, dir);
        ConservativeArray<Eq> fm(eq);
        const Array1d pm = hll.ComputeNumericFlux(fm, frac, sa, vols, Dt(), dx, dir);
        const Array1d dm = hll.ComputeStableDt(sa, frac, vols, dx, dir);
        for (int i = 0; i < W; ++i) {
          const V si{sm[0][i], sm[1][i]}; const bool on = m[i];
          Ev("signals", "masked", d, on, qs[i], {}, si, {});
          Ev("hll", "masked", d, on, qs[i], si, Lane(fm, i), {pm[i]});
          Ev("dt", "masked", d, on, qs[i], si, {dm[i]}, {}, false, dx);
        }
      }
    }
  };
  if constexpr (std::is_same_v<Eq, ShallowWater>) go(ShallowWaterSignalVelocities()); else go(Sig());
}

template <bool Lar, class Eq, class Mk, class Mk2> void RunHllem(const Eq& eq, Mk pair, Mk2 mild) {
  constexpr int R = Eq::Rank();
  perfect_gas::Hllem<Eq, Lar> h(eq);
  for (int rep = 0; rep < 3; ++rep) {
    const int d = Rnd(0, R - 1); const Direction dir = Direction(d);
    const double dx = LogU(1e-3, 10);
    const Pair q = pair(d);
    std::array<Complete<Eq>, 2> st{Complete<Eq>(eq), Complete<Eq>(eq)};
    Fill(st[0], q.l); Fill(st[1], q.r);
    Conservative<Eq> f(eq); const double p = h.ComputeNumericFlux(f, st, Dt(), dx, dir);
    Ev("hllem", "scalar", d, true, q, {}, Flat(f), {p}, Lar);
    { // states that are near enough to have a physical intermediate state
      const Pair n = mild(d); Fill(st[0], n.l); Fill(st[1], n.r);
      Complete<Eq> c(eq); h.SolveRiemannProblem(c, st[0], st[1], dir);
      Ev("hllem state", "scalar", d, true, n, {}, Flat(c), {}, Lar);
      Fill(st[0], q.l); Fill(st[1], q.r);
    }
    Ev("hllem dt", "scalar", d, true, q, {}, {h.ComputeStableDt(st, dx, dir)}, {}, Lar, dx);
    std::array<CompleteArray<Eq>, 2> sa{CompleteArray<Eq>(eq), CompleteArray<Eq>(eq)};
    std::vector<Pair> qs;
    for (int i = 0; i < W; ++i) { qs.push_back(pair(d)); FillLane(sa[0], i, qs[i].l); FillLane(sa[1], i, qs[i].r); }
    ConservativeArray<Eq> fa(eq); const Array1d pa = h.ComputeNumericFlux(fa, sa, Dt(), dx, dir);
    const Array1d dts = h.ComputeStableDt(sa, dx, dir);
    for (int i = 0; i < W; ++i) {
      Ev("hllem", "array", d, true, qs[i], {}, Lane(fa, i), {pa[i]}, Lar);
      if (i < 3) Ev("hllem dt", "array", d, true, qs[i], {}, {dts[i]}, {}, Lar, dx);
    }
    const MaskArray m = RndMask(); const bool junk = R > 1 && Rnd(0, 1); // no cut cells in one dimension
    Array1d frac;
    for (int i = 0; i < W; ++i) {
      frac[i] = m[i] ? (Rnd(0, 1) ? 1.0 : U(1e-6, 1)) : 0.0;
      if (!m[i] && junk) FillLane(sa[Rnd(0, 1)], i, V(q.l.size(), 0.0));
    }
    std::array<Array1d, 2> vols{frac, frac};
    ConservativeArray<Eq> fm(eq); h.ComputeNumericFlux(fm, frac, sa, vols, Dt(), dx, dir);
    const Array1d dm = h.ComputeStableDt(sa, frac, vols, dx, dir);
    for (int i = 0; i < W; ++i) {
      Ev("hllem", "masked", d, m[i], qs[i], {}, Lane(fm, i), {}, Lar);
      if (i > 4) Ev("hllem dt", "masked", d, m[i], qs[i], {}, {dm[i]}, {}, Lar, dx);
    }
  }
}

static std::string LawStr(const char* law, int n, int ns, int np, double gamma, double msq, double g, const std::string& what) {
  return J().t("law", law).i("n", n).i("ns", ns).i("np", np).raw("gamma", Num(gamma)).raw("rspec", Num(1)).raw("msq", Num(msq)).raw("g", Num(g)).raw("vel", Nums(V())).t("what", what).str();
}
static int Reps(int n) { return n * (vh::thorough() ? 12 : 1); }

template <int N> void RunGas(int reps) {
  for (int r = 0; r < reps; ++r) {
    PerfectGas<N> eq;
    if (Rnd(0, 2)) {
      eq.gamma = Rnd(0, 1) ? U(1.05, 1.7) : 5.0 / 3.0;
      eq.gamma_minus_1_inv = 1.0 / (eq.gamma - 1.0);
      eq.gamma_array_ = Array1d::Constant(eq.gamma); eq.gamma_minus_1_inv_array_ = Array1d::Constant(eq.gamma_minus_1_inv);
    }
    GasGen gen{eq.gamma}; gen.n = N;
    auto pair = [&](int d) { return GasPair(gen, 1.0, d); };
    GasGen near = gen; near.mach = 0.5; near.rmin = near.pmin = 0.4; near.rmax = near.pmax = 2.5;
    auto mild = [&](int d) { return GasPair(near, 1.0, d); };
    tr().start(LawStr("gas", N, 0, 0, eq.gamma, 1, 0, "HllMethod")); RunHll(eq, pair, true); tr().finish();
    tr().start(LawStr("gas", N, 0, 0, eq.gamma, 1, 0, "HllemMethod, Larrouturou")); RunHllem<true>(eq, pair, mild); tr().finish();
    tr().start(LawStr("gas", N, 0, 0, eq.gamma, 1, 0, "HllemMethod")); RunHllem<false>(eq, pair, mild); tr().finish();
  }
}
template <int N> void RunMix(int reps) {
  for (int r = 0; r < reps; ++r) {
    const int ns = Rnd(0, 3), np = Rnd(0, 2);
    double gamma = Rnd(0, 2) ? U(1.05, 1.7) : 1.4;
    PerfectGasMix<N> eq; eq.SetConstants(1.0, gamma);
    eq.n_species = ns; eq.n_passive_scalars = np;
    double msq = 1.0;
    if (Rnd(0, 2) == 0) msq = U(0.01, 0.9);
    GasGen gen{gamma}; gen.n = N; gen.ns = ns; gen.np = np;
    eq.Msq = eq.Msqinv = 1.0;
    auto p1 = [&](int d) { return GasPair(gen, 1.0, d); };
    tr().start(LawStr("mix", N, ns, np, gamma, 1, 0, "HllMethod")); RunHll(eq, p1, true); tr().finish();
    eq.Msq = msq; eq.Msqinv = 1.0 / msq;
    auto pair = [&](int d) { return GasPair(gen, msq, d); };
    GasGen near = gen; near.mach = 0.5; near.rmin = near.pmin = 0.4; near.rmax = near.pmax = 2.5;
    auto mild = [&](int d) { return GasPair(near, msq, d); };
    if constexpr (N < 3) {
      tr().start(LawStr("mix", N, ns, np, gamma, msq, 0, "HllemMethod, Larrouturou")); RunHllem<true>(eq, pair, mild); tr().finish();
      tr().start(LawStr("mix", N, ns, np, gamma, msq, 0, "HllemMethod")); RunHllem<false>(eq, pair, mild); tr().finish();
    }
  }
}
void part0(); void part1(); void part2(); void part3(); void part4();
#if PART == 0
void part0() {
  for (int r = 0; r < Reps(6); ++r) {
    ShallowWater swe; if (Rnd(0, 1)) swe.gravity_ = U(0.5, 20);
    tr().start(LawStr("swe", 2, 0, 0, 1, 1, swe.gravity_, "HllMethod, shallow water"));
    RunHll(swe, [&](int d) {
      auto one = [&] { const double h = LogU(0.05, 20), a = std::sqrt(swe.gravity_ * h); return V{h, h * a * U(-3, 3), h * a * U(-3, 3)}; };
      Pair p{one(), one()}; if (Rnd(0, 4) == 0) p.r = p.l; if (Rnd(0, 4) == 0) { p.r = p.l; p.r[1 + d] *= -1; } return p; }, false);
    tr().finish();
  }
}
int main(int argc, char** argv) {
  vh::Trace t; vh::install(t, argv[1], 600);
  vg::rng().seed(vh::seed());
  part0(); part1(); part2(); part3(); part4();
  std::fclose(t.out);
  std::printf("traces=%lld\n", t.count);
}
#elif PART == 1
void part1() { RunGas<1>(Reps(6)); }
#elif PART == 2
void part2() { RunGas<2>(Reps(6)); }
#elif PART == 3
void part3() { RunGas<3>(Reps(6)); }
#elif PART == 4
void part4() { RunMix<1>(Reps(6)); RunMix<2>(Reps(6)); RunMix<3>(Reps(4)); }
#endif
