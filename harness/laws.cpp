// Conformance harness for the equations: fluxes, equations of state, changes
// of variables and symmetries of every law, in their forms for single states,
// for chunks of states and for masked chunks.
#include "vn.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/equations/Burgers.hpp"
#ifndef PART
#define PART 0
#endif
using namespace vn;
using vh::J;

template <class Eq> struct IsMix : std::false_type {};
template <int N> struct IsMix<PerfectGasMix<N>> : std::true_type {};

static void Ev(const char* a, const char* f, int d, bool on, const V& q, const V& r) {
  tr().ev(J().t("a", a).t("f", f).i("d", d).b("on", on).raw("q", Nums(q)).raw("r", Nums(r)));
}
// event with another vector x
static void Ev2(const char* a, const char* f, const V& q, const V& x, const V& r) {
  tr().ev(J().t("a", a).t("f", f).raw("q", Nums(q)).raw("x", Nums(x)).raw("r", Nums(r)));
}

template <int N, class Eq, class Gen> void Symmetries(const Eq& eq, const Gen& gen, double msq) {
  const V w = gen.prim(), q = gen.complete(w, msq);
  Complete<Eq> c(eq), rc(eq); Fill(c, q);
  Conservative<Eq> k(eq), rk(eq); Fill(k, V(q.begin(), q.end() - 2));
  Eigen::Matrix<double, N, 1> n;
  for (int d = 0; d < N; ++d) n[d] = U(-1, 1);
  if (Rnd(0, 3) == 0 || n.norm() < 1e-3) { n.setZero(); n[Rnd(0, N - 1)] = Rnd(0, 1) ? 1 : -1; }
  n.normalize();
  V nv(n.data(), n.data() + N);
  Reflect(rc, c, n, eq); Ev2("reflect", "complete", q, nv, Flat(rc));
  Reflect(rk, k, n, eq); Ev2("reflect", "cons", Flat(k), nv, Flat(rk));
  // in place, and back
  Reflect(rc, rc, n, eq); Ev2("same", "reflected twice", q, {}, Flat(rc));
  if constexpr (!IsMix<Eq>::value) {
    Primitive<Eq> p(eq), rp(eq); Fill(p, w);
    Reflect(rp, p, n, eq); Ev2("reflect", "prim", w, nv, Flat(rp));
  }
  if constexpr (N > 1) {
    Eigen::Matrix<double, N, N> m;
    const double t = U(-3.2, 3.2);
    m.setIdentity();
    auto plane = [&](int i, int j, double a) {
      Eigen::Matrix<double, N, N> g; g.setIdentity();
      g(i, i) = g(j, j) = std::cos(a); g(i, j) = -std::sin(a); g(j, i) = std::sin(a);
      m = (g * m).eval();
    };
    plane(0, 1, t);
    if constexpr (N == 3) { plane(1, 2, U(-3.2, 3.2)); plane(0, 2, U(-3.2, 3.2)); }
    V mv; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) mv.push_back(m(i, j));
    Rotate(rc, c, m, eq); Ev2("rotate", "complete", q, mv, Flat(rc));
    Rotate(rk, k, m, eq); Ev2("rotate", "cons", Flat(k), mv, Flat(rk));
    Complete<Eq> bc(eq);
    Rotate(bc, rc, m.transpose(), eq); Ev2("same", "rotated back", q, {}, Flat(bc));
  }
}

template <int N, class Eq> void Gas(const Eq& eq, const GasGen& gen, double msq) {
  auto one = [&] { return gen.complete(gen.prim(), msq); };
  auto cons = [](const V& q) { return V(q.begin(), q.end() - 2); };
  for (int rep = 0; rep < 2; ++rep) {
    const int d = Rnd(0, N - 1);
    const Direction dir = Direction(d);
    { // scalar
      const V q = one();
      Complete<Eq> c(eq); Fill(c, q);
      Conservative<Eq> f(eq); eq.Flux(f, c, dir); Ev("flux", "scalar", d + 1, true, q, Flat(f));
      Complete<Eq> r(eq); eq.CompleteFromCons(r, (const ConservativeBase<Eq>&)c); Ev("complete", "scalar", 0, true, cons(q), Flat(r));
      Complete<Eq> r2(eq); CompleteFromCons(eq, r2, c); Ev("complete", "function", 0, true, cons(q), Flat(r2));
      Conservative<Eq> k(eq); Fill(k, cons(q)); Complete<Eq> r3(eq); CompleteFromCons(eq, r3, k); Ev("complete", "function", 0, true, cons(q), Flat(r3));
      CompleteFromCons(eq, c, c); Ev("complete", "in place", 0, true, cons(q), Flat(c));
    }
    CompleteArray<Eq> q(eq), c(eq);
    for (int i = 0; i < W; ++i) FillLane(q, i, one());
    const ConservativeArrayBase<Eq>& k = q;
    ConservativeArray<Eq> f(eq);
    eq.Flux(f, q, dir);
    if (Rnd(0, 1)) eq.CompleteFromCons(c, k); else if (Rnd(0, 1)) CompleteFromCons(eq, c, q);
    else { ConservativeArray<Eq> kk(eq); for (int i = 0; i < W; ++i) FillLane(kk, i, cons(Lane(q, i))); CompleteFromCons(eq, c, kk); }
    for (int i = 0; i < W; ++i) if (rep == 0 || i == Rnd(0, W - 1)) {
      Ev("flux", "array", d + 1, true, Lane(q, i), Lane(f, i));
      Ev("complete", "array", 0, true, cons(Lane(q, i)), Lane(c, i));
    }
    // masked: lanes that are off may hold anything, also cells without contents
    MaskArray m = RndMask();
    const int junk = Rnd(0, 2);
    for (int i = 0; i < W; ++i) {
      if (!m[i] && junk) FillLane(q, i, V(Lane(q, i).size(), junk == 1 ? 0.0 : -1.0));
      if (m[i] && Rnd(0, 9) == 0) { V z(Lane(q, i).size(), 0.0); FillLane(q, i, z); }
    }
    ConservativeArray<Eq> fm(eq); CompleteArray<Eq> cm(eq);
    eq.Flux(fm, q, m, dir);
    if (Rnd(0, 1)) eq.CompleteFromCons(cm, k, m); else CompleteFromCons(eq, cm, k, m);
    for (int i = 0; i < W; ++i) {
      const V l = Lane(q, i);
      Ev("flux", "masked", d + 1, m[i] && l[0] > 0, l, Lane(fm, i));
      Ev("complete", "masked", 0, m[i] && l[0] > 0, cons(l), Lane(cm, i));
    }
  }
  // primitive variables
  {
    const V w = gen.prim();
    Primitive<Eq> p(eq), pb(eq); Fill(p, w);
    Complete<Eq> c(eq); CompleteFromPrim(eq, c, p); Ev("from prim", "scalar", 0, true, w, Flat(c));
    PrimFromComplete(eq, pb, c); Ev("to prim", "scalar", 0, true, Flat(c), Flat(pb));
    const auto u = eq.Velocity(c); V uv; for (int i = 0; i < N; ++i) uv.push_back(u[i]);
    const double T = eq.Temperature(c), Ma = eq.Machnumber(c);
    Ev("derived", "scalar", 0, true, Flat(c), [&] { V r = uv; r.push_back(T); r.push_back(Ma); return r; }());
    PrimitiveArray<Eq> pa(eq), pc(eq); CompleteArray<Eq> ca(eq);
    for (int i = 0; i < W; ++i) FillLane(pa, i, gen.prim());
    CompleteFromPrim(eq, ca, pa); PrimFromComplete(eq, pc, ca);
    const auto ua = eq.Velocity(ca); const Array1d Ta = eq.Temperature(ca);
    for (int i = 0; i < W; ++i) {
      Ev("from prim", "array", 0, true, Lane(pa, i), Lane(ca, i));
      Ev("to prim", "array", 0, true, Lane(ca, i), Lane(pc, i));
      V r; for (int d = 0; d < N; ++d) r.push_back(ua(d, i)); r.push_back(Ta[i]);
      Ev("derived", "array", 0, true, Lane(ca, i), r);
    }
    if constexpr (!IsMix<Eq>::value) {
      MaskArray m = RndMask();
      const int junk = Rnd(0, 1);
      for (int i = 0; i < W; ++i) if (!m[i] && junk) FillLane(pa, i, V(Lane(pa, i).size(), 0.0));
      const auto cm = eq.CompleteFromPrim(pa.density, pa.velocity, pa.pressure, m);
      for (int i = 0; i < W; ++i) Ev("from prim", "masked", 0, m[i], Lane(pa, i), Lane(cm, i));
      // the accessors of the Euler equations, one by one
      Complete<Eq> q(eq); Fill(q, one());
      V r{euler::Gamma(eq, q), euler::Density(eq, q)};
      for (int d = 0; d < N; ++d) r.push_back(euler::Momentum(eq, q, d));
      for (int d = 0; d < N; ++d) r.push_back(euler::Velocity(eq, q, d));
      r.push_back(euler::Energy(eq, q)); r.push_back(euler::Pressure(eq, q)); r.push_back(euler::SpeedOfSound(eq, q));
      Ev("accessors", "scalar", 0, true, Flat(q), r);
    }
  }
  Symmetries<N>(eq, gen, msq);
}

template <int N> void Mix(const PerfectGasMix<N>& eq, const GasGen& gen, double msq) {
  using Eq = PerfectGasMix<N>;
  Gas<N>(eq, gen, msq);
  {
    Complete<Eq> q(eq); Fill(q, gen.complete(gen.prim(), msq));
    V r{euler::Gamma(eq, q), euler::Density(eq, q)};
    const auto m = euler::Momentum(eq, q); const auto u = euler::Velocity(eq, q);
    for (int d = 0; d < N; ++d) r.push_back(Rnd(0, 1) ? euler::Momentum(eq, q, d) : m[d]);
    for (int d = 0; d < N; ++d) r.push_back(Rnd(0, 1) ? euler::Velocity(eq, q, d) : u[d]);
    r.push_back(euler::Energy(eq, q)); r.push_back(euler::Pressure(eq, q)); r.push_back(euler::SpeedOfSound(eq, q));
    Ev("accessors", "scalar", 0, true, Flat(q), r);
    const auto sp = euler::Species(eq, q);
    V s; for (int i = 0; i < eq.n_species; ++i) s.push_back(Rnd(0, 1) ? sp[i] : euler::Species(eq, q, i));
    Ev("species", "scalar", 0, true, Flat(q), s);
    Ev("energies", "scalar", 0, true, Flat(q), {euler::InternalEnergy(eq, q), euler::TotalEnthalpy(eq, q), euler::Temperature(eq, q)});
    CompleteArray<Eq> a(eq); for (int i = 0; i < W; ++i) FillLane(a, i, gen.complete(gen.prim(), msq));
    const Array1d e = euler::InternalEnergy(eq, a), h = euler::TotalEnthalpy(eq, a), T = euler::Temperature(eq, a);
    for (int i = 0; i < W; ++i) Ev("energies", "array", 0, true, Lane(a, i), {e[i], h[i], T[i]});
  }
  // kinetic states
  auto kin = [&] { V w = gen.prim(); V k{w[0], w[N + 1] / w[0]}; double rest = 1;
    for (int i = 0; i < gen.ns; ++i) { k.push_back(w[N + 2 + i]); rest -= w[N + 2 + i]; }
    k.push_back(std::max(0.0, rest));
    if (Rnd(0, 1)) { const double f = U(0.2, 5); for (std::size_t i = 2; i < k.size(); ++i) k[i] *= f; } // not normalized
    for (int i = 0; i < gen.np; ++i) k.push_back(w[N + 2 + gen.ns + i]);
    return k; };
  auto KinFlat = [&](const auto& k, int i) { V r;
    if constexpr (std::is_same_v<std::decay_t<decltype(k.density)>, double>) {
      r = {k.density, k.temperature}; for (int s = 0; s < k.mole_fractions.size(); ++s) r.push_back(k.mole_fractions[s]);
      for (int s = 0; s < k.passive_scalars.size(); ++s) r.push_back(k.passive_scalars[s]);
    } else {
      r = {k.density[i], k.temperature[i]}; for (int s = 0; s < k.mole_fractions.rows(); ++s) r.push_back(k.mole_fractions(s, i));
      for (int s = 0; s < k.passive_scalars.rows(); ++s) r.push_back(k.passive_scalars(s, i));
    } return r; };
  {
    KineticState<Eq> k(eq); const V v = kin();
    k.density = v[0]; k.temperature = v[1];
    for (int i = 0; i <= gen.ns; ++i) k.mole_fractions[i] = v[2 + i];
    for (int i = 0; i < gen.np; ++i) k.passive_scalars[i] = v[3 + gen.ns + i];
    Array<double, N, 1> u; V uv; for (int d = 0; d < N; ++d) { u[d] = U(-3, 3); uv.push_back(u[d]); }
    Complete<Eq> q(eq);
    if (msq == 1.0) { euler::CompleteFromKineticState(eq, q, k, u); Ev2("from kinetic", "scalar", v, uv, Flat(q)); }
    euler::CompleteFromKineticState(eq, q, k); Ev2("from kinetic", "at rest", v, V(N, 0.0), Flat(q));
    Ev("kinetic pressure", "scalar", 0, true, v, {euler::Pressure(eq, k)});
    KineticState<Eq> kb(eq);
    Complete<Eq> c(eq); Fill(c, gen.complete(gen.prim(), msq));
    euler::KineticStateFromComplete(eq, kb, c); Ev("to kinetic", "scalar", 0, true, Flat(c), KinFlat(kb, 0));
    KineticStateArray<Eq> ka(eq), kc(eq);
    Array<double, N> ua;
    for (int i = 0; i < W; ++i) {
      const V w = kin(); ka.density[i] = w[0]; ka.temperature[i] = w[1];
      for (int s = 0; s <= gen.ns; ++s) ka.mole_fractions(s, i) = w[2 + s];
      for (int s = 0; s < gen.np; ++s) ka.passive_scalars(s, i) = w[3 + gen.ns + s];
      for (int d = 0; d < N; ++d) ua(d, i) = U(-3, 3);
    }
    CompleteArray<Eq> qa(eq), cc(eq);
    euler::CompleteFromKineticState(eq, qa, ka, ua);
    for (int i = 0; i < W; ++i) FillLane(cc, i, gen.complete(gen.prim(), msq));
    euler::KineticStateFromComplete(eq, kc, cc);
    for (int i = 0; i < W; ++i) {
      V uv; for (int d = 0; d < N; ++d) uv.push_back(ua(d, i));
      Ev2("from kinetic", "array", KinFlat(ka, i), uv, Lane(qa, i));
      Ev("to kinetic", "array", 0, true, Lane(cc, i), KinFlat(kc, i));
    }
  }
  if (msq == 1.0) for (int rep = 0; rep < 4; ++rep) {
    const V q = gen.complete(gen.prim());
    Complete<Eq> c(eq), s(eq), x(eq); Fill(c, q); Fill(s, q);
    Array<double, N, 1> u; V uv; for (int d = 0; d < N; ++d) { u[d] = Rnd(0, 4) ? U(-3, 3) : 0.0; uv.push_back(u[d]); }
    euler::SetVelocity(eq, s, u); Ev2("velocity", "scalar", q, uv, Flat(s));
    const double p = Rnd(0, 4) ? q[q.size() - 2] * LogU(0.1, 10) : q[q.size() - 2];
    euler::SetIsentropicPressure(eq, x, c, p); Ev2("isentropic", "scalar", q, {p}, Flat(x));
    Fill(x, q); euler::SetIsentropicPressure(eq, x, x, p); Ev2("isentropic", "in place", q, {p}, Flat(x));
    const double eff = Rnd(0, 2) ? U(0, 1) : 1.0;
    Fill(x, q); Complete<Eq> y(eq);
    euler::IsentropicExpansionWithoutDissipation(eq, y, c, p, eff); Ev2("expansion", "scalar", q, {p, eff}, Flat(y));
    euler::IsentropicExpansionWithoutDissipation(eq, x, x, p, eff); Ev2("expansion", "in place", q, {p, eff}, Flat(x));
  }
}

static std::string LawStr(const char* law, int n, int ns, int np, double gamma, double rspec, double msq, double g, const V& vel, const std::string& what) {
  return J().t("law", law).i("n", n).i("ns", ns).i("np", np).raw("gamma", Num(gamma)).raw("rspec", Num(rspec)).raw("msq", Num(msq)).raw("g", Num(g)).raw("vel", Nums(vel)).t("what", what).str();
}

template <class Eq> void Simple(const Eq& eq, int nc, bool positive) {
  auto one = [&] { V q; for (int i = 0; i < nc; ++i) q.push_back(i == 0 && positive ? LogU(0.01, 20) : Rnd(0, 8) ? U(-20, 20) : 0.0); return q; };
  constexpr int R = Eq::Rank();
  for (int rep = 0; rep < 4; ++rep) {
    const int d = Rnd(0, R - 1); const Direction dir = Direction(d);
    Complete<Eq> q(eq); Fill(q, one()); CompleteArray<Eq> a(eq);
    for (int i = 0; i < W; ++i) FillLane(a, i, one());
    if constexpr (std::is_same_v<Eq, Burgers1d>) {
      Ev("flux", "scalar", d + 1, true, Flat(q), Flat(eq.Flux(q, dir)));
      const auto f = eq.Flux(a, dir);
      for (int i = 0; i < W; ++i) Ev("flux", "array", d + 1, true, Lane(a, i), Lane(f, i));
    } else {
      Conservative<Eq> f(eq); eq.Flux(f, q, dir); Ev("flux", "scalar", d + 1, true, Flat(q), Flat(f));
      ConservativeArray<Eq> fa(eq); eq.Flux(fa, a, dir);
      for (int i = 0; i < W; ++i) Ev("flux", "array", d + 1, true, Lane(a, i), Lane(fa, i));
    }
    Complete<Eq> c(eq); CompleteFromCons(eq, c, q); Ev("same", "completed", 0, true, Flat(q), Flat(c));
    CompleteArray<Eq> ca(eq); CompleteFromCons(eq, ca, a);
    Ev("same", "completed", 0, true, Lane(a, 3), Lane(ca, 3));
  }
}

template <int N> void RunGas(int reps) {
  for (int r = 0; r < reps; ++r) {
    PerfectGas<N> eq;
    if (Rnd(0, 2)) {
      eq.gamma = Rnd(0, 1) ? U(1.05, 1.7) : 5.0 / 3.0; eq.Rspec = U(0.5, 300);
      eq.gamma_minus_1_inv = 1.0 / (eq.gamma - 1.0);
      eq.gamma_array_ = Array1d::Constant(eq.gamma); eq.gamma_minus_1_inv_array_ = Array1d::Constant(eq.gamma_minus_1_inv);
    }
    GasGen gen{eq.gamma}; gen.n = N;
    tr().start(LawStr("gas", N, 0, 0, eq.gamma, eq.Rspec, 1, 0, {}, "PerfectGas"));
    Gas<N>(eq, gen, 1.0);
    tr().finish();
  }
}
template <int N> void RunMix(int reps) {
  for (int r = 0; r < reps; ++r) {
    const int ns = Rnd(0, 3), np = Rnd(0, 2);
    double gamma = 1.28;
    PerfectGasMix<N> eq;
    if (Rnd(0, 2)) { gamma = U(1.05, 1.7); const double R = U(0.5, 300); if (Rnd(0, 1)) eq = PerfectGasMix<N>(ComputeConstants(R, gamma), ns, np); else eq.SetConstants(R, gamma); }
    eq.n_species = ns; eq.n_passive_scalars = np;
    double msq = 1.0;
    if (Rnd(0, 3) == 0) { msq = U(0.01, 0.9); eq.Msq = msq; eq.Msqinv = 1.0 / msq; } else { eq.Msq = eq.Msqinv = 1.0; }
    GasGen gen{gamma}; gen.n = N; gen.ns = ns; gen.np = np;
    tr().start(LawStr("mix", N, ns, np, gamma, 1, msq, 0, {}, "PerfectGasMix"));
    tr().ev(J().t("a", "constants").raw("r", Nums(V{eq.gamma, eq.gamma_inv, eq.gamma_minus_one, eq.gamma_minus_one_over_gamma, eq.gamma_minus_one_inv, eq.gamma_over_gamma_minus_one, eq.gamma_array_[Rnd(0, 7)], eq.gamma_minus_one_inv_array_[Rnd(0, 7)], eq.heat_capacity_at_constant_pressure, eq.heat_capacity_at_constant_volume, eq.Rspec * eq.ooRspec})));
    Mix<N>(eq, gen, msq);
    tr().finish();
  }
}

void part0(); void part1(); void part2(); void part3(); void part4(); void part5();
static int Reps(int n) { return n * (vh::thorough() ? 12 : 1); }
#if PART == 0
void part0() {
  for (int r = 0; r < Reps(8); ++r) {
    ShallowWater swe; if (Rnd(0, 1)) swe.gravity_ = U(0.5, 20);
    tr().start(LawStr("swe", 2, 0, 0, 1, 1, 1, swe.gravity_, {}, "ShallowWater")); Simple(swe, 3, true); tr().finish();
    std::array<double, 2> v{U(-2, 2), Rnd(0, 2) ? U(-2, 2) : 0.0};
    Advection2d adv{v};
    tr().start(LawStr("adv", 2, 0, 0, 1, 1, 1, 0, {v[0], v[1]}, "Advection2d")); Simple(adv, 1, false); tr().finish();
    tr().start(LawStr("bur", 1, 0, 0, 1, 1, 1, 0, {}, "Burgers1d")); Simple(Burgers1d{}, 1, false); tr().finish();
  }
}
int main(int argc, char** argv) {
  vh::Trace t; vh::install(t, argv[1], 600);
  vg::rng().seed(vh::seed());
  part0(); part1(); part2(); part3(); part4(); part5();
  std::fclose(t.out);
  std::printf("traces=%lld\n", t.count);
}
#elif PART == 1
void part1() { RunGas<1>(Reps(8)); }
#elif PART == 2
void part2() { RunGas<2>(Reps(8)); }
#elif PART == 3
void part3() { RunGas<3>(Reps(8)); }
#elif PART == 4
void part4() { RunMix<1>(Reps(10)); RunMix<2>(Reps(10)); }
#elif PART == 5
void part5() { RunMix<3>(Reps(10)); }
#endif
