// Parts shared by the harnesses of the numerical kernels: numbers as decimal
// strings, states as flat sequences of numbers, random states.
#ifndef VN_HPP
#define VN_HPP
#include "vg.hpp"
#include "fub/CompleteFromCons.hpp"
#include "fub/StateArray.hpp"
namespace vn {
using namespace fub;
using vg::Rnd;
using V = std::vector<double>;
inline vh::Trace& tr() { return *vh::current(); }
inline std::string Num(double x) {
  char b[40];
  if (std::isnan(x)) return "\"nan\"";
  if (std::isinf(x)) return x < 0 ? "\"-inf\"" : "\"inf\"";
  std::snprintf(b, sizeof b, "\"%.17g\"", x);
  return b;
}
template <class C> std::string Nums(const C& v) {
  std::vector<std::string> s;
  for (double x : v) s.push_back(Num(x));
  return vh::List(s);
}
inline double U(double lo, double hi) { return lo + (hi - lo) * double(vg::rng()() >> 11) / 9007199254740992.0; }
inline double LogU(double lo, double hi) { return std::exp(U(std::log(lo), std::log(hi))); }
// the variables of a state in the order of the specifications
template <class S, class F> void Ordered(S& s, F f) {
#define VN_GO(m) if constexpr (is_detected<vg::has_##m##_t, S>::value) f(s.m);
  constexpr bool prim = is_detected<vg::has_velocity_t, S>::value;
  VN_GO(density) VN_GO(height) VN_GO(mass) VN_GO(u) VN_GO(minus) VN_GO(zero) VN_GO(plus)
  VN_GO(velocity) VN_GO(momentum) VN_GO(energy)
  if constexpr (prim) { VN_GO(pressure) }
  VN_GO(species) VN_GO(passive_scalars)
  if constexpr (!prim) { VN_GO(pressure) }
  VN_GO(speed_of_sound) VN_GO(c_p) VN_GO(gamma) VN_GO(temperature)
}
// scalar states and single lanes of array states as flat sequences
template <class S> V Flat(const S& s) {
  V r;
  Ordered(const_cast<S&>(s), [&](auto& x) {
    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) r.push_back(x);
    else for (int c = 0; c < x.size(); ++c) r.push_back(x[c]);
  });
  return r;
}
template <class S> void Fill(S& s, const V& v) {
  std::size_t k = 0;
  Ordered(s, [&](auto& x) {
    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) x = v.at(k++);
    else for (int c = 0; c < x.size(); ++c) x[c] = v.at(k++);
  });
}
template <class X> constexpr bool IsArray1d = std::is_same_v<std::decay_t<X>, Array1d>;
template <class S> V Lane(const S& s, int i) {
  V r;
  Ordered(const_cast<S&>(s), [&](auto& x) {
    if constexpr (IsArray1d<decltype(x)>) r.push_back(x[i]);
    else for (int c = 0; c < x.rows(); ++c) r.push_back(x(c, i));
  });
  return r;
}
template <class S> void FillLane(S& s, int i, const V& v) {
  std::size_t k = 0;
  Ordered(s, [&](auto& x) {
    if constexpr (IsArray1d<decltype(x)>) x[i] = v.at(k++);
    else for (int c = 0; c < x.rows(); ++c) x(c, i) = v.at(k++);
  });
}
constexpr int W = kDefaultChunkSize;
inline MaskArray RndMask() {
  MaskArray m;
  const int k = Rnd(0, 5);
  for (int i = 0; i < W; ++i) m[i] = k == 0 ? false : k == 1 ? true : Rnd(0, 1) == 1;
  return m;
}
// a random thermodynamic state: rho, u(n), p, mass fractions, scalars
struct GasGen {
  double gamma, rmin = 0.02, rmax = 20.0, pmin = 0.02, pmax = 20.0, mach = 3.0;
  int n, ns = 0, np = 0;
  V prim() const {
    V w;
    const int k = Rnd(0, 9);
    const double rho = k == 0 ? 1.0 : k == 1 ? 0.125 : LogU(rmin, rmax);
    const double p = k == 0 ? 1.0 : k == 1 ? 0.1 : LogU(pmin, pmax);
    const double a = std::sqrt(gamma * p / rho);
    w.push_back(rho);
    for (int d = 0; d < n; ++d) {
      const int j = Rnd(0, 11);
      w.push_back(j == 0 ? 0.0 : j == 1 ? a : j == 2 ? -a : U(-mach, mach) * a);
    }
    w.push_back(p);
    double left = 1.0;
    for (int s = 0; s < ns; ++s) { const double y = Rnd(0, 5) ? U(0, left) : 0.0; w.push_back(y); left -= y; }
    for (int s = 0; s < np; ++s) w.push_back(U(-2, 2));
    return w;
  }
  // the complete state by a formula of its own
  V complete(const V& w, double msq = 1.0) const {
    V q{w[0]};
    double k = 0;
    for (int d = 0; d < n; ++d) { q.push_back(w[0] * w[1 + d]); k += w[1 + d] * w[1 + d]; }
    const double p = w[n + 1];
    q.push_back(p / (gamma - 1) + 0.5 * msq * w[0] * k);
    for (int i = 0; i < ns + np; ++i) q.push_back(w[0] * w[n + 2 + i]);
    q.push_back(p);
    q.push_back(std::sqrt(gamma * p / w[0]));
    return q;
  }
};
} // namespace vn
#endif
