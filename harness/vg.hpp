// Parts shared by harnesses that work on patches: guarded memory, index loops
// and storage for all variables of a state.
#ifndef VG_HPP
#define VG_HPP
#include "vh.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/Equation.hpp"
#include "fub/State.hpp"
#include <map>
#include <memory>
#include <sys/mman.h>
namespace vg {
using namespace fub;
inline std::mt19937_64& rng() { static std::mt19937_64 r; return r; }
inline int Rnd(int lo, int hi) { return lo + static_cast<int>(rng()() % static_cast<unsigned>(hi - lo + 1)); }
struct Guarded { // memory of exactly n doubles, directly before (or after) a protected page
  char* m; std::size_t len; double* p; std::size_t n;
  Guarded(std::size_t n_, bool at_end) : n(n_) {
    const std::size_t page = 4096, body = ((n * 8 + page - 1) / page + 1) * page;
    len = body + 2 * page;
    m = static_cast<char*>(mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (m == MAP_FAILED) std::exit(3);
    mprotect(m, page, PROT_NONE); mprotect(m + page + body, page, PROT_NONE);
    p = reinterpret_cast<double*>(at_end ? m + page + body - n * 8 : m + page);
  }
  ~Guarded() { munmap(m, len); }
  Guarded(const Guarded&) = delete;
};
template <std::size_t N> std::string S(const std::array<std::ptrdiff_t, N>& a) {
  std::vector<std::string> v; for (auto x : a) v.push_back(std::to_string(x)); return vh::List(v);
}
template <int R> std::string S(const IndexBox<R>& b) { return "[" + S(b.lower) + "," + S(b.upper) + "]"; }
template <int R, class F> void Cells(const IndexBox<R>& b, F f) {
  for (int d = 0; d < R; ++d) if (b.upper[d] <= b.lower[d]) return;
  Index<R> i = b.lower;
  for (;;) {
    f(i);
    int d = 0;
    while (d < R && ++i[d] == b.upper[d]) { i[d] = b.lower[d]; ++d; }
    if (d == R) return;
  }
}

// every variable of any state, by its name
#define VG_VARS(X) X(density) X(momentum) X(energy) X(species) X(passive_scalars) X(pressure) X(speed_of_sound) X(c_p) X(gamma) X(temperature) X(height) X(mass) X(u) X(velocity) X(minus) X(zero) X(plus)
#define VG_HAS(m) template <class S> using has_##m##_t = decltype(std::declval<S&>().m);
VG_VARS(VG_HAS)
template <class S, class F> void Named(S& s, F f) {
#define VG_GO(m) if constexpr (is_detected<has_##m##_t, S>::value) f(#m, s.m);
  VG_VARS(VG_GO)
}
// storage of all components of all variables of the state St on the box `all`;
// the view shows `box`; shared strides
template <int R, class St> struct Store_ {
  IndexBox<R> all, box;
  std::vector<std::string> names; // per component
  std::ptrdiff_t plane;
  std::unique_ptr<Guarded> mem;
  std::array<std::ptrdiff_t, R> st;
  View<St> view;
  template <class Eq> Store_(const Eq& eq, const IndexBox<R>& b, bool pad) : all(b), box(b) {
    if (pad) for (int d = 0; d < R; ++d) { all.lower[d] -= Rnd(0, 2); all.upper[d] += Rnd(0, 2); }
    St one(eq);
    Named(one, [&](const char* n, auto& x) {
      if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) names.push_back(n);
      else for (int c = 0; c < x.size(); ++c) names.push_back(n + std::to_string(c));
    });
    plane = 1;
    for (int d = 0; d < R; ++d) { st[d] = plane; plane *= all.upper[d] - all.lower[d]; }
    mem = std::make_unique<Guarded>(plane * names.size(), Rnd(0, 3) != 0);
    int comp = 0;
    std::map<std::string, int> depth, first;
    Named(one, [&](const char* n, auto& x) {
      int k = 1;
      if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, double>) k = (int)x.size();
      depth[n] = k; first[n] = comp; comp += k;
    });
    Named(view, [&](const char* n, auto& pdv) { put(pdv, first.at(n), depth.at(n)); });
  }
  int ncomp() const { return (int)names.size(); }
  template <class P> void put(P& pdv, int comp, int depth) {
    constexpr std::size_t PR = P::Rank();
    std::array<std::ptrdiff_t, PR> e{}, s{}, org{};
    std::ptrdiff_t off = comp * plane;
    for (int d = 0; d < R; ++d) { e[d] = box.upper[d] - box.lower[d]; s[d] = st[d]; org[d] = box.lower[d]; off += (box.lower[d] - all.lower[d]) * st[d]; }
    if constexpr (PR == R + 1) { e[R] = depth; s[R] = plane; }
    layout_stride::mapping<dynamic_extents<PR>> mapping{dynamic_extents<PR>(e), s};
    pdv = P(mdspan<double, PR, layout_stride>(mem->p + off, mapping), org);
  }
  double& at(int c, const Index<R>& i) {
    std::ptrdiff_t o = c * plane; for (int d = 0; d < R; ++d) o += (i[d] - all.lower[d]) * st[d];
    return mem->p[o];
  }
  std::string Names() const { std::vector<std::string> v; for (auto& n : names) v.push_back('"' + n + '"'); return vh::List(v); }
};
inline double Val(int v, const std::ptrdiff_t* i, std::size_t n) {
  static const int P[] = {17, 101, 577};
  long s = 131 * v;
  for (std::size_t d = 0; d < n; ++d) s += P[d] * (long)i[d];
  s = (s * 7919) % 997;
  return double(s < 0 ? s + 997 : s);
}
// the number held by variable v at cell i
template <class I> double Val(int v, const I& i) { return Val(v, i.data(), i.size()); }
} // namespace vg
#endif
