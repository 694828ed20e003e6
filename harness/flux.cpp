// Sweeps of flux methods and of the completion of states over patches of
// every shape.  The method under the sweep is a stand-in whose value at a face
// names the states it was given; memory ends at pages no one may touch.
#include "vh.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/Equation.hpp"
#include "fub/Execution.hpp"
#include "fub/CompleteFromCons.hpp"
#include "fub/flux_method/FluxMethod.hpp"
#include "fub/equations/PerfectGas.hpp"
#include <memory>
#include <sys/mman.h>
using namespace fub;
using vh::J;
extern vh::Trace trace;
extern std::mt19937_64 rng;
static int Rnd(int lo, int hi) { return lo + static_cast<int>(rng() % static_cast<unsigned>(hi - lo + 1)); }
static constexpr int kN = kDefaultChunkSize;

// the number held by variable v at cell i
template <class I> static double Val(int v, const I& i) {
  static const int P[] = {17, 101, 577};
  long s = 131 * v;
  for (std::size_t d = 0; d < i.size(); ++d) s += P[d] * (long)i[d];
  s = (s * 7919) % 997;
  return double(s < 0 ? s + 997 : s);
}
// An equation whose completion is integer arithmetic.
template <int N> struct Toy {
  using ConservativeDepths = PerfectGasConsShape<N>;
  using CompleteDepths = PerfectGasCompleteShape<N>;
  static constexpr int Rank() noexcept { return N; }
  template <class A, class B> static void Do(A& q, const B& c) {
    q.density = c.density; q.momentum = c.momentum; q.energy = c.energy;
    q.pressure = 2 * c.energy + 3 * c.density;
    if constexpr (std::is_same_v<std::decay_t<decltype(c.density)>, double>) q.speed_of_sound = 5 * c.momentum[N - 1] + c.density;
    else q.speed_of_sound = 5 * c.momentum.row(N - 1) + c.density;
  }
  void CompleteFromCons(::fub::Complete<Toy>& q, const ConservativeBase<Toy>& c) const { Do(q, c); }
  void CompleteFromCons(::fub::CompleteArray<Toy>& q, const ConservativeArrayBase<Toy>& c) const { Do(q, c); }
};
template <int N, int W> struct ToyFlux {
  using Eq = Toy<N>;
  Eq eq;
  static constexpr int GetStencilWidth() noexcept { return W; }
  const Eq& GetEquation() const noexcept { return eq; }
  template <class F, class S> static void Do(F& f, const S& st, double dt, double dx, Direction dir) {
    f.density = st[0].density * 0 + (1000 * dt + 10000 * dx + 100 * int(dir));
    f.momentum = 0 * st[0].momentum;
    f.energy = 0 * st[0].energy;
    for (int k = 0; k < 2 * W; ++k) {
      f.density += (k + 1) * (k + 2) * st[k].density;
      f.momentum += (k + 1) * st[k].momentum;
      f.energy += (k + 1) * (st[k].energy + 2 * st[k].pressure + 3 * st[k].speed_of_sound);
    }
  }
  void ComputeNumericFlux(Conservative<Eq>& f, span<const Complete<Eq>, 2 * W> st, Duration dt, double dx, Direction dir) { Do(f, st, dt.count(), dx, dir); }
  void ComputeNumericFlux(ConservativeArray<Eq>& f, span<const CompleteArray<Eq>, 2 * W> st, Duration dt, double dx, Direction dir) { Do(f, st, dt.count(), dx, dir); }
  double ComputeStableDt(span<const Complete<Eq>, 2 * W> st, double dx, Direction dir) {
    double s = 0;
    for (int k = 0; k < 2 * W; ++k) s += (k + 1) * (st[k].density + 5 * st[k].pressure);
    return dx + 10 * int(dir) + 100 + (s - 1009 * std::floor(s / 1009));
  }
  Array1d ComputeStableDt(span<const CompleteArray<Eq>, 2 * W> st, double dx, Direction dir) {
    Array1d s = 0 * st[0].density;
    for (int k = 0; k < 2 * W; ++k) s += (k + 1) * (st[k].density + 5 * st[k].pressure);
    return dx + 10 * int(dir) + 100 + (s - 1009 * (s / 1009).floor());
  }
};
struct Guarded { // memory of exactly n doubles, directly before (or after) a protected page
  char* m; std::size_t len; double* p; std::size_t n;
  Guarded(std::size_t n_, bool at_end) : n(n_) {
    const std::size_t page = 4096, body = ((n * 8 + page - 1) / page + 1) * page;
    len = body + 2 * page;
    m = static_cast<char*>(mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (m == MAP_FAILED) std::exit(3);
    mprotect(m, page, PROT_NONE); mprotect(m + page + body, page, PROT_NONE);
    p = reinterpret_cast<double*>(at_end ? m + page + body - n * 8 : m + page);
  }
  ~Guarded() { munmap(m, len); }
  Guarded(const Guarded&) = delete;
};
template <std::size_t N> static std::string S(const std::array<std::ptrdiff_t, N>& a) {
  std::vector<std::string> v; for (auto x : a) v.push_back(std::to_string(x)); return vh::List(v);
}
template <int R> static std::string S(const IndexBox<R>& b) { return "[" + S(b.lower) + "," + S(b.upper) + "]"; }
template <int R, class F> static void Cells(const IndexBox<R>& b, F f) {
  for (int d = 0; d < R; ++d) if (b.upper[d] <= b.lower[d]) return;
  Index<R> i = b.lower;
  for (;;) {
    f(i);
    int d = 0;
    while (d < R && ++i[d] == b.upper[d]) { i[d] = b.lower[d]; ++d; }
    if (d == R) return;
  }
}
// all variables of one kind of state: component c of the box `all`; the view shows `box`
template <int R, class St> struct Field {
  IndexBox<R> all, box;
  int ncomp;
  std::ptrdiff_t plane;
  std::unique_ptr<Guarded> mem;
  std::array<std::ptrdiff_t, R> st;
  View<St> view;
  static constexpr bool kCons = std::is_same_v<St, Conservative<Toy<R>>>;
  Field(const IndexBox<R>& b, bool pad) : all(b), box(b), ncomp(kCons ? R + 2 : R + 4) {
    if (pad) for (int d = 0; d < R; ++d) { all.lower[d] -= Rnd(0, 2); all.upper[d] += Rnd(0, 2); }
    plane = 1;
    for (int d = 0; d < R; ++d) { st[d] = plane; plane *= all.upper[d] - all.lower[d]; }
    mem = std::make_unique<Guarded>(plane * ncomp, Rnd(0, 3) != 0);
    bind(view);
  }
  template <class P> void put(P& pdv, int comp, int depth) {
    constexpr std::size_t PR = P::Rank();
    std::array<std::ptrdiff_t, PR> e{}, s{}, org{};
    std::ptrdiff_t off = comp * plane;
    for (int d = 0; d < R; ++d) { e[d] = box.upper[d] - box.lower[d]; s[d] = st[d]; org[d] = box.lower[d]; off += (box.lower[d] - all.lower[d]) * st[d]; }
    if constexpr (PR == R + 1) { e[R] = depth; s[R] = plane; }
    layout_stride::mapping<dynamic_extents<PR>> mapping{dynamic_extents<PR>(e), s};
    pdv = P(mdspan<double, PR, layout_stride>(mem->p + off, mapping), org);
  }
  void bind(View<St>& v) {
    put(v.density, 0, 1); put(v.momentum, 1, R); put(v.energy, R + 1, 1);
    if constexpr (!kCons) { put(v.pressure, R + 2, 1); put(v.speed_of_sound, R + 3, 1); }
  }
  double& at(int c, const Index<R>& i) {
    std::ptrdiff_t o = c * plane; for (int d = 0; d < R; ++d) o += (i[d] - all.lower[d]) * st[d];
    return mem->p[o];
  }
  void fill() { Cells<R>(all, [&](const Index<R>& i) { for (int c = 0; c < ncomp; ++c) at(c, i) = Val(c, i); }); }
  void poison(double x) { for (std::size_t k = 0; k < mem->n; ++k) mem->p[k] = x; }
  // does any element outside of the box differ from x?
  bool outside(double x) {
    bool same = true;
    Cells<R>(all, [&](const Index<R>& i) {
      bool in = true;
      for (int d = 0; d < R; ++d) in = in && box.lower[d] <= i[d] && i[d] < box.upper[d];
      if (!in) for (int c = 0; c < ncomp; ++c) same = same && at(c, i) == x;
    });
    return same;
  }
  std::string values() {
    std::vector<std::string> v;
    Cells<R>(box, [&](const Index<R>& i) {
      std::vector<std::string> w;
      for (int c = 0; c < ncomp; ++c) w.push_back(std::to_string(vh::Grid(at(c, i), 1.0, 0.0)));
      v.push_back(vh::List(w));
    });
    return vh::List(v);
  }
};
static const char* const kTags[] = {"none", "seq", "simd", "omp", "ompsimd"};
template <class F> static void WithTag(int t, F f) {
  switch (t) {
  case 1: f(execution::SequentialTag()); break;
  case 2: f(execution::SimdTag()); break;
  case 3: f(execution::OpenMpTag()); break;
  case 4: f(execution::OpenMpSimdTag()); break;
  }
}
template <int R> static IndexBox<R> Shape(int nx) {
  IndexBox<R> b;
  for (int d = 0; d < R; ++d) { b.lower[d] = Rnd(-4, 4); b.upper[d] = b.lower[d] + (d == 0 ? nx : Rnd(1, R == 3 ? 2 : 3)); }
  return b;
}
template <int R, int W> struct Case {
  FluxMethod<ToyFlux<R, W>> method{ToyFlux<R, W>{}};
  using Eq = Toy<R>;
  void Flux(int nx, int dir, int tag) {
    IndexBox<R> faces = Shape<R>(nx);
    IndexBox<R> cells = Grow(faces, Direction(dir), {W, W - 1});
    if (Rnd(0, 2) == 0) for (int d = 0; d < R; ++d) { cells.lower[d] -= Rnd(0, 2); cells.upper[d] += Rnd(0, 2); }
    Field<R, Complete<Eq>> q(cells, Rnd(0, 1));
    Field<R, Conservative<Eq>> f(faces, Rnd(0, 1));
    q.fill(); f.poison(-77);
    std::vector<double> copy(q.mem->p, q.mem->p + q.mem->n);
    const int dt = Rnd(1, 9), dx = Rnd(1, 9);
    trace.ev(J().t("a", "sweep"));
    if (tag == 0) method.ComputeNumericFluxes(f.view, AsConst(q.view), Duration(dt), dx, Direction(dir));
    else WithTag(tag, [&](auto t) { method.ComputeNumericFluxes(t, f.view, AsConst(q.view), Duration(dt), dx, Direction(dir)); });
    trace.ev(J().t("a", "flux").raw("faces", S(faces)).i("w", W).i("dir", dir + 1).i("dt", dt).i("dx", dx)
      .raw("v", f.values()).b("outside", f.outside(-77)).b("inputs", std::memcmp(copy.data(), q.mem->p, 8 * copy.size()) == 0));
  }
  void Dt(int nx, int dir, int tag) {
    IndexBox<R> cells = Shape<R>(nx);
    const int n = (int)(cells.upper[dir] - cells.lower[dir]);
    if (n < 2 * W) cells.upper[dir] = cells.lower[dir] + 2 * W + Rnd(0, 2);
    Field<R, Complete<Eq>> q(cells, Rnd(0, 1));
    q.fill();
    const int dx = Rnd(1, 9);
    double dt = -1;
    trace.ev(J().t("a", "sweep"));
    if (tag == 0) dt = method.ComputeStableDt(AsConst(q.view), dx, Direction(dir));
    else WithTag(tag, [&](auto t) { dt = method.ComputeStableDt(t, AsConst(q.view), dx, Direction(dir)); });
    trace.ev(J().t("a", "dt").raw("cells", S(cells)).i("w", W).i("dir", dir + 1).i("dx", dx).i("dt", vh::Grid(dt, 1.0, 0.0)));
  }
};
template <int R> static void Completion(int nx, int tag) {
  using Eq = Toy<R>;
  static CompleteFromConsFn<Eq> fn{Eq{}};
  IndexBox<R> cells = Shape<R>(nx);
  Field<R, Complete<Eq>> q(cells, Rnd(0, 1));
  Field<R, Conservative<Eq>> c(cells, Rnd(0, 1));
  c.fill(); q.poison(-77);
  std::vector<double> copy(c.mem->p, c.mem->p + c.mem->n);
  trace.ev(J().t("a", "sweep"));
  if (tag == 0) CompleteFromCons(Eq{}, q.view, AsConst(c.view));
  else WithTag(tag, [&](auto t) { fn.CompleteFromCons(t, q.view, AsConst(c.view)); });
  trace.ev(J().t("a", "complete").raw("cells", S(cells)).raw("v", q.values()).b("outside", q.outside(-77))
    .b("inputs", std::memcmp(copy.data(), c.mem->p, 8 * copy.size()) == 0));
}
template <int R, int W> static void Run(int rounds) {
  Case<R, W> c; // one method for the whole history: its buffers keep what they held
  for (int k = 0; k < rounds; ++k)
    for (int tag = 0; tag < 5; ++tag) {
      trace.start(J().i("rank", R).t("tag", kTags[tag]).str());
      try {
        for (int nx : {1, kN - 1, kN, kN + 1, 2 * kN, Rnd(2, 6), Rnd(10, 2 * kN + 5)})
          for (int dir = 0; dir < R; ++dir) {
            if (R == 3 && Rnd(0, 1)) continue;
            const int op = Rnd(0, 5);
            if (op < 3) c.Flux(nx, dir, tag);
            else if (op < 5) c.Dt(nx, dir, tag);
            else if (W == 1) Completion<R>(nx, tag);
          }
      } catch (const std::exception&) { trace.ev(J().t("a", "exception")); }
      trace.finish();
    }
}
void Part0(int), Part1(int), Part2(int);
#if PART == 0
vh::Trace trace;
std::mt19937_64 rng;
void Part0(int k) { Run<1, 1>(k); Run<1, 2>(k); Run<1, 3>(k); }
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  vh::install(trace, argv[1], vh::thorough() ? 3000 : 200);
  rng.seed(vh::seed());
  const int k = vh::thorough() ? 100 : 8;
  Part0(k); Part1(k); Part2(k);
  std::printf("traces=%lld\n", trace.count);
  std::fclose(trace.out);
}
#elif PART == 1
void Part1(int k) { Run<2, 1>(k); Run<2, 2>(k); }
#else
void Part2(int k) { Run<3, 1>(k); Run<3, 2>(k); }
#endif
