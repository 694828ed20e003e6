// Runs the real conservative update of patches of every shape, in storage of
// every padding that ends at a page no one may touch, on integer values.
#include "vh.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/HyperbolicPatchIntegrator.hpp"
#include "fub/Execution.hpp"
#include <memory>
#include <sys/mman.h>
using namespace fub;
using vh::J;
static vh::Trace trace;
static std::mt19937_64 rng;
static int Rnd(int lo, int hi) { return lo + static_cast<int>(rng() % static_cast<unsigned>(hi - lo + 1)); }
// memory of exactly n doubles, directly before (or after) a protected page
struct Guarded {
  char* m; std::size_t len; double* p; std::size_t n;
  Guarded(std::size_t n_, bool at_end) : n(n_) {
    const std::size_t page = 4096, body = ((n * 8 + page - 1) / page + 1) * page;
    len = body + 2 * page;
    m = static_cast<char*>(mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (m == MAP_FAILED) std::exit(3);
    mprotect(m, page, PROT_NONE); mprotect(m + page + body, page, PROT_NONE);
    p = reinterpret_cast<double*>(at_end ? m + page + body - n * 8 : m + page);
  }
  ~Guarded() { munmap(m, len); }
  Guarded(const Guarded&) = delete;
};
static const double kPoison = std::numeric_limits<double>::quiet_NaN();
template <std::size_t N> static std::string S(const std::array<std::ptrdiff_t, N>& a) {
  std::vector<std::string> v; for (auto x : a) v.push_back(std::to_string(x)); return vh::List(v);
}
template <int R> static std::string S(const IndexBox<R>& b) { return "[" + S(b.lower) + "," + S(b.upper) + "]"; }
template <int R, class F> static void Cells(const IndexBox<R>& b, F f) {
  for (int d = 0; d < R; ++d) if (b.upper[d] <= b.lower[d]) return;
  Index<R> i = b.lower;
  for (;;) {
    f(i);
    int d = 0;
    while (d < R && ++i[d] == b.upper[d]) { i[d] = b.lower[d]; ++d; }
    if (d == R) return;
  }
}
static long long V(double x) { return vh::Grid(x, 1.0, 0.0); }
template <int R> struct Field {
  IndexBox<R> all, box;
  std::unique_ptr<Guarded> mem;
  std::array<std::ptrdiff_t, R> st;
  StridedDataView<double, R> view;
  static IndexBox<R> Pad(const IndexBox<R>& b) {
    IndexBox<R> a = b;
    for (int d = 0; d < R; ++d) { if (Rnd(0, 1)) a.lower[d] -= Rnd(0, 2); if (Rnd(0, 1)) a.upper[d] += Rnd(0, 2); }
    return a;
  }
  Field(const IndexBox<R>& b, bool pad) : all(pad ? Pad(b) : b), box(b) {
    std::ptrdiff_t n = 1;
    std::array<std::ptrdiff_t, R> e;
    for (int d = 0; d < R; ++d) { e[d] = all.upper[d] - all.lower[d]; st[d] = n; n *= e[d]; }
    mem = std::make_unique<Guarded>(n, Rnd(0, 3) != 0);
    view = PatchDataView<double, R>(mdspan<double, R>(mem->p, e), all.lower).Subview(box);
  }
  double& at(const Index<R>& i) const {
    std::ptrdiff_t o = 0; for (int d = 0; d < R; ++d) o += (i[d] - all.lower[d]) * st[d];
    return mem->p[o];
  }
};
template <class Tag, int R> static void One(const char* tag, int nx, int dir) {
  IndexBox<R> box;
  for (int d = 0; d < R; ++d) {
    box.lower[d] = d + 1 == R ? (Rnd(0, 3) == 0 ? Rnd(-1, 2) : 0) : Rnd(-4, 4);
    box.upper[d] = box.lower[d] + (d == 0 ? nx : Rnd(1, R == 4 ? 2 : 3));
  }
  const int mode = Rnd(0, 3); // storage
  IndexBox<R> faces = box; faces.upper[dir] += 1;
  IndexBox<R> fbox = faces;   // the fluxes may be known on more faces
  if (mode >= 2) for (int d = 0; d < R; ++d) { fbox.lower[d] -= Rnd(0, 1); fbox.upper[d] += Rnd(0, 1); }
  Field<R> next(box, mode != 0), prev(box, mode == 1 || mode == 3), flux(fbox, mode == 3);
  const bool inplace = Rnd(0, 2) == 0; // the previous state is overwritten
  static const int ratios[][2] = {{1, 1}, {3, 1}, {1, 2}, {1, 4}, {5, 4}, {7, 2}};
  const auto& ratio = ratios[Rnd(0, 5)];
  const int num = ratio[0], den = ratio[1];
  double dt = num, dx = den;
  const double scale = std::ldexp(1.0, Rnd(-30, 30));
  dt *= scale; dx *= scale;
  std::vector<long long> before, after, pv, fv;
  Cells<R>(next.all, [&](const Index<R>& i) { next.at(i) = Rnd(-999, 999); });
  Cells<R>(prev.all, [&](const Index<R>& i) { prev.at(i) = kPoison; });
  Cells<R>(flux.all, [&](const Index<R>& i) { flux.at(i) = kPoison; });
  auto& in = inplace ? next : prev;
  Cells<R>(box, [&](const Index<R>& i) { in.at(i) = Rnd(-500, 500); pv.push_back(V(in.at(i))); });
  Cells<R>(fbox, [&](const Index<R>& i) { flux.at(i) = den * Rnd(-50, 50); fv.push_back(V(flux.at(i))); });
  Cells<R>(next.all, [&](const Index<R>& i) { before.push_back(V(next.at(i))); });
  std::vector<double> fcopy(flux.mem->p, flux.mem->p + flux.mem->n), pcopy(prev.mem->p, prev.mem->p + prev.mem->n);
  J cfg; cfg.t("tag", tag).i("rank", R).i("nx", nx).b("inplace", inplace);
  trace.start(cfg.str());
  try {
    HyperbolicPatchIntegrator<Tag> integrator{Tag()};
    integrator.UpdateConservatively(next.view, in.view, flux.view, Duration(dt), dx, static_cast<Direction>(dir));
    Cells<R>(next.all, [&](const Index<R>& i) { after.push_back(V(next.at(i))); });
    const bool same = std::memcmp(fcopy.data(), flux.mem->p, 8 * fcopy.size()) == 0 && std::memcmp(pcopy.data(), prev.mem->p, 8 * pcopy.size()) == 0;
    trace.ev(J().t("a", "update").raw("box", S(box)).raw("all", S(next.all)).raw("fbox", S(fbox)).i("dir", dir + 1).i("num", num).i("den", den)
                 .l("prev", pv).l("flux", fv).l("before", before).l("after", after).b("inputs", same));
  } catch (const std::exception&) { trace.ev(J().t("a", "exception")); }
  trace.finish();
}
template <class Tag> static void All(const char* tag, int rounds) {
  for (int n = 0; n < rounds; ++n) {
    for (int nx = 0; nx <= 9; ++nx) {
      One<Tag, 2>(tag, nx, 0);
      for (int d = 0; d < 2; ++d) One<Tag, 3>(tag, nx, d);
    }
    for (int nx = 0; nx <= 5; ++nx) for (int d = 0; d < 3; ++d) One<Tag, 4>(tag, nx, d);
    One<Tag, 2>(tag, Rnd(10, 40), 0);
  }
}
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  vh::install(trace, argv[1], vh::thorough() ? 3000 : 200);
  rng.seed(vh::seed());
  const int k = vh::thorough() ? 150 : 6;
  All<execution::SequentialTag>("seq", k);
  All<execution::SimdTag>("simd", k);
  All<execution::OpenMpTag>("omp", k);
  All<execution::OpenMpSimdTag>("ompsimd", k);
  std::printf("traces=%lld\n", trace.count);
  std::fclose(trace.out);
}
