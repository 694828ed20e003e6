// Conformance harness for the wrappers with value semantics: random histories
// on a few slots, around probes that note their life and every call.
#include "fub/core/type_traits.hpp"
#include "vg.hpp"
#include <optional>
#include <stdexcept>
#include "fub/Direction.hpp"
#include "fub/Duration.hpp"
#include "fub/Meta.hpp"
namespace vt { struct Data { int id, touched = 0; }; struct Grid { int id; }; struct Context { int id, touched = 0; }; }
namespace fub { template <> struct GridTraits<vt::Grid> {
  using DataReference = vt::Data&; using PatchLevel = vt::Data; using TagDataHandle = vt::Data&; }; }
#include "fub/AnyBoundaryCondition.hpp"
#include "fub/AnyInitialData.hpp"
#include "fub/AnyTaggingMethod.hpp"
#include "fub/HyperbolicMethod.hpp"
#include "fub/geometry/PolymorphicGeometry.hpp"
#include "fub/core/function_ref.hpp"
#include "fub/CutCellData.hpp"
#include "fub/cutcell_method/AnyMdLimiter.hpp"
using namespace vt;
using fub::Direction; using fub::Duration;
using vh::J; using vg::Rnd;
static vh::Trace g_trace;
static constexpr int kNone = -9;
struct Bomb : std::runtime_error { Bomb() : std::runtime_error("bomb") {} };

static std::set<int> g_live;
static int g_serial = 0, g_bomb = 0;
static std::vector<std::string> g_calls;
static void Log(char t, int obj, int id, int n, const char* m, std::vector<int> args) {
  g_calls.push_back(J().t("t", std::string(1, t)).i("obj", obj).i("id", id).i("n", n).t("m", m).l("args", args).str());
}
// An object of type T; copies and moves are objects of their own.
template <char T> struct Probe {
  int serial, id;
  mutable int n = 0;
  explicit Probe(int i) : serial(++g_serial), id(i) { g_live.insert(serial); }
  Probe(const Probe& o) : serial(0), id(o.id), n(o.n) {
    if (g_bomb && --g_bomb == 0) throw Bomb();
    serial = ++g_serial; g_live.insert(serial);
  }
  Probe(Probe&& o) noexcept : serial(++g_serial), id(o.id), n(o.n) { o.id = -1; g_live.insert(serial); }
  Probe& operator=(const Probe& o) = delete;
  ~Probe() { if (!g_live.erase(serial)) { Log(T, serial, id, n, "destroyed twice", {}); } serial = -1; id = -2; }
  int hit(const char* m, std::vector<int> args) const { ++n; Log(T, serial, id, n, m, args); return 1000 * id + n; }
};
static int I(double x) { return (int)std::lround(x); }
// The concepts. Type A implements the optional parts, type B does not.
template <char T> struct Boundary : Probe<T> {
  using Probe<T>::Probe;
  void FillBoundary(Data& d, const Grid& g, int level) { ++d.touched; this->hit("Fill", {d.id, g.id, level}); }
  void FillBoundary(Data& d, const Grid& g, int level, Direction dir) { ++d.touched; this->hit("FillDir", {d.id, g.id, level, int(dir)}); }
};
struct BoundaryA : Boundary<'A'> { using Boundary::Boundary; void PreAdvanceHierarchy(const Grid& g) { hit("Pre", {g.id}); } };
struct BoundaryB : Boundary<'B'> { using Boundary::Boundary; };
template <char T> struct Initial : Probe<T> {
  using Probe<T>::Probe;
  void InitializeData(Data& d, const Grid& g, int level, Duration t) { ++d.touched; this->hit("Init", {d.id, g.id, level, I(t.count())}); }
};
template <char T> struct Tag : Probe<T> {
  using Probe<T>::Probe;
  void TagCellsForRefinement(Data& d, Grid& g, int level, Duration t) { ++d.touched; this->hit("Tag", {d.id, g.id, level, I(t.count())}); }
};
template <char T> struct Recon : Probe<T> {
  using Probe<T>::Probe;
  void CompleteFromCons(Context& c, int level, Duration dt) { ++c.touched; this->hit("Complete", {c.id, level, I(dt.count())}); }
};
template <char T> struct Integ : Probe<T> {
  using Probe<T>::Probe;
  void UpdateConservatively(Context& c, int level, Duration dt, Direction dir) { ++c.touched; this->hit("Update", {c.id, level, I(dt.count()), int(dir)}); }
};
template <char T> struct Flux : Probe<T> {
  using Probe<T>::Probe;
  Duration ComputeStableDt(Context& c, int level, Direction dir) { ++c.touched; return Duration(this->hit("Dt", {c.id, level, int(dir)})); }
  void ComputeNumericFluxes(Context& c, int level, Duration dt, Direction dir) { ++c.touched; this->hit("Flux", {c.id, level, I(dt.count()), int(dir)}); }
  int GetStencilWidth() const { return this->hit("Width", {}); }
};
struct FluxA : Flux<'A'> {
  using Flux::Flux;
  void PreAdvanceHierarchy(Context& c) { ++c.touched; hit("Pre", {c.id}); }
  void PreSplitStep(Context& c, int level, Duration dt, Direction dir, std::pair<int, int> sub) { ++c.touched; hit("Split", {c.id, level, I(dt.count()), int(dir), sub.first, sub.second}); }
};
struct FluxB : Flux<'B'> { using Flux::Flux; };
struct GeomA : Probe<'A'>, fub::Geometry<2> { // a geometry itself
  using Probe::Probe;
  std::unique_ptr<fub::Geometry<2>> Clone() const override { return std::make_unique<GeomA>(*this); }
  double ComputeDistanceTo(const std::array<double, 2>& x) const override { return hit("Distance", {I(x[0]), I(x[1])}); }
};
struct GeomB : Probe<'B'> { // something that looks like one
  using Probe::Probe;
  double ComputeDistanceTo(const std::array<double, 2>& x) const { return hit("Distance", {I(x[0]), I(x[1])}); }
};
template <char T> struct Limit : Probe<T> {
  using Probe<T>::Probe;
  void LimitGradientsAtIndex(const std::array<fub::StridedDataView<double, 2>, 2>& grad, fub::StridedDataView<const double, 2> u,
                             const fub::CutCellData<2>& geom, const fub::Index<2>& i, const fub::Coordinates<2>& dx) const {
    *grad[0].Span().data() += 1;
    this->hit("Limit", {I(*grad[1].Span().data()), I(*u.Span().data()), I(*geom.volume_fractions.Span().data()), (int)i[0], (int)i[1], I(dx[0]), I(dx[1])});
  }
};

static Data g_data[3] = {{1}, {2}, {3}};
static Grid g_grid[3] = {{1}, {2}, {3}};
static Context g_ctx[3] = {{1}, {2}, {3}};
static Direction Dir() { return Direction(Rnd(0, 2)); }
struct CallInfo { const char* m; std::vector<int> args; int ret = -1; int on = 1; int touched = 0; bool counts = true; };

// What differs between the wrappers.
struct KBoundary {
  using W = fub::AnyBoundaryCondition<Grid>; using A = BoundaryA; using B = BoundaryB;
  static constexpr const char* name = "boundary", *silent = R"([["B","Pre"]])";
  static constexpr bool empty = true, moves = true; static constexpr int casts = 1;
  static CallInfo call(W& w) {
    Data& d = g_data[Rnd(0, 2)]; Grid& g = g_grid[Rnd(0, 2)]; int level = Rnd(0, 9); Direction dir = Dir();
    switch (Rnd(0, 2)) {
    case 0: w.PreAdvanceHierarchy(g); return {"Pre", {g.id}, -1, 0};
    case 1: w.FillBoundary(d, g, level); return {"Fill", {d.id, g.id, level}, -1, d.id, d.touched};
    default: w.FillBoundary(d, g, level, dir); return {"FillDir", {d.id, g.id, level, int(dir)}, -1, d.id, d.touched};
    }
  }
  template <class P> static P* cast(W& w) {
    P* p = w.template Cast<P>(); const P* c = std::as_const(w).template Cast<const P>();
    if (p == c) return p;
    alignas(P) static char wrong[sizeof(P)]; // they differ: neither nothing nor the object
    return reinterpret_cast<P*>(wrong);
  }
};
struct KInitial {
  using W = fub::AnyInitialData<Grid>; using A = Initial<'A'>; using B = Initial<'B'>;
  static constexpr const char* name = "initial", *silent = "[]";
  static constexpr bool empty = true, moves = true; static constexpr int casts = 0;
  static CallInfo call(W& w) {
    Data& d = g_data[Rnd(0, 2)]; const Grid& g = g_grid[Rnd(0, 2)]; int level = Rnd(0, 9), t = Rnd(0, 99);
    w.InitializeData(d, g, level, Duration(t)); return {"Init", {d.id, g.id, level, t}, -1, d.id, d.touched};
  }
};
struct KTag {
  using W = fub::AnyTaggingMethod<Grid>; using A = Tag<'A'>; using B = Tag<'B'>;
  static constexpr const char* name = "tagging", *silent = "[]";
  static constexpr bool empty = true, moves = true; static constexpr int casts = 0;
  static CallInfo call(W& w) {
    Data& d = g_data[Rnd(0, 2)]; Grid& g = g_grid[Rnd(0, 2)]; int level = Rnd(0, 9), t = Rnd(0, 99);
    w.TagCellsForRefinement(d, g, level, Duration(t)); return {"Tag", {d.id, g.id, level, t}, -1, d.id, d.touched};
  }
};
struct KRecon {
  using W = fub::AnyReconstruction<Context>; using A = Recon<'A'>; using B = Recon<'B'>;
  static constexpr const char* name = "reconstruction", *silent = "[]";
  static constexpr bool empty = false, moves = true; static constexpr int casts = 0;
  static CallInfo call(W& w) {
    Context& c = g_ctx[Rnd(0, 2)]; int level = Rnd(0, 9), t = Rnd(0, 99);
    w.CompleteFromCons(c, level, Duration(t)); return {"Complete", {c.id, level, t}, -1, c.id, c.touched};
  }
};
template <class P, class W> P* TryCast(W& w) {
  try { return &fub::AnyCast<P>(w); } catch (std::runtime_error&) { return nullptr; }
}
struct KInteg {
  using W = fub::AnyTimeIntegrator<Context>; using A = Integ<'A'>; using B = Integ<'B'>;
  static constexpr const char* name = "integrator", *silent = "[]";
  static constexpr bool empty = false, moves = true; static constexpr int casts = 1;
  static CallInfo call(W& w) {
    Context& c = g_ctx[Rnd(0, 2)]; int level = Rnd(0, 9), t = Rnd(0, 99); Direction dir = Dir();
    w.UpdateConservatively(c, level, Duration(t), dir); return {"Update", {c.id, level, t, int(dir)}, -1, c.id, c.touched};
  }
  template <class P> static P* cast(W& w) { return TryCast<P>(w); }
};
struct KFlux {
  using W = fub::AnyFluxMethod<Context>; using A = FluxA; using B = FluxB;
  static constexpr const char* name = "flux", *silent = R"([["B","Pre"],["B","Split"]])";
  static constexpr bool empty = false, moves = true; static constexpr int casts = 1;
  static CallInfo call(W& w) {
    Context& c = g_ctx[Rnd(0, 2)]; int level = Rnd(0, 9), t = Rnd(0, 99); Direction dir = Dir();
    std::pair<int, int> sub(Rnd(0, 3), Rnd(4, 9));
    switch (Rnd(0, 4)) {
    case 0: { Duration dt = w.ComputeStableDt(c, level, dir); return {"Dt", {c.id, level, int(dir)}, I(dt.count()), c.id, c.touched}; }
    case 1: w.ComputeNumericFluxes(c, level, Duration(t), dir); return {"Flux", {c.id, level, t, int(dir)}, -1, c.id, c.touched};
    case 2: { const W& cw = w; int r = cw.GetStencilWidth(); return {"Width", {}, r, 0}; }
    case 3: w.PreAdvanceHierarchy(c); return {"Pre", {c.id}, -1, c.id, c.touched};
    default: w.PreSplitStep(c, level, Duration(t), dir, sub); return {"Split", {c.id, level, t, int(dir), sub.first, sub.second}, -1, c.id, c.touched};
    }
  }
  template <class P> static P* cast(W& w) { return TryCast<P>(w); }
};
struct KGeom {
  using W = fub::PolymorphicGeometry<2>; using A = GeomA; using B = GeomB;
  static constexpr const char* name = "geometry", *silent = "[]";
  static constexpr bool empty = false, moves = false; static constexpr int casts = 2;
  static CallInfo call(W& w) {
    std::array<double, 2> x{double(Rnd(-9, 9)), double(Rnd(-9, 9))};
    const W& cw = w; double r = cw.ComputeDistanceTo(x); return {"Distance", {I(x[0]), I(x[1])}, I(r), 0};
  }
  template <class P> static P* cast(W& w) {
    if constexpr (std::is_base_of_v<fub::Geometry<2>, P>) return dynamic_cast<P*>(&w.Base());
    else { auto p = dynamic_cast<fub::GeometryWrapper<2, P>*>(&w.Base()); return p ? &p->base_ : nullptr; }
  }
};
struct KLimit {
  using W = fub::AnyLimiter<2>; using A = Limit<'A'>; using B = Limit<'B'>;
  static constexpr const char* name = "limiter", *silent = "[]";
  static constexpr bool empty = true, moves = true; static constexpr int casts = 0;
  static inline double touched = 0;
  static CallInfo call(W& w) {
    double gy = Rnd(0, 99), u = Rnd(0, 99), vol = Rnd(0, 99);
    auto view = [](auto& x) { using T = std::remove_reference_t<decltype(x)>; fub::layout_stride::mapping<fub::dynamic_extents<2>> m{fub::dynamic_extents<2>(1, 1), {1, 1}};
      return fub::StridedDataView<T, 2>(fub::mdspan<T, 2, fub::layout_stride>(&x, m), {}); };
    fub::CutCellData<2> geom; double v = vol;
    geom.volume_fractions = fub::PatchDataView<const double, 2>(fub::mdspan<const double, 2>(&v, fub::dynamic_extents<2>(1, 1)), {});
    std::array<fub::StridedDataView<double, 2>, 2> grad{view(touched), view(gy)};
    fub::StridedDataView<const double, 2> uu = view(std::as_const(u));
    fub::Index<2> i{Rnd(-9, 9), Rnd(-9, 9)}; fub::Coordinates<2> dx; dx << Rnd(1, 9), Rnd(1, 9);
    const W& cw = w; cw.LimitGradientsAtIndex(grad, uu, geom, i, dx);
    return {"Limit", {I(gy), I(u), I(vol), (int)i[0], (int)i[1], I(dx[0]), I(dx[1])}, -1, 1, I(touched)};
  }
};

template <class K> struct Machine {
  using W = typename K::W; using A = typename K::A; using B = typename K::B;
  static constexpr int N = 4;
  std::optional<W> s[N];
  J& base(J& j) { std::vector<int> live(g_live.begin(), g_live.end()); return j.l("live", live); }
  void note(J j) { g_trace.ev(base(j)); }
  template <class P> void wrap(int d, const char* t) {
    const int id = Rnd(1, 9), n = Rnd(0, 3); int src = id, how = Rnd(0, 3);
    { P p(id); p.n = n;
      if (how == 0) { const P& c = p; s[d].reset(); s[d].emplace(c); src = p.id; }
      else if (how == 1) { s[d].reset(); s[d].emplace(p); src = p.id; }
      else if (how == 2) { s[d].reset(); s[d].emplace(std::move(p)); }
      else { if constexpr (K::moves) { if (s[d]) *s[d] = p; else s[d] = W(p); } else { s[d].reset(); s[d].emplace(p); } src = p.id; }
    }
    note(J().t("a", "wrap").i("d", d + 1).t("t", t).i("id", id).i("n", n).i("srcid", src));
  }
  void copy(int d, int k, bool fail) {
    bool threw = false;
    const bool assign = K::moves && s[d] && (d == k || Rnd(0, 1)) && s[k];
    if (fail && (!s[k] || !assign)) return;
    if (fail) {
      g_bomb = 1;
      try { if constexpr (K::moves) *s[d] = *s[k]; } catch (Bomb&) { threw = true; }
      if (g_bomb) fail = false; // there was nothing to copy
      g_bomb = 0;
    } else if (assign) {
      if constexpr (K::moves) { const W& c = *s[k]; if (Rnd(0, 1)) *s[d] = c; else *s[d] = *s[k]; }
    } else if (d == k) { return; }
    else if (!s[k]) { s[d].reset(); }
    else { s[d].reset(); const W& c = *s[k]; if (Rnd(0, 1)) s[d].emplace(c); else s[d].emplace(*s[k]); }
    if (!fail) note(J().t("a", "copy").i("d", d + 1).i("s", k + 1));
    else note(J().t("a", "fail").i("d", d + 1).i("s", k + 1).b("threw", threw));
  }
  void move(int d, int k) {
    if (d == k) return;
    if constexpr (K::moves) {
      if (!s[k]) s[d].reset();
      else if (s[d] && Rnd(0, 1)) *s[d] = std::move(*s[k]);
      else { s[d].reset(); s[d].emplace(std::move(*s[k])); }
      note(J().t("a", "move").i("d", d + 1).i("s", k + 1));
    }
  }
  template <class P> void cast(int k, const char* t) {
    if constexpr (K::casts > 0) {
      if (!s[k] || (K::casts == 2 && false)) return;
      P* p = K::template cast<P>(*s[k]);
      J j; j.t("a", "cast").i("s", k + 1).t("t", t).b("found", p != nullptr);
      const int poke = Rnd(0, 50);
      j.i("obj", p ? p->serial : 0).i("id", p ? p->id : 0).i("n", p ? p->n : 0).i("k", poke);
      if (p) p->n += poke;
      note(j);
    }
  }
  void step() {
    const int d = Rnd(0, N - 1), k = Rnd(0, N - 1);
    switch (Rnd(0, 11)) {
    case 0: wrap<A>(d, "A"); break;
    case 1: wrap<B>(d, "B"); break;
    case 2: case 3: copy(d, k, false); break;
    case 4: case 5: move(d, k); break;
    case 6: if constexpr (K::moves) if (d != k && s[d] && s[k]) { std::swap(*s[d], *s[k]); note(J().t("a", "swap").i("d", d + 1).i("s", k + 1)); } break;
    case 7: if (Rnd(0, 1)) s[d].reset(); else { s[d].reset(); if constexpr (K::empty) s[d].emplace(); }
      note(J().t("a", "clear").i("d", d + 1)); break;
    case 8: if (Rnd(0, 1)) cast<A>(k, "A"); else cast<B>(k, "B"); break;
    case 9: copy(d, k, true); break;
    default:
      if (!s[k] || (!K::empty && !alive(k))) return;
      g_calls.clear();
      CallInfo c = K::call(*s[k]);
      if (c.on == 0) { c.on = 4; calls4 += (int)g_calls.size(); c.touched = calls4; }
      note(J().t("a", "call").i("s", k + 1).t("m", c.m).l("args", c.args).i("ret", c.ret).i("on", c.on).i("touched", c.touched).raw("calls", vh::List(g_calls)));
    }
  }
  int calls4 = 0;
  // moved-from wrappers that may not be called: tell them by a copy
  bool alive(int k) { const std::size_t n = g_live.size(); W c(*s[k]); return g_live.size() > n; }
  static void run(int traces, int steps) {
    for (int t = 0; t < traces; ++t) {
      for (int i = 0; i < 3; ++i) g_data[i].touched = g_ctx[i].touched = 0;
      if constexpr (std::is_same_v<K, KLimit>) KLimit::touched = 0;
      g_live.clear(); g_serial = 0;
      g_trace.start(J().t("kind", K::name).i("slots", N).i("data", 4).raw("silent", K::silent).str());
      { Machine m;
        for (int i = 0; i < steps; ++i) m.step();
        for (int i = 0; i < N; ++i) { m.s[i].reset(); m.note(J().t("a", "clear").i("d", i + 1)); } }
      g_trace.finish();
    }
  }
};

// References to callables: copies refer to the same object.
static void Refs(int traces, int steps) {
  for (int t = 0; t < traces; ++t) {
    g_live.clear(); g_serial = 0; int calls4 = 0;
    g_trace.start(J().t("kind", "ref").i("slots", 3).i("data", 4).raw("silent", "[]").str());
    Probe<'A'> a(1), a2(2); Probe<'B'> b(3);
    auto fa = [&a](int x, double y) { return a.hit("call", {x, I(y)}); };
    auto fa2 = [&a2](int x, double y) { return a2.hit("call", {x, I(y)}); };
    struct Fn { Probe<'B'>* p; int operator()(int x, double y) { return p->hit("call", {x, I(y)}); } } fb{&b};
    using F = fub::function_ref<int(int, double)>;
    std::optional<F> s[3];
    for (int i = 0; i < steps; ++i) {
      const int d = Rnd(0, 2), k = Rnd(0, 2);
      switch (Rnd(0, 4)) {
      case 0: {
        int w = Rnd(0, 2); s[d].reset();
        if (w == 0) s[d].emplace(fa); else if (w == 1) s[d].emplace(fa2); else s[d].emplace(fb);
        auto note = [&](auto& p, const char* ty) { g_trace.ev(J().t("a", "wrap").i("d", d + 1).t("t", ty).i("id", p.id).i("n", p.n).i("srcid", p.id).i("obj", p.serial).raw("live", "[]")); };
        if (w == 0) note(a, "A"); else if (w == 1) note(a2, "A"); else note(b, "B");
        break; }
      case 1: {
        if (!s[k] || d == k) break;
        if (s[d] && Rnd(0, 1)) { if (Rnd(0, 1)) *s[d] = *s[k]; else { const F& c = *s[k]; *s[d] = c; } }
        else { s[d].reset(); if (Rnd(0, 1)) s[d].emplace(*s[k]); else { const F& c = *s[k]; s[d].emplace(c); } }
        g_trace.ev(J().t("a", "copy").i("d", d + 1).i("s", k + 1).raw("live", "[]")); break; }
      default:
        if (!s[k]) break;
        g_calls.clear(); int x = Rnd(-99, 99), y = Rnd(-99, 99), r = (*s[k])(x, y); calls4 += (int)g_calls.size();
        g_trace.ev(J().t("a", "call").i("s", k + 1).t("m", "call").l("args", std::vector<int>{x, y}).i("ret", r).i("on", 4).i("touched", calls4).raw("calls", vh::List(g_calls)).raw("live", "[]"));
      }
    }
    g_trace.finish();
  }
}
int main(int, char** argv) {
  vg::rng().seed(vh::seed());
  vh::install(g_trace, argv[1], 300);
  const int n = vh::thorough() ? 2000 : 150;
  Machine<KBoundary>::run(n, 60); Machine<KInitial>::run(n, 60); Machine<KTag>::run(n, 60);
  Machine<KRecon>::run(n, 60); Machine<KInteg>::run(n, 60); Machine<KFlux>::run(n, 60);
  Machine<KGeom>::run(n, 60); Machine<KLimit>::run(n, 60);
  Refs(n, 60);
  std::fclose(g_trace.out);
  std::printf("%lld traces\n", g_trace.count);
}
