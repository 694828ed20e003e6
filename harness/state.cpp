// Moves states, arrays of states, rows and buffers between the memory behind
// views and values.  Memory cells hold their own number at first; everything
// stored later is a fresh number.  Variables are addressed by name here, and
// through the library's own iteration there.
#include "vh.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/Equation.hpp"
#include "fub/StateRow.hpp"
#include "fub/StateUtil.hpp"
#include "fub/ForEach.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/PerfectGasMix.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/equations/Advection.hpp"
#include "fub/equations/Burgers.hpp"
#include <map>
#include <memory>
using namespace fub;
using vh::J;
extern vh::Trace trace;
extern std::mt19937_64 rng;
extern std::vector<double> mem, shadow;
extern double fresh;
#if PART == 0
vh::Trace trace;
std::mt19937_64 rng;
std::vector<double> mem, shadow;
double fresh = 100000;
#endif
static int Rnd(int lo, int hi) { return lo + static_cast<int>(rng() % static_cast<unsigned>(hi - lo + 1)); }
static constexpr int kN = kDefaultChunkSize;

// every variable of any state, by its name
#define VARS(X) X(density) X(momentum) X(energy) X(species) X(passive_scalars) X(pressure) X(speed_of_sound) X(height) X(mass) X(u) X(velocity)
#define HAS(m) template <class S> using has_##m##_t = decltype(std::declval<S&>().m);
VARS(HAS)
template <class S, class F> void Named(S& s, F f) {
#define GO(m) if constexpr (is_detected<has_##m##_t, S>::value) f(#m, s.m);
  VARS(GO)
}
template <class A, class B, class F> void Named2(A& a, B& b, F f) {
#define GO2(m) if constexpr (is_detected<has_##m##_t, A>::value && is_detected<has_##m##_t, B>::value) f(#m, a.m, b.m);
  VARS(GO2)
}
struct Var { std::ptrdiff_t base, cs; std::vector<std::ptrdiff_t> st; int depth; };
using Layout = std::map<std::string, Var>;
static std::string Num(double x) { return std::to_string(vh::Grid(x, 1.0, 0.0)); }
static std::string Diff() {
  std::vector<std::string> w;
  for (std::size_t a = 0; a < mem.size(); ++a) if (std::memcmp(&mem[a], &shadow[a], 8)) {
    w.push_back("[" + std::to_string(a) + "," + Num(mem[a]) + "]");
    shadow[a] = mem[a];
  }
  return vh::List(w);
}
// values: per variable a list (components) of lists (lanes)
static int Rows(double) { return 1; }
template <class A> int Rows(const A& a) { return (int)a.size(); }
template <class S> std::string ScalarVals(const S& s, int = 0) {
  J j;
  Named(s, [&](const char* n, auto& x) {
    std::vector<std::string> v;
    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) v.push_back("[" + Num(x) + "]");
    else for (int c = 0; c < x.size(); ++c) v.push_back("[" + Num(x[c]) + "]");
    j.raw(n, vh::List(v));
  });
  return j.str();
}
template <class S> std::string ArrayVals(const S& s, int n) {
  J j;
  Named(s, [&](const char* name, auto& x) {
    std::vector<std::string> v;
    for (int c = 0; c < x.rows(); ++c) {
      std::vector<std::string> ls;
      for (int i = 0; i < n; ++i) ls.push_back(Num(x(c, i)));
      v.push_back(vh::List(ls));
    }
    j.raw(name, vh::List(v));
  });
  return j.str();
}
template <class S> void Fresh(S& s) {
  Named(s, [&](const char*, auto& x) {
    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) x = fresh++;
    else for (int c = 0; c < x.rows(); ++c) for (int i = 0; i < x.cols(); ++i) x(c, i) = fresh++;
  });
}
template <class S> void Clear(S& s) {
  Named(s, [&](const char*, auto& x) {
    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) x = -7;
    else x.fill(-7);
  });
}
template <std::size_t N> static std::string S(const std::array<std::ptrdiff_t, N>& a) {
  std::vector<std::string> v; for (auto x : a) v.push_back(std::to_string(x)); return vh::List(v);
}

// "SpeedOfSound_1" is component 1 of speed_of_sound
static std::string Canonical(const std::string& n) {
  std::string b; int idx = -1;
  const auto us = n.find('_');
  for (char ch : n.substr(0, us)) { if (std::isupper(ch) && !b.empty()) b += '_'; b += (char)std::tolower(ch); }
  if (us != std::string::npos) idx = std::atoi(n.c_str() + us + 1);
  return "[\"" + b + "\"," + std::to_string(idx) + "]";
}
template <class Eq> struct Rig {
  static constexpr int R = Eq::Rank();
  static constexpr std::size_t sR = R;
  Eq eq;
  std::map<std::string, int> depth;
  View<Complete<Eq>> view;
  Layout layout;
  std::array<std::ptrdiff_t, sR> lo, ext;
  bool common; // one layout for all variables, first stride 1

  void Make() {
    common = Rnd(0, 3) != 0;
    for (std::size_t d = 0; d < sR; ++d) { lo[d] = Rnd(-3, 3); ext[d] = d == 0 ? Rnd(1, 19) : Rnd(1, R == 3 ? 2 : 3); }
    if (Rnd(0, 1)) ext[0] = std::max<std::ptrdiff_t>(ext[0], kN);
    auto pads = [&] { std::array<std::ptrdiff_t, sR> p; for (auto& x : p) x = Rnd(0, 2); return p; };
    auto pad = pads();
    std::ptrdiff_t s0 = 1;
    std::ptrdiff_t next = Rnd(0, 3);
    const bool reverse = Rnd(0, 1); // order of the variables in memory
    auto place = [&](const char* n, int dep) {
      if (!common) { pad = pads(); s0 = Rnd(0, 4) == 0 ? 2 : 1; }
      Var v;
      std::ptrdiff_t st = s0;
      for (std::size_t d = 0; d < sR; ++d) { v.st.push_back(st); st *= ext[d] + pad[d]; }
      v.cs = st + (Rnd(0, 3) == 0 ? Rnd(0, 3) : 0);
      v.depth = dep;
      v.base = next;
      next += v.cs * std::max(dep, 1) + Rnd(0, 2);
      layout[n] = v;
    };
    std::vector<std::pair<const char*, int>> names;
    Named(view, [&](const char* n, auto& pdv) { names.push_back({n, depth.at(n)}); });
    if (reverse) std::reverse(names.begin(), names.end());
    for (auto& n : names) place(n.first, n.second);
    mem.assign(next + 8, 0);
    for (std::size_t a = 0; a < mem.size(); ++a) mem[a] = (double)a;
    shadow = mem;
    Named(view, [&](const char* n, auto& pdv) {
      const Var& v = layout.at(n);
      using P = std::decay_t<decltype(pdv)>;
      constexpr std::size_t PR = P::Rank();
      std::array<std::ptrdiff_t, PR> e{}, st{}, org{};
      for (std::size_t d = 0; d < sR; ++d) { e[d] = ext[d]; st[d] = v.st[d]; org[d] = lo[d]; }
      if constexpr (PR == sR + 1) { e[sR] = v.depth; st[sR] = v.cs; }
      layout_stride::mapping<dynamic_extents<PR>> mapping{dynamic_extents<PR>(e), st};
      pdv = P(mdspan<double, PR, layout_stride>(mem.data() + v.base, mapping), org);
    });
  }
  std::string Cfg(const char* name) {
    J j; j.t("eq", name).i("rank", R).raw("lo", S(lo)).raw("ext", S(ext)).b("common", common);
    J vs;
    for (auto& [n, v] : layout) {
      J x; x.i("b", v.base).i("cs", v.cs).l("st", v.st).i("d", v.depth);
      vs.raw(n.c_str(), x.str());
    }
    j.raw("vars", vs.str());
    std::vector<std::string> cons;
    Conservative<Eq> c(eq);
    Named(c, [&](const char* n, auto&) { cons.push_back(std::string("\"") + n + "\""); });
    j.raw("cons", vh::List(cons));
    std::vector<std::string> a, b;
    for (auto& n : VarNames<Complete<Eq>, std::vector<std::string>>(eq)) a.push_back(Canonical(n));
    for (auto& n : VarNames<Conservative<Eq>, std::vector<std::string>>(eq)) b.push_back(Canonical(n));
    j.raw("names", J().raw("complete", vh::List(a)).raw("cons", vh::List(b)).str());
    return j.str();
  }
  std::array<std::ptrdiff_t, sR> Any(std::ptrdiff_t room) { // a cell with `room` cells to the right
    std::array<std::ptrdiff_t, sR> i;
    for (std::size_t d = 0; d < sR; ++d) i[d] = lo[d] + Rnd(0, (int)(d == 0 ? ext[0] - room : ext[d] - 1));
    return i;
  }
  template <class St> View<St> As() {
    if constexpr (std::is_same_v<St, Complete<Eq>>) return view; else return AsCons(view);
  }
  template <class St> const char* K() { return std::is_same_v<St, Complete<Eq>> ? "complete" : "cons"; }
  J E(const char* a, const char* k) { J j; j.t("a", a).t("k", k); return j; }

  template <class St, class Arr> void Op(int op) {
    const char* k = K<St>();
    View<St> v = As<St>();
    View<const St> cv = AsConst(v);
    St s(eq); Arr as(eq);
    Clear(s); Clear(as);
    const bool rowop = op == 4 || op == 5 || op == 6 || op == 7 || op == 8 || op == 9;
    if (rowop && !common) return;
    switch (op) {
    case 0: { auto i = Any(1); if (Rnd(0, 1)) Load(s, cv, i); else Load(s, v, i);
      trace.ev(E("load", k).raw("i", S(i)).i("n", 1).raw("v", ScalarVals(s)).raw("w", Diff())); } break;
    case 1: { auto i = Any(1); Fresh(s); Store(v, s, i);
      trace.ev(E("store", k).raw("i", S(i)).i("n", 1).raw("v", ScalarVals(s)).raw("w", Diff())); } break;
    case 2: if (ext[0] >= kN) { auto i = Any(kN); Load(as, cv, i);
      trace.ev(E("load", k).raw("i", S(i)).i("n", kN).raw("v", ArrayVals(as, kN)).raw("w", Diff())); } break;
    case 3: if (ext[0] >= kN) { auto i = Any(kN); Fresh(as); Store(v, as, i);
      trace.ev(E("store", k).raw("i", S(i)).i("n", kN).raw("v", ArrayVals(as, kN)).raw("w", Diff())); } break;
    // through pointers: the cells from the first cell on along the row
    case 4: { const int off = Rnd(0, (int)ext[0] - 1); ViewPointer<const St> p = Begin(cv); Advance(p, off); Load(s, p);
      trace.ev(E("load", k).raw("i", S(First(off))).i("n", 1).raw("v", ScalarVals(s)).raw("w", Diff())); } break;
    case 5: if (ext[0] >= kN) { const int off = Rnd(0, (int)ext[0] - kN); auto p = AsConst(Begin(v)); Advance(p, off); Load(as, p);
      trace.ev(E("load", k).raw("i", S(First(off))).i("n", kN).raw("v", ArrayVals(as, kN)).raw("w", Diff())); } break;
    case 6: { const int n = Rnd(0, (int)std::min<std::ptrdiff_t>(kN, ext[0])), off = Rnd(0, (int)ext[0] - n); auto p = Begin(cv); Advance(p, off); LoadN(as, p, n);
      trace.ev(E("load", k).raw("i", S(First(off))).i("n", n).raw("v", ArrayVals(as, n)).raw("w", Diff())); } break;
    case 7: if (ext[0] >= kN) { const int off = Rnd(0, (int)ext[0] - kN); auto p = Begin(v); Advance(p, off); Fresh(as); Store(p, as);
      trace.ev(E("store", k).raw("i", S(First(off))).i("n", kN).raw("v", ArrayVals(as, kN)).raw("w", Diff())); } break;
    case 8: { const int n = Rnd(0, (int)std::min<std::ptrdiff_t>(kN, ext[0])), off = Rnd(0, (int)ext[0] - n); auto p = Begin(v); Advance(p, off); Fresh(as); StoreN(p, as, n);
      trace.ev(E("store", k).raw("i", S(First(off))).i("n", n).raw("v", ArrayVals(as, n)).raw("w", Diff())); } break;
    case 9: { // rows: visited once each, every component where it belongs
      std::vector<std::string> rows;
      auto row = [&](const Row<St>& r, const Row<const St>& cr) {
        auto p = Begin(r); auto e = End(r); auto cp = Begin(cr);
        J j; long len = -1; bool same = true;
        Named2(p, e, [&](const char* n, auto& b, auto& z) {
          using T = std::decay_t<decltype(b)>;
          std::vector<long> v;
          if constexpr (std::is_pointer_v<T>) { v.push_back(b - mem.data()); if (len < 0) len = z - b; else same = same && len == z - b; }
          else for (int c = 0; c < depth.at(n); ++c) v.push_back(b.first - mem.data() + c * b.second);
          j.l(n, v);
        });
        Named2(p, cp, [&](const char*, auto& b, auto& z) {
          if constexpr (std::is_pointer_v<std::decay_t<decltype(b)>>) same = same && b == z; else same = same && b.first == z.first && b.second == z.second; });
        J x; x.raw("p", j.str()).i("len", len).b("same", same);
        rows.push_back(x.str());
      };
      ForEachRow(std::tuple{v, cv}, row);
      trace.ev(E("rows", k).raw("rows", vh::List(rows)).raw("w", Diff()));
    } break;
    case 10: { // one lane of an array of states
      Fresh(as); const int i = Rnd(0, kN - 1); Load(s, as, i);
      trace.ev(E("lane", k).i("i", i).raw("in", ArrayVals(as, kN)).raw("v", ScalarVals(s)).raw("w", Diff())); } break;
    case 11: { // buffers
      int n = 0; Named(s, [&](const char*, auto& x) { n += Rows(x); });
      std::vector<double> buf(n); for (auto& x : buf) x = fresh++;
      CopyFromBuffer(s, buf);
      trace.ev(E("frombuffer", k).l("in", buf).raw("v", ScalarVals(s)));
      if constexpr (std::is_same_v<St, Conservative<Eq>>) {
        Fresh(s); std::vector<double> out(n + 2, -7.0); CopyToBuffer(span<double>(out).subspan(0, n), s);
        trace.ev(E("tobuffer", k).raw("in", ScalarVals(s)).l("out", out));
      }
    } break;
    case 12: { // all components, with those of another kind
      std::vector<std::string> seen; Fresh(s);
      const St& cs = s;
      ForEachComponent([&](const double& x, auto&& y) { seen.push_back("[" + Num(x) + "," + std::to_string(&y(lo) - mem.data()) + "]"); }, cs, v);
      trace.ev(E("components", k).raw("in", ScalarVals(s)).raw("seen", vh::List(seen)));
      St t(eq); trace.ev(E("zero", k).raw("v", ScalarVals(t)));
      Arr at(eq); trace.ev(E("zero", k).raw("v", ArrayVals(at, kN)));
      Fresh(t); std::string a = ScalarVals(s), b = ScalarVals(t); s += t;
      trace.ev(E("plus", k).raw("x", a).raw("y", b).raw("v", ScalarVals(s)));
    } break;
    case 13: { // names and numbers of components
      auto names = VarNames<St, std::vector<std::string>>(eq);
      J ev = E("names", k);
      if constexpr (std::is_same_v<St, Complete<Eq>>) {
        ev.i("count", GetNumberOfComponents(eq, s));
        IndexMapping<Eq> map(eq);
        J m; Named(map, [&](const char* n, auto& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, int>) m.l(n, std::vector<int>{x}); else m.l(n, x); });
        ev.raw("ids", m.str());
        Fresh(s); std::vector<long> gets; 
        for (std::size_t i = 0; i < names.size(); ++i) { const Complete<Eq>& c = s; gets.push_back((long)(Rnd(0, 1) ? GetComponent(eq, s, (int)i) : GetComponent(eq, c, (int)i))); }
        ev.raw("in", ScalarVals(s)).l("gets", gets);
      }
      trace.ev(ev);
    } break;
    case 14: if constexpr (std::is_same_v<St, Complete<Eq>>) {
      Fresh(s); int n = 0; Named(s, [&](const char*, auto& x) { n += Rows(x); });
      const int which = Rnd(-1, n - 1); int c = 0;
      Named(s, [&](const char*, auto& x) {
        if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) { if (c++ == which) x = std::nan(""); }
        else for (int i = 0; i < x.size(); ++i) if (c++ == which) x[i] = std::nan(""); });
      trace.ev(E("nan", k).b("has", which >= 0).b("r", AnyNaN(s)));
    } break;
    }
  }
  std::array<std::ptrdiff_t, sR> First(std::ptrdiff_t off) { auto i = lo; i[0] += off; return i; }
  void Narrow() { // continue with a part of the view
    IndexBox<R> b{lo, {}}; for (std::size_t d = 0; d < sR; ++d) b.upper[d] = lo[d] + ext[d];
    if (Rnd(0, 1)) {
      IndexBox<R> c = b;
      for (std::size_t d = 0; d < sR; ++d) { const int cut = (int)ext[d] - 1; const int l = Rnd(0, std::min(cut, 2)); c.lower[d] += l; c.upper[d] -= Rnd(0, std::min(cut - l, 2)); }
      view = Subview(view, c);
      b = c;
    } else {
      const int d = Rnd(0, R - 1); const int cut = (int)ext[d] - 1; const int l = Rnd(0, std::min(cut, 2)), u = Rnd(0, std::min(cut - l, 2));
      view = Shrink(view, static_cast<Direction>(d), {l, u});
      b.lower[d] += l; b.upper[d] -= u;
    }
    for (std::size_t d = 0; d < sR; ++d) { lo[d] = b.lower[d]; ext[d] = b.upper[d] - b.lower[d]; }
    const IndexBox<R> got = Box<0>(view);
    std::array<std::ptrdiff_t, sR> glo = got.lower, gup = got.upper;
    trace.ev(J().t("a", "narrow").raw("lo", S(lo)).raw("ext", S(ext)).raw("blo", S(glo)).raw("bup", S(gup)));
  }
  void Run(const char* name, int nops) {
    Make();
    fresh = 100000;
    trace.start(Cfg(name));
    try {
      std::vector<int> ops; for (int o = 0; o <= 14; ++o) ops.push_back(o);
      for (int n = 0; n < nops; ++n) {
        const int op = n < 15 ? ops[n] : Rnd(0, 12);
        if (Rnd(0, 1)) Op<Complete<Eq>, CompleteArray<Eq>>(op); else Op<Conservative<Eq>, ConservativeArray<Eq>>(op);
        if (Rnd(0, 7) == 0) Narrow();
      }
    } catch (const std::exception&) { trace.ev(J().t("a", "exception")); }
    trace.finish();
  }
};
template <class Eq> static void Go(const char* name, Eq eq, std::map<std::string, int> depth, int rounds) {
  for (int i = 0; i < rounds; ++i) { Rig<Eq> r{eq}; r.depth = depth; r.Run(name, Rnd(15, 30)); }
}
void Part1(int), Part2(int), Part3(int), Part4(int), Part5(int);
using Depth = std::map<std::string, int>;
inline Depth gas(int n) { return {{"density", 1}, {"momentum", n}, {"energy", 1}, {"pressure", 1}, {"speed_of_sound", 1}}; }
inline Depth mix(int n, int s, int p) { auto m = gas(n); m["species"] = s; m["passive_scalars"] = p; return m; }
[[maybe_unused]] static const std::pair<int, int> kMix[] = {{1, 0}, {2, 1}, {3, 2}, {0, 2}, {0, 0}, {1, 1}};
#if PART == 0
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  vh::install(trace, argv[1], vh::thorough() ? 3000 : 300);
  rng.seed(vh::seed());
  const int k = vh::thorough() ? 400 : 40;
  Part1(k); Part2(k); Part3(k); Part4(k); Part5(k);
  std::printf("traces=%lld\n", trace.count);
  std::fclose(trace.out);
}
#elif PART == 1
void Part1(int k) {
  Go("PerfectGas1", PerfectGas<1>{}, gas(1), k);
  Go("PerfectGas2", PerfectGas<2>{}, gas(2), k);
}
#elif PART == 2
void Part2(int k) {
  Go("PerfectGas3", PerfectGas<3>{}, gas(3), k);
  Go("ShallowWater", ShallowWater{}, {{"height", 1}, {"momentum", 2}}, k);
}
#elif PART == 3
void Part3(int k) {
  for (auto [a, b] : kMix) Go("PerfectGasMix1", PerfectGasMix<1>(PerfectGasConstants{}, a, b), mix(1, a, b), k / 4 + 1);
  Go("Advection2d", Advection2d({1.0, 1.0}), {{"mass", 1}}, k / 2);
}
#elif PART == 4
void Part4(int k) {
  for (auto [a, b] : kMix) Go("PerfectGasMix2", PerfectGasMix<2>(PerfectGasConstants{}, a, b), mix(2, a, b), k / 4 + 1);
}
#elif PART == 5
void Part5(int k) {
  for (auto [a, b] : kMix) Go("PerfectGasMix3", PerfectGasMix<3>(PerfectGasConstants{}, a, b), mix(3, a, b), k / 8 + 1);
  Go("Burgers1d", Burgers1d{}, {{"u", 1}}, k / 2);
}
#endif
