// Asks the real index calculus, views, iteration and spans for every small
// case, and records the answers for comparison with the specification.
#include "vh.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/ForEach.hpp"
#include "fub/PatchDataView.hpp"
#include "fub/StateRow.hpp"
#include "fub/core/mdspan.hpp"
#include "fub/core/span.hpp"
#include <functional>
using namespace fub;
using vh::J;
static vh::Trace trace;
static std::mt19937_64 rng(7);
static int Rnd(int lo, int hi) { return lo + static_cast<int>(rng() % static_cast<unsigned>(hi - lo + 1)); }
static int in_trace = 0;
static void Flush(bool force = false) {
  if (in_trace >= 40 || (force && in_trace)) { trace.finish(); in_trace = 0; trace.start("{}"); }
}
static void Ev(const J& j) { trace.ev(j); ++in_trace; Flush(); }
// every question is answered within a guard: an exception becomes an event
template <class F> static void Ask(const char* what, F f) {
  try { f(); } catch (const std::exception&) { Ev(J().t("a", std::string("exception in ") + what)); }
}
template <std::size_t N> static std::string S(const std::array<std::ptrdiff_t, N>& a) {
  std::vector<std::string> v; for (auto x : a) v.push_back(std::to_string(x)); return vh::List(v);
}
static std::string S(const std::vector<std::ptrdiff_t>& a) {
  std::vector<std::string> v; for (auto x : a) v.push_back(std::to_string(x)); return vh::List(v);
}
template <int R> static std::string S(const IndexBox<R>& b) { return "[" + S(b.lower) + "," + S(b.upper) + "]"; }
template <int R> static IndexBox<R> RndBox(int lo, int hi, int maxext, bool empty_ok) {
  IndexBox<R> b;
  for (int d = 0; d < R; ++d) {
    b.lower[d] = Rnd(lo, hi);
    b.upper[d] = b.lower[d] + Rnd(empty_ok && Rnd(0, 3) == 0 ? 0 : 1, maxext);
  }
  return b;
}
// all cells of a box, first direction fastest (own enumeration)
template <int R, class F> static void Cells(const IndexBox<R>& b, F f) {
  for (int d = 0; d < R; ++d) if (b.upper[d] <= b.lower[d]) return;
  Index<R> i = b.lower;
  for (;;) {
    f(i);
    int d = 0;
    while (d < R && ++i[d] == b.upper[d]) { i[d] = b.lower[d]; ++d; }
    if (d == R) return;
  }
}
template <int R> static void Boxes(const IndexBox<R>& x, const IndexBox<R>& y) {
  Ask("boxes", [&] {
    Ev(J().t("a", "contains").raw("x", S(x)).raw("y", S(y)).b("res", Contains(x, y)));
    Ev(J().t("a", "intersect").raw("x", S(x)).raw("y", S(y)).raw("res", S(Intersect(x, y))));
    Ev(J().t("a", "equal").raw("x", S(x)).raw("y", S(y)).b("eq", x == y).b("ne", x != y));
    Ev(J().t("a", "containsidx").raw("x", S(x)).raw("i", S(y.lower)).b("res", Contains(x, y.lower)));
    Ev(J().t("a", "containsidx").raw("x", S(x)).raw("i", S(y.upper)).b("res", Contains(x, y.upper)));
  });
}
template <int R> static void BoxOps(const IndexBox<R>& x) {
  Ask("box operations", [&] {
    Boxes(x, x);
    for (int d = 0; d < std::min(R, 3); ++d) {
      const Direction dir = static_cast<Direction>(d);
      const int l = Rnd(-1, 3), r = Rnd(-1, 3), n = Rnd(-4, 4);
      Ev(J().t("a", "grow").raw("x", S(x)).i("dir", d + 1).i("l", l).i("r", r).raw("res", S(Grow(x, dir, {l, r}))));
      Ev(J().t("a", "shrink").raw("x", S(x)).i("dir", d + 1).i("l", l).i("r", r).raw("res", S(Shrink(x, dir, {l, r}))));
      Ev(J().t("a", "shift").raw("i", S(x.lower)).i("dir", d + 1).i("n", n).raw("res", S(Shift(x.lower, dir, n))));
      Ev(J().t("a", "leftto").raw("i", S(x.lower)).i("dir", d + 1).i("n", n).raw("res", S(LeftTo(x.lower, dir, n))));
      Ev(J().t("a", "rightto").raw("i", S(x.upper)).i("dir", d + 1).i("n", n).raw("res", S(RightTo(x.upper, dir, n))));
      Ev(J().t("a", "leftto").raw("i", S(x.lower)).i("dir", d + 1).i("n", 1).raw("res", S(LeftTo(x.lower, dir))));
      Ev(J().t("a", "rightto").raw("i", S(x.upper)).i("dir", d + 1).i("n", 1).raw("res", S(RightTo(x.upper, dir))));
      Ev(J().t("a", "embedindex").raw("i", S(x.lower)).i("dir", d + 1).raw("res", S(EmbedIndex(x.lower, dir))));
    }
    const int l = Rnd(-3, 3), u = l + Rnd(0, 3);
    if constexpr (R < 4) Ev(J().t("a", "embed").raw("x", S(x)).i("l", l).i("r", u).raw("res", S(Embed<R + 1>(x, {l, u}))));
    Ev(J().t("a", "project").raw("x", S(x)).i("r", 1).raw("res", S(Project<1>(x))));
    if constexpr (R > 1) Ev(J().t("a", "project").raw("x", S(x)).i("r", R - 1).raw("res", S(Project<R - 1>(x))));
    for (int w : {0, 1, 3})
      Ev(J().t("a", "neighborhood").raw("i", S(x.upper)).i("w", w).raw("res", S(Neighborhood<R>(x.upper, w))));
  });
}
template <int R> static void Each(const IndexBox<R>& x) {
  struct Count {
    std::vector<Index<R>>* seen; int n = 0;
    void operator()(std::ptrdiff_t i) { Push({i}); }
    void operator()(std::ptrdiff_t i, std::ptrdiff_t j) { Push({i, j}); }
    void operator()(std::ptrdiff_t i, std::ptrdiff_t j, std::ptrdiff_t k) { Push({i, j, k}); }
    void operator()(std::ptrdiff_t i, std::ptrdiff_t j, std::ptrdiff_t k, std::ptrdiff_t l) { Push({i, j, k, l}); }
    void Push(std::vector<std::ptrdiff_t> v) {
      if (++n > 3000) throw vh::BudgetExceeded();
      Index<R> i; for (int d = 0; d < R; ++d) i[d] = v[d]; seen->push_back(i);
    }
  };
  auto run = [&](const char* kind, const IndexBox<R>& b, auto f) {
    Ask(kind, [&] {
      std::vector<Index<R>> seen;
      Count c = f(Count{&seen});
      std::vector<std::string> s; for (auto& i : seen) s.push_back(S(i));
      Ev(J().t("a", "foreach").t("kind", kind).raw("x", S(b)).raw("seen", vh::List(s)).i("returned", c.n));
    });
  };
  run("box", x, [&](Count c) { return ForEachIndex(x, c); });
  std::array<std::ptrdiff_t, R> e, st;
  IndexBox<R> z;
  std::ptrdiff_t s = 1;
  for (int d = 0; d < R; ++d) {
    e[d] = x.upper[d] - x.lower[d]; z.lower[d] = 0; z.upper[d] = e[d];
    st[d] = s; s *= (e[d] ? e[d] : 1) + 1;
  }
  run("layout_left", z, [&](Count c) { return ForEachIndex(layout_left::mapping<dynamic_extents<R>>(dynamic_extents<R>(e)), c); });
  run("layout_stride", z, [&](Count c) { return ForEachIndex(layout_stride::mapping<dynamic_extents<R>>(dynamic_extents<R>(e), st), c); });
}
template <class V> static std::string Addr(const V& v, const double* base, bool scalar_access) {
  constexpr int R = V::rank();
  std::vector<std::ptrdiff_t> a;
  IndexBox<R> b = v.Box();
  Cells<R>(b, [&](const Index<R>& i) {
    if (!scalar_access) a.push_back(&v(i) - base);
    else a.push_back(std::apply([&](auto... is) { return &v(is...) - base; }, i));
  });
  return S(a);
}
template <class V> static void ShowView(const V& v, const double* base, const std::string& box, std::ptrdiff_t off, const std::string& strides) {
  constexpr int R = V::rank();
  std::vector<std::ptrdiff_t> e;
  for (int d = 0; d < R; ++d) e.push_back(v.Extent(d));
  const std::array<std::ptrdiff_t, R> ae = AsArray(v.Extents());
  std::vector<std::ptrdiff_t> e2(ae.begin(), ae.end());
  if (e2 != e) e.clear();
  Ev(J().t("a", "view").raw("x", box).i("off", off).raw("st", strides).raw("box", S(v.Box())).raw("ext", S(e))
         .raw("addr", Addr(v, base, false)).raw("addr2", Addr(v, base, true))
         .i("first", v.Span().begin() - base).i("len", v.Span().size()));
}
template <int R> static void Views() {
  const IndexBox<R> all = RndBox<R>(-3, 3, 5, false);
  std::array<std::ptrdiff_t, R> e, st;
  std::ptrdiff_t s = 1;
  for (int d = 0; d < R; ++d) { e[d] = all.upper[d] - all.lower[d]; st[d] = s; s *= e[d]; }
  std::vector<double> mem(s + 8);
  const double* base = mem.data();
  Ask("views", [&] {
    PatchDataView<double, R> v(mdspan<double, R>(mem.data(), e), all.lower);
    ShowView(v, base, S(all), 0, S(st));
    PatchDataView<const double, R> c(v);
    ShowView(c, base, S(all), 0, S(st));
    for (int k = 0; k < 3; ++k) {
      IndexBox<R> sub;
      std::ptrdiff_t off = 0;
      for (int d = 0; d < R; ++d) {
        sub.lower[d] = Rnd(all.lower[d], all.upper[d] - 1);
        sub.upper[d] = k == 2 && Rnd(0, 2) == 0 ? sub.lower[d] : Rnd(sub.lower[d] + 1, all.upper[d]);
        off += (sub.lower[d] - all.lower[d]) * st[d];
      }
      if (k == 1) { sub = all; off = 0; }
      auto w = v.Subview(sub);
      ShowView(w, base, S(sub), off, S(st));
      PatchDataView<const double, R, layout_stride> cw(w);
      ShowView(cw, base, S(sub), off, S(st));
      if (k == 0) {
        IndexBox<R> sub2 = sub; std::ptrdiff_t off2 = off;
        for (int d = 0; d < R; ++d) {
          sub2.lower[d] = Rnd(sub.lower[d], sub.upper[d] - 1);
          sub2.upper[d] = Rnd(sub2.lower[d] + 1, sub.upper[d]);
          off2 += (sub2.lower[d] - sub.lower[d]) * st[d];
        }
        ShowView(w.Subview(sub2), base, S(sub2), off2, S(st));
      }
      if constexpr (R > 1) {
        bool empty = false;
        for (int d = 0; d < R; ++d) empty = empty || sub.upper[d] == sub.lower[d];
        if (!empty) {
          const int comp = Rnd(0, static_cast<int>(sub.upper[R - 1] - sub.lower[R - 1]) - 1);
          std::array<std::ptrdiff_t, R - 1> st1; std::copy_n(st.begin(), R - 1, st1.begin());
          ShowView(SliceLast(w, comp), base, S(Project<R - 1>(sub)), off + comp * st[R - 1], S(st1));
          const int c2 = Rnd(0, static_cast<int>(e[R - 1]) - 1);
          ShowView(SliceLast(v, c2), base, S(Project<R - 1>(all)), c2 * st[R - 1], S(st1));
          // access by cell and component
          std::vector<std::ptrdiff_t> a;
          const std::ptrdiff_t pc = all.lower[R - 1] + c2;
          Cells<R - 1>(Project<R - 1>(all), [&](const Index<R - 1>& i) { a.push_back(&v(i, static_cast<int>(pc)) - base); });
          Ev(J().t("a", "view").raw("x", S(Project<R - 1>(all))).i("off", c2 * st[R - 1]).raw("st", S(st1)).raw("box", S(Project<R - 1>(all)))
                 .raw("ext", S(std::vector<std::ptrdiff_t>(e.begin(), e.begin() + R - 1)))
                 .raw("addr", S(a)).raw("addr2", S(a)).i("first", c2 * st[R - 1]).i("len", 1000000));
        }
      }
    }
  });
}
template <int R, class L> struct Slot {
  std::vector<double> mem; IndexBox<R> box; std::ptrdiff_t off; std::array<std::ptrdiff_t, R> st;
  PatchDataView<double, R, L> view;
};
template <int R, class L> static Slot<R, L> MakeSlot(const IndexBox<R>& box) {
  Slot<R, L> s;
  IndexBox<R> all = box;
  if (std::is_same_v<L, layout_stride>) for (int d = 0; d < R; ++d) { all.lower[d] -= Rnd(0, 2); all.upper[d] += Rnd(0, 2); }
  std::array<std::ptrdiff_t, R> e;
  std::ptrdiff_t n = 1;
  for (int d = 0; d < R; ++d) { e[d] = all.upper[d] - all.lower[d]; s.st[d] = n; n *= e[d]; }
  s.mem.resize(n + 4); s.box = box; s.off = 0;
  for (int d = 0; d < R; ++d) s.off += (box.lower[d] - all.lower[d]) * s.st[d];
  PatchDataView<double, R> v(mdspan<double, R>(s.mem.data(), e), all.lower);
  if constexpr (std::is_same_v<L, layout_stride>) s.view = v.Subview(box); else s.view = v;
  return s;
}
template <class... Slots> static void Rows(Slots&... s) {
  Ask("rows", [&] {
    std::vector<std::string> views{(J().raw("x", S(s.box)).i("off", s.off).raw("st", S(s.st)).str())...};
    std::vector<std::string> calls;
    ForEachRow(std::tuple{s.view...}, [&](auto... rows) {
      if (calls.size() > 500) throw vh::BudgetExceeded();
      std::vector<std::string> one;
      (one.push_back("[" + std::to_string(rows.begin() - s.mem.data()) + "," + std::to_string(rows.size()) + "]"), ...);
      calls.push_back(vh::List(one));
    });
    Ev(J().t("a", "rows").raw("views", vh::List(views)).raw("calls", vh::List(calls)));
  });
}
template <int R> static void AllRows(bool empties) {
  const IndexBox<R> b = RndBox<R>(-2, 2, R == 1 ? 9 : 4, empties);
  IndexBox<R> c = b; // the same cells seen with other indices
  for (int d = 0; d < R; ++d) { const int k = Rnd(-2, 2); c.lower[d] += k; c.upper[d] += k; }
  auto s1 = MakeSlot<R, layout_stride>(b); auto s2 = MakeSlot<R, layout_stride>(c);
  auto s3 = MakeSlot<R, layout_stride>(b); auto l1 = MakeSlot<R, layout_left>(b); auto l2 = MakeSlot<R, layout_left>(c);
  // without padding, a strided view may span its storage completely
  auto s4 = MakeSlot<R, layout_left>(b);
  Slot<R, layout_stride> t; t.mem.swap(s4.mem); t.box = b; t.off = 0; t.st = s4.st; t.view = s4.view.Subview(b);
  Rows(s1); Rows(l1); Rows(t); Rows(s1, s2); Rows(s2, s1, s3); Rows(l1, s1); Rows(s1, l1, t); Rows(l1, l2); Rows(t, s3);
}
template <int R, class L> static void MdSpans(const char* name) {
  Ask("mdspan", [&] {
    std::array<std::ptrdiff_t, R> e, st;
    std::ptrdiff_t n = 1;
    for (int d = 0; d < R; ++d) { e[d] = Rnd(1, 4); }
    for (int d = 0; d < R; ++d) { st[d] = n; n *= e[d] + Rnd(0, 2); }
    std::vector<double> mem(n + 8);
    mdspan<double, R, L> m;
    if constexpr (std::is_same_v<L, layout_stride>)
      m = mdspan<double, R, L>(mem.data(), layout_stride::mapping<dynamic_extents<R>>(dynamic_extents<R>(e), st));
    else m = mdspan<double, R, L>(mem.data(), e);
    mdspan<const double, R, L> cm = m;
    std::vector<std::ptrdiff_t> addr, got, str;
    IndexBox<R> b; for (int d = 0; d < R; ++d) { b.lower[d] = 0; b.upper[d] = e[d]; }
    Cells<R>(b, [&](const Index<R>& i) {
      const std::ptrdiff_t a = &m(i) - mem.data();
      const std::ptrdiff_t a2 = std::apply([&](auto... is) { return &cm(is...) - mem.data(); }, i);
      addr.push_back(a == a2 ? a : -1000);
    });
    for (int d = 0; d < R; ++d) { got.push_back(m.extent(d)); str.push_back(m.stride(d)); }
    Ev(J().t("a", "mdspan").t("layout", name).raw("ext", S(e)).raw("st", S(str)).raw("got", S(got)).i("size", m.size())
           .raw("addr", S(addr)).i("len", m.get_span().size()));
    // subspans with every kind of slice
    auto sub = [&](auto ss, std::vector<std::string> what) {
      std::apply([&](auto... sl) {
        auto w = subspan(m, sl...);
        constexpr int Q = decltype(w)::rank();
        std::vector<std::ptrdiff_t> a, g;
        IndexBox<Q> q;
        for (int d = 0; d < Q; ++d) { g.push_back(w.extent(d)); q.lower[d] = 0; q.upper[d] = w.extent(d); }
        if constexpr (Q > 0) Cells<Q>(q, [&](const Index<Q>& i) { a.push_back(&w(i) - mem.data()); });
        Ev(J().t("a", "subspan").raw("ext", S(e)).raw("st", S(str)).raw("slices", vh::List(what)).raw("got", S(g)).raw("addr", S(a)));
      }, ss);
    };
    auto range = [&](int d) {
      const std::ptrdiff_t a = Rnd(0, static_cast<int>(e[d])), z = Rnd(static_cast<int>(a), static_cast<int>(e[d]));
      return std::pair{std::pair<std::ptrdiff_t, std::ptrdiff_t>(a, z), "[1," + std::to_string(a) + "," + std::to_string(z) + "]"};
    };
    auto point = [&](int d) {
      const std::ptrdiff_t a = Rnd(0, static_cast<int>(e[d]) - 1);
      return std::pair{a, "[0," + std::to_string(a) + ",0]"};
    };
    const std::string A = "[2,0,0]";
    if constexpr (R == 1) {
      auto [r, rs] = range(0);
      sub(std::make_tuple(r), {rs}); sub(std::make_tuple(all), {A});
    } else if constexpr (R == 2) {
      auto [r0, s0] = range(0); auto [r1, s1] = range(1); auto [p0, t0] = point(0); auto [p1, t1] = point(1);
      sub(std::make_tuple(r0, r1), {s0, s1}); sub(std::make_tuple(all, r1), {A, s1}); sub(std::make_tuple(r0, all), {s0, A});
      sub(std::make_tuple(p0, r1), {t0, s1}); sub(std::make_tuple(r0, p1), {s0, t1}); sub(std::make_tuple(all, p1), {A, t1}); sub(std::make_tuple(p0, all), {t0, A});
    } else if constexpr (R == 3) {
      auto [r0, s0] = range(0); auto [r1, s1] = range(1); auto [r2, s2] = range(2);
      auto [p0, t0] = point(0); auto [p1, t1] = point(1); auto [p2, t2] = point(2);
      sub(std::make_tuple(r0, r1, r2), {s0, s1, s2}); sub(std::make_tuple(all, p1, r2), {A, t1, s2}); sub(std::make_tuple(p0, r1, all), {t0, s1, A});
      sub(std::make_tuple(r0, r1, p2), {s0, s1, t2}); sub(std::make_tuple(p0, r1, p2), {t0, s1, t2}); sub(std::make_tuple(p0, p1, all), {t0, t1, A});
      sub(std::make_tuple(all, all, p2), {A, A, t2}); sub(std::make_tuple(r0, p1, p2), {s0, t1, t2});
    }
  });
}
template <class Sp> static void ShowSpan(const double* base, int from, int n, const Sp& s) {
  std::vector<std::ptrdiff_t> items;
  int k = 0;
  for (auto& x : s) { if (++k > 64) break; items.push_back(&x - base); }
  bool rev = true; int j = 0;
  for (auto it = s.rbegin(); it != s.rend() && j < 64; ++it, ++j) rev = rev && j < s.size() && &*it == &s[s.size() - 1 - j];
  rev = rev && j == s.size();
  Ev(J().t("a", "span").i("from", from).i("n", n).i("begin", s.data() - base).i("len", rev ? s.size() : -1).b("empty", s.empty())
         .i("bytes", s.size_bytes()).raw("items", S(items)));
}
static void Spans() {
  double mem[8];
  for (int len = 0; len <= 6; ++len) {
    Ask("span", [&] {
      span<double> s(mem, len);
      ShowSpan(mem, 0, len, s);
      ShowSpan(mem, 0, len, span<double>(mem, mem + len));
      ShowSpan(mem, 0, len, span<const double>(s));
      for (int n = 0; n <= len; ++n) {
        ShowSpan(mem, 0, n, s.first(n));
        ShowSpan(mem, len - n, n, s.last(n));
        ShowSpan(mem, n, len - n, s.subspan(n));
        for (int m = 0; n + m <= len; ++m) ShowSpan(mem, n, m, s.subspan(n, m));
      }
      if (len >= 3) { ShowSpan(mem, 0, 3, s.first<3>()); ShowSpan(mem, len - 3, 3, s.last<3>()); ShowSpan(mem, 1, 2, s.subspan<1, 2>()); }
    });
  }
  Ask("static span", [&] {
    span<double, 5> s(mem, 5);
    ShowSpan(mem, 0, 5, s); ShowSpan(mem, 0, 2, s.first<2>()); ShowSpan(mem, 3, 2, s.last<2>()); ShowSpan(mem, 0, 2, s.first(2));
    ShowSpan(mem, 1, 4, s.last(4)); ShowSpan(mem, 2, 3, s.subspan<2>()); ShowSpan(mem, 2, 2, s.subspan<2, 2>());
    ShowSpan(mem, 2, 3, s.subspan(2)); ShowSpan(mem, 2, 1, s.subspan(2, 1)); ShowSpan(mem, 0, 5, span<double>(s)); ShowSpan(mem, 0, 5, span<const double, 5>(s));
    std::array<double, 4> a; ShowSpan(a.data(), 0, 4, span<double>(a)); ShowSpan(a.data(), 0, 4, span<double, 4>(a));
    std::vector<double> v(3); ShowSpan(v.data(), 0, 3, span<double>(v));
    double c[2]; ShowSpan(c, 0, 2, span<double>(c)); ShowSpan(c, 0, 2, make_span(c));
  });
}
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  vh::install(trace, argv[1], vh::thorough() ? 3000 : 200);
  rng.seed(vh::seed());
  trace.start("{}");
  Spans();
  // all pairs of one-dimensional and small two-dimensional boxes
  for (int a = 0; a < 4; ++a) for (int b = a; b < 4; ++b) for (int c = 0; c < 4; ++c) for (int d = c; d < 4; ++d)
    Boxes<1>({{a}, {b}}, {{c}, {d}});
  const int k = vh::thorough() ? 40 : 1;
  for (int n = 0; n < 60 * k; ++n) {
    Boxes<1>(RndBox<1>(-3, 3, 4, true), RndBox<1>(-3, 3, 4, true));
    for (int m = 0; m < 4; ++m) Boxes<2>(RndBox<2>(-2, 2, 4, true), RndBox<2>(-2, 2, 3, true));
    for (int m = 0; m < 4; ++m) Boxes<3>(RndBox<3>(-1, 1, 3, true), RndBox<3>(-1, 1, 3, true));
    Boxes<4>(RndBox<4>(0, 1, 3, true), RndBox<4>(0, 1, 2, true));
    BoxOps(RndBox<1>(-5, 5, 6, true)); BoxOps(RndBox<2>(-5, 5, 6, true)); BoxOps(RndBox<3>(-5, 5, 6, true)); BoxOps(RndBox<4>(-5, 5, 3, true));
  }
  for (int n = 0; n < 30 * k; ++n) {
    Each(RndBox<1>(-5, 5, 7, true)); Each(RndBox<2>(-5, 5, 5, true)); Each(RndBox<3>(-5, 5, 4, true)); Each(RndBox<4>(-2, 2, 3, true));
    Views<1>(); Views<2>(); Views<3>(); Views<4>();
    for (bool e : {false, true}) { AllRows<1>(e); AllRows<2>(e); AllRows<2>(e); AllRows<3>(e); }
    MdSpans<1, layout_left>("left"); MdSpans<2, layout_left>("left"); MdSpans<3, layout_left>("left"); MdSpans<4, layout_left>("left");
    MdSpans<1, layout_right>("right"); MdSpans<2, layout_right>("right"); MdSpans<3, layout_right>("right");
    MdSpans<1, layout_stride>("stride"); MdSpans<2, layout_stride>("stride"); MdSpans<3, layout_stride>("stride");
  }
  Flush(true);
  std::printf("traces=%lld\n", trace.count);
  std::fclose(trace.out);
}
