// Conformance harness for geometries: random polygons, cones, half spaces and
// tubes, and random trees of unions, complements and motions above them.
#include "fub/core/type_traits.hpp"
#include "vn.hpp"
#include <cmath>
#include <fstream>
#include "fub/geometry/Cone.hpp"
#include "fub/geometry/ExpandTube.hpp"
#include "fub/geometry/Halfspace.hpp"
#include "fub/geometry/Invert.hpp"
#include "fub/geometry/Polygon.hpp"
#include "fub/geometry/PolymorphicGeometry.hpp"
#include "fub/geometry/RotateAroundPoint.hpp"
#include "fub/geometry/RotateAxis.hpp"
#include "fub/geometry/Union.hpp"
using namespace vn;
using vh::J;
using P2 = std::array<double, 2>; using P3 = std::array<double, 3>;
using G2 = PolymorphicGeometry<2>; using G3 = PolymorphicGeometry<3>;
static double g_scale; // largest coordinate of the geometry
static void See(double x) { g_scale = std::max(g_scale, std::abs(x)); }

static Polygon MakePolygon(std::string& s, double c = 1, double off = 0) {
  Polygon::Vector xs, ys;
  const int n = Rnd(0, 3) ? Rnd(3, 12) : Rnd(3, 40);
  const int kind = Rnd(0, 3);
  for (int i = 0; i < n; ++i) {
    double x, y;
    if (kind == 0) { double a = 6.28318530717958648 * i / n, r = U(0.3, 1); x = r * std::cos(a); y = r * std::sin(a); }   // star-shaped
    else if (kind == 1) { x = U(-1, 1); y = U(-1, 1); }                        // crosses itself
    else if (kind == 2) { x = Rnd(-3, 3) / 3.0; y = Rnd(-3, 3) / 3.0; }        // horizontal edges, repeated points
    else { x = i % 2 ? U(-1, 1) : (xs.empty() ? 0.5 : xs.back() / c); y = i % 2 ? (ys.empty() ? 0 : (ys.back() - off) / c) : U(-1, 1); } // along the axes
    x *= c; y = c * y + off;
    xs.push_back(x); ys.push_back(y); See(x); See(y);
  }
  xs.push_back(xs[0]); ys.push_back(ys[0]);
  s = J().t("k", "polygon").raw("xs", Nums(xs)).raw("ys", Nums(ys)).str();
  return Polygon(xs, ys);
}
static ConeIF MakeCone(std::string& s) {
  P3 b{U(-1, 1), U(-1, 1), U(-1, 1)}; double r = LogU(0.1, 2), h = LogU(0.1, 3); bool in = Rnd(0, 1);
  for (double x : b) See(x);
  See(r); See(h);
  s = J().t("k", "cone").raw("base", Nums(b)).raw("radius", Num(r)).raw("height", Num(h)).b("inside", in).str();
  return ConeIF(b, r, h, in);
}
struct HalfspaceGeometry { Halfspace h; bool v; double ComputeDistanceTo(P3 x) const { return v ? h(x[0], x[1], x[2]) : h(Eigen::Vector3d(x[0], x[1], x[2])); } };
static HalfspaceGeometry MakeHalfspace(std::string& s) {
  Eigen::Vector3d n(Rnd(0, 2) ? U(-2, 2) : 0, Rnd(0, 2) ? U(-2, 2) : 0, U(0.1, 2)); double o = U(-1, 1); See(o);
  s = J().t("k", "halfspace").raw("normal", Nums(V{n[0], n[1], n[2]})).raw("offset", Num(o)).str();
  return {Halfspace(n, o), bool(Rnd(0, 1))};
}
struct TubeGeometry { ExpandTube t; bool v; double ComputeDistanceTo(P3 x) const { return v ? t(x[0], x[1], x[2]) : t(x); } };
static TubeGeometry MakeTube(std::string& s) { // up, across, down
  Eigen::Matrix<double, 3, Eigen::Dynamic> p(3, Rnd(4, 8)); const int n = (int)p.cols();
  double x = U(-1, 1), y = U(-1, 1), r = U(0.05, 0.4); See(r);
  std::vector<std::string> pts;
  for (int i = 0; i < n; ++i) {
    p.col(i) << x, y, 0; pts.push_back(Nums(V{x, y, 0})); See(x); See(y);
    if (i == 0) y += U(0.3, 2);
    else if (i == n - 2) { y -= U(0.3, 2); }
    else { x += U(0.3, 1); y += U(-0.3, 0.5); }
  }
  s = J().t("k", "tube").raw("pts", vh::List(pts)).raw("radius", Num(r)).str();
  return {ExpandTube(p, r), bool(Rnd(0, 1))};
}
// trees; the adapters derive privately from what they change
template <std::size_t N> struct Plain { PolymorphicGeometry<N> g; double ComputeDistanceTo(std::array<double, N> x) const { return g.ComputeDistanceTo(x); } };
using F2 = Plain<2>; using F3 = Plain<3>;
static G3 Tree3(std::string& s, int depth);
static G2 Tree2(std::string& s, int depth) {
  std::string c;
  switch (depth <= 0 ? 0 : Rnd(0, 5)) {
  case 1: { G2 b = Tree2(c, depth - 1); s = J().t("k", "invert").raw("g", c).str(); return Invert<F2>(F2{b}); }
  case 2: { G2 b = Tree2(c, depth - 1); double a = Rnd(0, 3) ? U(-7, 7) : 0; P2 o{U(-1, 1), U(-1, 1)}; See(4 * g_scale);
    s = J().t("k", "turn").raw("angle", Num(a)).raw("origin", Nums(o)).raw("g", c).str(); return RotateAroundPoint<F2>(F2{b}, a, o); }
  case 3: { std::vector<G2> gs; std::vector<std::string> cs;
    for (int i = Rnd(1, 3); i > 0; --i) { gs.push_back(Tree2(c, depth - 1)); cs.push_back(c); }
    s = J().t("k", "union").raw("gs", vh::List(cs)).str(); PolymorphicUnion<2> u(gs);
    if (Rnd(0, 1)) return u; auto p = u.Clone(); return static_cast<PolymorphicUnion<2>&>(*p); }
  case 4: { G2 b = Tree2(c, depth - 1); s = J().t("k", "wrap").raw("g", c).str(); G2 d(b); return d; }
  case 5: { G3 b = Tree3(c, depth - 1); s = J().t("k", "invert").raw("g", J().t("k", "wrap").raw("g", c).str()).str(); return Invert<F3>(F3{b}); }
  default: { Polygon p = MakePolygon(c, LogU(0.3, 3));
    if (Rnd(0, 2)) { s = c; return p; }
    double a = U(-7, 7); P2 o{U(-1, 1), U(-1, 1)}; See(4 * g_scale);
    s = J().t("k", "turn").raw("angle", Num(a)).raw("origin", Nums(o)).raw("g", c).str(); return RotateAroundPoint(p, a, o); }
  }
}
static G3 Tree3(std::string& s, int depth) {
  std::string c;
  switch (depth <= 0 ? Rnd(6, 9) : Rnd(0, 9)) {
  case 0: { G3 b = Tree3(c, depth - 1); s = J().t("k", "invert").raw("g", c).str(); return Invert<F3>(F3{b}); }
  case 1: { G2 b = Tree2(c, depth - 1); s = J().t("k", "invert").raw("g", J().t("k", "plane").raw("g", c).str()).str(); return Invert<F2>(F2{b}); }
  case 2: case 3: { std::vector<G3> gs; std::vector<std::string> cs;
    for (int i = Rnd(1, 3); i > 0; --i) { gs.push_back(Tree3(c, depth - 1)); cs.push_back(c); }
    s = J().t("k", "union").raw("gs", vh::List(cs)).str(); return PolymorphicUnion<3>(gs); }
  case 4: { G3 b = Tree3(c, depth - 1); s = J().t("k", "wrap").raw("g", c).str(); G3 d(b); return d; }
  case 5: { Polygon p = MakePolygon(c, LogU(0.3, 3)); s = J().t("k", "invert").raw("g", J().t("k", "revolve").raw("g", c).str()).str(); return Invert<RotateAxis<Polygon>>(RotateAxis<Polygon>(p)); }
  case 6: { Polygon p = MakePolygon(c, LogU(0.3, 3), Rnd(0, 1) ? 1.0 : 0.0); s = J().t("k", "revolve").raw("g", c).str(); return RotateAxis<Polygon>(p); }
  case 7: return MakeCone(s);
  case 8: return MakeHalfspace(s);
  default: return MakeTube(s);
  }
}
template <std::size_t N> std::array<double, N> Point() {
  std::array<double, N> x; const double c = Rnd(0, 1) ? 1 : 2 * g_scale;
  for (double& v : x) v = Rnd(0, 9) ? U(-c, c) : Rnd(-3, 3) / 3.0;
  return x;
}
template <class G, class X> void Note(const G& g, const X& x) {
  double far = g_scale; for (double v : x) far = std::max(far, std::abs(v));
  tr().ev(J().t("a", "value").raw("x", Nums(x)).raw("v", Num(g.ComputeDistanceTo(x))).raw("scale", Num(10 * (far + 1))));
}
static void Begin(const std::string& s) { tr().start(J().raw("g", s).str()); }

static void Read(const char* dir) {
  const std::string path = std::string(dir) + "/points.txt";
  for (int t = 0; t < (vh::thorough() ? 300 : 30); ++t) {
    tr().start(J().raw("g", J().t("k", "file").str()).str());
    std::string text, nl = "\n"; std::vector<std::string> want;
    const int lines = Rnd(0, 12);
    for (int i = 0; i < lines; ++i) {
      char b[200]; const double x = Rnd(-999, 999) / 8.0, y = Rnd(-999, 999) / 8.0;
      switch (Rnd(0, 7)) {
      case 0: text += ""; break;
      case 1: text += "# comment"; break;
      case 2: text += "  "; break;
      case 3: std::snprintf(b, sizeof b, "  %.17g \t %.17g 7 8", x, y); text += b; want.push_back(Nums(V{x, y, 0})); break;
      default: std::snprintf(b, sizeof b, "%.17g %.17g", x, y); text += b; want.push_back(Nums(V{x, y, 0}));
      }
      if (i + 1 < lines || Rnd(0, 1)) text += nl;
    }
    { std::ofstream f(path); f << text; }
    std::vector<std::string> got;
    auto pts = ReadPointsFromFile(path);
    for (int c = 0; c < pts.cols(); ++c) got.push_back(Nums(V{pts(0, c), pts(1, c), pts(2, c)}));
    tr().ev(J().t("a", "read").raw("want", vh::List(want)).raw("got", vh::List(got)));
    tr().finish();
  }
  std::remove(path.c_str());
}
int main(int, char** argv) {
  vg::rng().seed(vh::seed());
  static vh::Trace trace;
  vh::install(trace, argv[1], 300);
  const int n = vh::thorough() ? 10 : 1;
  for (int t = 0; t < 120 * n; ++t) {
    std::string s; g_scale = 0;
    Polygon p = MakePolygon(s, LogU(0.1, 10)); Begin(s);
    for (int i = 0; i < 25; ++i) Note(p, Point<2>());
    for (int i = 0; i < 5; ++i) { const int k = Rnd(0, (int)p.GetXs().size() - 1); Note(p, P2{p.GetXs()[k] + (Rnd(0, 1) ? U(-1, 1) : 0), p.GetYs()[k]}); } // level with a vertex
    trace.finish();
  }
  for (int t = 0; t < 60 * n; ++t) {
    std::string s; g_scale = 0; ConeIF c = MakeCone(s); Begin(s);
    for (int i = 0; i < 30; ++i) Note(c, Point<3>());
    trace.finish();
    g_scale = 0; auto h = MakeHalfspace(s); Begin(s); for (int i = 0; i < 10; ++i) Note(h, Point<3>()); trace.finish();
    g_scale = 0; auto u = MakeTube(s); Begin(s); for (int i = 0; i < 20; ++i) { P3 x = Point<3>(); x[2] *= 0.3; Note(u, x); } trace.finish();
  }
  for (int t = 0; t < 60 * n; ++t) {
    std::string s; g_scale = 0;
    { G2 g = Tree2(s, 3); Begin(s); for (int i = 0; i < 15; ++i) Note(g, Point<2>()); trace.finish(); }
    g_scale = 0;
    { G3 g = Tree3(s, 3); Begin(s); for (int i = 0; i < 15; ++i) Note(g, Point<3>()); trace.finish(); }
  }
  std::string dir = argv[1]; dir = dir.substr(0, dir.rfind('/'));
  Read(dir.c_str());
  std::fclose(trace.out);
  std::printf("%lld traces\n", trace.count);
}
