// The real RadauSolver on problems whose solutions are known.
#include "fub/core/type_traits.hpp"
#include "vn.hpp"
#include "fub/ode_solver/RadauSolver.hpp"
#include <malloc.h>
using namespace vn;
using vh::J;
using namespace fub;
namespace {
struct Problem {
  std::string kind;
  V p;
  int n;
  void rhs(span<double> f, span<const double> y, double t) const {
    if (kind == "decay") for (int i = 0; i < n; ++i) f[i] = -p[i] * y[i];
    if (kind == "turn") { f[0] = p[0] * y[1]; f[1] = -p[0] * y[0]; }
    if (kind == "logistic") f[0] = p[0] * y[0] * (1 - y[0] / p[1]);
    if (kind == "forced") for (int i = 0; i < n; ++i) f[i] = p[2 * i] * std::cos(p[2 * i + 1] * t);
    if (kind == "stiff") f[0] = -p[0] * (y[0] - std::cos(t)) - std::sin(t);
    if (kind == "chain") { f[0] = -p[0] * y[0]; f[1] = p[0] * y[0] - p[1] * y[1]; f[2] = p[1] * y[1]; }
    if (kind == "bump") for (int i = 0; i < n; ++i) { const double z = (t - p[3 * i + 1]) / p[3 * i + 2]; f[i] = -2 * p[3 * i] * z / p[3 * i + 2] * std::exp(-z * z); }
    if (kind == "nan") f[0] = t > p[0] ? std::nan("") : 1.0;
    if (kind == "allnan") f[0] = std::nan("");
    if (kind == "blowup") f[0] = y[0] * y[0];
  }
  // column by column
  void jac(span<double> m, span<const double> y, double) const {
    for (double& x : m) x = 0;
    if (kind == "decay") for (int i = 0; i < n; ++i) m[i + n * i] = -p[i];
    if (kind == "turn") { m[2] = p[0]; m[1] = -p[0]; }
    if (kind == "logistic") m[0] = p[0] * (1 - 2 * y[0] / p[1]);
    if (kind == "stiff") m[0] = -p[0];
    if (kind == "chain") { m[0] = -p[0]; m[1] = p[0]; m[4] = -p[1]; m[5] = p[1]; }
    if (kind == "blowup") m[0] = 2 * y[0];
  }
};
Problem Make(V& y0, double t0, double& dt) {
  Problem q;
  switch (Rnd(0, 8)) {
  case 0: q.kind = "decay"; q.n = Rnd(1, 9); for (int i = 0; i < q.n; ++i) { q.p.push_back(LogU(0.01, dt > 0 && Rnd(0, 1) ? 1e4 : 3)); y0.push_back(U(-2, 2)); } break;
  case 1: q.kind = "turn"; q.n = 2; q.p = {LogU(0.1, 20)}; y0 = {U(-2, 2), U(-2, 2)}; break;
  case 2: q.kind = "logistic"; q.n = 1; q.p = {LogU(0.1, 3), U(0.5, 3)}; y0 = {U(0.1, 3)}; dt = std::abs(dt); break;
  case 3: q.kind = "forced"; q.n = Rnd(1, 4); for (int i = 0; i < q.n; ++i) { q.p.push_back(U(-2, 2)); q.p.push_back(LogU(0.1, 10)); y0.push_back(U(-2, 2)); } break;
  case 4: q.kind = "stiff"; q.n = 1; dt = std::abs(dt); q.p = {LogU(1, 1e6)}; y0 = {std::cos(t0) + (Rnd(0, 1) ? U(-1, 1) : 0.0)}; break;
  case 5: case 6: { // a bump somewhere in the interval, or close to it
    q.kind = "bump"; q.n = Rnd(1, 3); if (std::abs(dt) < 0.01) dt *= 0.01 / std::abs(dt);
    for (int i = 0; i < q.n; ++i) { q.p.push_back(U(-3, 3)); q.p.push_back(t0 + dt * U(-0.2, 1.2)); q.p.push_back(std::abs(dt) * LogU(0.03, 1)); y0.push_back(U(-2, 2)); }
    break;
  }
  default: q.kind = "chain"; q.n = 3; q.p = {LogU(0.1, 3), 0}; q.p[1] = q.p[0] * U(1.5, 5); y0 = {U(0.1, 2), U(0, 2), U(0, 2)}; break;
  }
  return q;
}
} // namespace
int main(int, char** argv) {
  mallopt(M_PERTURB, 0x5b);
  vh::Trace t;
  vh::install(t, argv[1], 600);
  vg::rng().seed(vh::seed() * 27644437 + 11);
  const int runs = vh::thorough() ? 1500 : 250;
  for (int run = 0; run < runs; ++run) {
    t.start(J().t("kind", "solve").str());
    std::unique_ptr<OdeSolver> s;
    double tol = 1e-12;
    const int made = Rnd(0, 3);
    if (made == 0) s = OdeSolverFactory::GetInstance().MakeSolver("RADAU");
    else {
      auto r = std::make_unique<RadauSolver>();
      if (made == 1) { tol = LogU(1e-10, 1e-6); r->relative_tolerance = tol; r->absolute_tolerance = tol; }
      s = std::move(r);
    }
    if (Rnd(0, 9) == 0) {
      int threw = 0;
      try { OdeSolverFactory::GetInstance().MakeSolver("NOSUCH"); } catch (std::out_of_range&) { threw = 1; }
      t.ev(J().t("a", "factory").i("threw", threw));
    }
    const int calls = Rnd(1, 4);
    for (int k = 0; k < calls; ++k) {
      V y0;
      const double t0 = Rnd(0, 1) ? 0.0 : U(-3, 3);
      double dt = LogU(1e-7, 3) * (Rnd(0, 4) ? 1 : -1);
      Problem q = Make(y0, t0, dt);
      const int bad = Rnd(0, 14);
      if (bad == 0) { q = Problem{"nan", {t0 + 0.5 * std::abs(dt)}, 1}; y0 = {U(0, 1)}; dt = std::abs(dt); }
      if (bad == 1) { q = Problem{"allnan", {}, 1}; y0 = {U(0, 1)}; }
      if (bad == 2) { dt = LogU(0.1, 3); q = Problem{"blowup", {}, 1}; y0 = {U(1.05, 3) / dt}; }
      const bool fb = Rnd(0, 1), jc = Rnd(0, 2) == 0 && q.kind != "forced" && q.kind != "bump";
      V times;
      std::vector<std::string> seen;
      double lo = 1e300, hi = -1e300, jlo = 1e300, jhi = -1e300;
      int sizes = 1, jcalls = 0;
      auto rhs = [&](span<double> f, span<const double> y, double x) {
        lo = std::min(lo, x); hi = std::max(hi, x);
        if (f.size() != q.n || y.size() != q.n) sizes = 0;
        q.rhs(f, y, x);
      };
      auto see = [&](span<const double> y, double x) { times.push_back(x); seen.push_back(Nums(y)); if (y.size() != q.n) sizes = 0; };
      auto jac = [&](span<double> m, span<const double> y, double x) {
        ++jcalls;
        jlo = std::min(jlo, x); jhi = std::max(jhi, x);
        if (m.size() != q.n * q.n || y.size() != q.n) sizes = 0;
        q.jac(m, y, x);
      };
      V y = y0;
      std::string out = "ok";
      const bool cloned = Rnd(0, 2) == 0;
      V yc = y0;
      int same = 1;
      auto go = [&](OdeSolver& o, V& v) {
        if (fb && jc) o.Integrate(rhs, v, t0, dt, see, jac);
        else if (fb) o.Integrate(rhs, v, t0, dt, OdeSolver::feedback_type(see));
        else if (jc) o.Integrate(rhs, v, t0, dt, OdeSolver::jacobian_type(jac));
        else o.Integrate(rhs, v, t0, dt);
      };
      try {
        if (cloned) {
          auto c = s->Clone();
          go(*c, yc);
          times.clear();
          seen.clear();
          jcalls = 0;
        }
        go(*s, y);
        if (cloned && yc != y) same = 0;
      }
      catch (radau_error::Exception& e) {
        out = dynamic_cast<radau_error::RhsEvaluatesToNaN*>(&e) ? "nan" : dynamic_cast<radau_error::StepSizeBecomesTooSmall*>(&e) ? "small" : "other";
      }
      std::vector<std::string> some;
      V when;
      const std::size_t stride = std::max<std::size_t>(1, seen.size() / 6);
      for (std::size_t i = 0; i < seen.size(); ++i)
        if (i < 2 || i + 1 == seen.size() || i % stride == 0) { some.push_back(seen[i]); when.push_back(times[i]); }
      int sorted = 1;
      for (std::size_t i = 1; i < times.size(); ++i) if (!(dt > 0 ? times[i - 1] < times[i] : times[i - 1] > times[i])) sorted = 0;
      t.ev(J().t("a", "solve").t("kind", q.kind).raw("p", Nums(q.p)).raw("t0", Num(t0)).raw("t1", Num(t0 + dt)).raw("y0", Nums(y0)).raw("y", Nums(y))
               .t("out", out).raw("tol", Num(tol)).b("fb", fb).b("jc", jc).i("jcalls", jcalls).i("same", same).i("sizes", sizes).i("sorted", sorted)
               .raw("lo", Num(std::min(lo, jcalls ? jlo : lo))).raw("hi", Num(std::max(hi, jcalls ? jhi : hi))).raw("when", Nums(when)).raw("seen", vh::List(some)));
    }
    t.finish();
  }
}
