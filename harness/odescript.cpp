// RadauSolver around a kernel that does what a script says and records how it
// was called.
#include "fub/core/type_traits.hpp"
#include "vn.hpp"
#include "fub/ode_solver/RadauSolver.hpp"
using namespace vn;
using vh::J;
using namespace fub;
namespace {
std::vector<int> script;
std::size_t turn;
std::vector<std::string> attempts;
double bump;
using rhs_t = void (*)(int*, double*, double*, double*, float*, int*);
using jac_t = void (*)(int*, double*, double*, double*, int*, float*, int*);
using sol_t = void (*)(int*, double*, double*, double*, int*, int*, int*, float*, int*, int*);
} // namespace
extern "C" void radau_(int* n, rhs_t fcn, double* x, double* y, double* xend, double* h, double* rtol, double* atol, int* itol, jac_t jac, int* ijac,
                       int* mljac, int*, void*, int* imas, int*, int*, sol_t solout, int* iout, double* work, int* lwork, int* iwork, int* liwork,
                       float* rpar, int* ipar, int* idid) {
  const int N = *n;
  const int code = turn < script.size() ? script[turn] : -1;
  ++turn;
  V in(y, y + N);
  // the whole work space belongs to the kernel
  for (int i = 20; i < *lwork; ++i) work[i] = 1e300 + i;
  for (int i = 20; i < *liwork; ++i) iwork[i] = 1234567;
  V f(N), jm(std::size_t(N) * N);
  double xm = 0.5 * (*x + *xend);
  int irtrn = 1, nr = 1, ld = N;
  if (*iout) solout(&nr, x, x, y, nullptr, nullptr, n, rpar, ipar, &irtrn);
  fcn(n, &xm, y, f.data(), rpar, ipar);
  if (*ijac) jac(n, &xm, y, jm.data(), &ld, rpar, ipar);
  for (int i = 0; i < N; ++i) y[i] = y[i] + bump + i + code;
  const bool done = code > 0;
  double xe = done ? *xend : xm;
  if (*iout) { ++nr; solout(&nr, x, &xe, y, nullptr, nullptr, n, rpar, ipar, &irtrn); }
  attempts.push_back(J().raw("x", Num(*x)).raw("xend", Num(*xend)).raw("in", Nums(in)).raw("out", Nums(V(y, y + N))).raw("f", Nums(f)).raw("jac", Nums(jm))
                         .raw("xm", Num(xm)).raw("xe", Num(xe)).raw("h", Num(*h)).raw("rtol", Num(*rtol)).raw("atol", Num(*atol)).i("itol", *itol).i("ijac", *ijac)
                         .i("iout", *iout).i("n", N).i("full", *mljac == N).i("imas", *imas).i("lwork", *lwork).i("liwork", *liwork).i("code", code).str());
  *x = xe;
  *idid = code;
}
int main(int, char** argv) {
  vh::Trace t;
  vh::install(t, argv[1], 120);
  vg::rng().seed(vh::seed() * 31337 + 3);
  const int runs = vh::thorough() ? 1200 : 250;
  for (int run = 0; run < runs; ++run) {
    t.start(J().t("kind", "script").str());
    auto solver = std::make_unique<RadauSolver>();
    if (Rnd(0, 1)) { solver->relative_tolerance = LogU(1e-12, 1e-3); solver->absolute_tolerance = LogU(1e-12, 1e-3); solver->initial_time_step_size = LogU(1e-9, 1e-2); }
    const double rtol = solver->relative_tolerance, atol = solver->absolute_tolerance, h = solver->initial_time_step_size;
    std::unique_ptr<OdeSolver> s = std::move(solver);
    const int calls = Rnd(1, 4);
    for (int k = 0; k < calls; ++k) {
      if (Rnd(0, 3) == 0) s = s->Clone();
      const int n = Rnd(1, 6);
      V y0(n);
      for (double& v : y0) v = U(-2, 2);
      const double t0 = Rnd(0, 1) ? 0.0 : U(-3, 3), dt = Rnd(0, 4) ? LogU(1e-3, 2) : -LogU(1e-3, 2);
      static const int codes[] = {1, 1, 1, 2, -1, -2, -3, -3, -3, -4, -42, -7};
      script = {codes[Rnd(0, 11)], codes[Rnd(0, 10)], codes[Rnd(0, 10)]};
      if (Rnd(0, 3) == 0) script = {-3, 1, 1};
      turn = 0;
      attempts.clear();
      bump = U(0.1, 1);
      const bool fb = Rnd(0, 1), jc = Rnd(0, 1);
      std::vector<std::string> seen, asked, jacs;
      auto rhs = [&](span<double> f, span<const double> y, double x) {
        asked.push_back(J().raw("t", Num(x)).raw("y", Nums(y)).str());
        for (int i = 0; i < f.size(); ++i) f[i] = 10 * x + y[i] + i;
      };
      auto see = [&](span<const double> y, double x) { seen.push_back(J().raw("t", Num(x)).raw("y", Nums(y)).str()); };
      auto jac = [&](span<double> m, span<const double> y, double x) {
        jacs.push_back(J().raw("t", Num(x)).raw("y", Nums(y)).i("size", int(m.size())).str());
        for (int i = 0; i < m.size(); ++i) m[i] = i + x;
      };
      V y = y0;
      std::string out = "ok";
      try {
        if (fb && jc) s->Integrate(rhs, y, t0, dt, see, jac);
        else if (fb) s->Integrate(rhs, y, t0, dt, OdeSolver::feedback_type(see));
        else if (jc) s->Integrate(rhs, y, t0, dt, OdeSolver::jacobian_type(jac));
        else s->Integrate(rhs, y, t0, dt);
      }
      catch (radau_error::InputIsNotConsistent&) { out = "inconsistent"; }
      catch (radau_error::LargerNMaxIsNeeded&) { out = "nmax"; }
      catch (radau_error::StepSizeBecomesTooSmall&) { out = "small"; }
      catch (radau_error::MatrixIsRepeatedlySingular&) { out = "singular"; }
      catch (radau_error::RhsEvaluatesToNaN&) { out = "nan"; }
      catch (std::logic_error&) { out = "unknown"; }
      t.ev(J().t("a", "script").raw("t0", Num(t0)).raw("t1", Num(t0 + dt)).raw("dt", Num(dt)).raw("y0", Nums(y0)).raw("y", Nums(y)).t("out", out)
               .raw("rtol", Num(rtol)).raw("atol", Num(atol)).raw("h", Num(h)).b("fb", fb).b("jc", jc).i("n", n)
               .raw("codes", "[" + std::to_string(script[0]) + "," + std::to_string(script[1]) + "," + std::to_string(script[2]) + "]")
               .raw("attempts", vh::List(attempts)).raw("seen", vh::List(seen)).raw("asked", vh::List(asked)).raw("jacs", vh::List(jacs)));
    }
    t.finish();
  }
}
