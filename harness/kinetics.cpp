// Chemical kinetics of FlameMasterReactor: rates, and what advancing a reactor
// in time does to its state.
#include "fub/core/type_traits.hpp"
#include "vn.hpp"
#include "fub/equations/ideal_gas_mix/FlameMasterReactor.hpp"
#include "fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"
#include "fub/ode_solver/RadauSolver.hpp"
#include <malloc.h>
#include <memory>
using namespace vn;
using vh::J;
namespace {
constexpr int N = 11;
V Fuel() {
  V y(N, 0.0);
  switch (Rnd(0, 4)) {
  case 0: y[0] = 3.76; y[3] = 1.0; y[6] = U(0.2, 3); break;             // hydrogen and air (moles)
  case 1: y[1] = U(0, 3); y[3] = 1.0; y[6] = U(0.5, 4); break;           // in argon
  case 2: y[8] = U(0.1, 3); y[3] = U(0.2, 1); y[6] = 1; y[7] = U(0, 1); y[10] = LogU(1e-4, 0.1); break;
  case 3: for (double& x : y) x = U(0.001, 1); break;
  default: y[0] = 1; for (int s = 2; s < N; ++s) y[s] = Rnd(0, 1) ? LogU(1e-6, 1) : 0.0; y[6] += 0.1; break;
  }
  return y;
}
std::string State(FlameMasterReactor& r) {
  const FlameMasterReactor& c = r;
  J o;
  o.raw("Y", Nums(c.GetMassFractions())).raw("T", Num(c.GetTemperature())).raw("rho", Num(c.GetDensity()));
  o.raw("p", Num(c.GetPressure())).raw("u", Num(c.GetInternalEnergy())).raw("h", Num(c.GetEnthalpy())).raw("cp", Num(c.GetCp())).raw("cv", Num(c.GetCv()));
  return o.str();
}
void Setup(FlameMasterReactor& r, double Tlo, double Thi) {
  // in any order
  const V x = Fuel();
  const double T = U(Tlo, Thi), p = LogU(2e4, 3e6);
  if (Rnd(0, 1)) { r.SetMoleFractions(x); r.SetTemperature(T); }
  else { r.SetTemperature(T); r.SetMoleFractions(x); }
  r.SetPressure(p);
}
// a solver that plays a script: temperatures at times; clones are numbered
struct Log { std::vector<int> parent{-1}; std::vector<int> used; V yin, times, temps; double t0 = 0, dt = 0; };
struct Scripted : OdeSolver {
  std::shared_ptr<Log> log;
  int id;
  Scripted(std::shared_ptr<Log> l, int i) : log(l), id(i) {}
  void integrate(system_type, span<double> y, double t0, double dt, feedback_type* see, jacobian_type*) const override {
    log->used.push_back(id);
    log->yin.assign(y.begin(), y.end()); log->t0 = t0; log->dt = dt;
    for (std::size_t i = 0; i < log->times.size(); ++i) {
      y[0] = log->temps[i];
      if (see) (*see)(y, t0 + log->times[i]);
    }
  }
  std::unique_ptr<OdeSolver> clone() const override {
    log->parent.push_back(id);
    return std::make_unique<Scripted>(log, int(log->parent.size()) - 1);
  }
};
} // namespace
int main(int, char** argv) {
  mallopt(M_PERTURB, 0x5b);
  vh::Trace t;
  vh::install(t, argv[1], 800);
  vg::rng().seed(vh::seed() * 104729 + 5);
  const int runs = vh::thorough() ? 500 : 90;
  Burke2012 burke;
  for (int run = 0; run < runs; ++run) {
    t.start(J().i("n", run).str());
    auto r = std::make_unique<FlameMasterReactor>(burke);
    const int steps = Rnd(3, 8);
    for (int k = 0; k < steps; ++k) {
      int what = Rnd(0, 12);
      try {
        switch (what) {
        case 0: case 1: case 2: { // rates
          Setup(*r, 250, 3300);
          if (Rnd(0, 2) == 0) r->SetDensity(LogU(1e-2, 20));
          const V cd = [&] { auto s = r->GetProductionRates(); return V(s.begin(), s.end()); }();
          const V w = [&] { auto s = r->GetReactionRates(); return V(s.begin(), s.end()); }();
          t.ev(J().t("a", "rates").raw("o", State(*r)).raw("cd", Nums(cd)).raw("w", Nums(w)));
          break;
        }
        case 3: case 4: { // so short that the rates hardly change
          Setup(*r, 900, 2800);
          const std::string o0 = State(*r);
          double rate = 0;
          for (double x : r->GetProductionRates()) rate += std::abs(x);
          double total = r->GetPressure() / (r->GetUniversalGasConstant() * r->GetTemperature());
          const double dt = std::min(LogU(1e-12, 1e-10), 1e-2 * total / (rate + 1e-300));
          r->Advance(dt);
          t.ev(J().t("a", "short").raw("dt", Num(dt)).raw("o", o0).raw("n", State(*r)));
          break;
        }
        case 5: { // to equilibrium
          Setup(*r, 1500, 2800);
          const std::string o0 = State(*r);
          // the solver may give up near the equilibrium, where round off decides its steps
          try { r->Advance(10.0); }
          catch (radau_error::LargerNMaxIsNeeded&) { t.ev(J().t("a", "gaveup")); r = std::make_unique<FlameMasterReactor>(burke); break; }
          t.ev(J().t("a", "long").raw("dt", Num(10.0)).raw("o", o0).raw("n", State(*r)));
          break;
        }
        case 6: { // nothing happens
          const bool inert = Rnd(0, 1);
          Setup(*r, 250, 2800);
          if (inert) { V x(N, 0.0); x[0] = U(0.1, 1); x[1] = U(0, 1); x[8] = U(0, 1); r->SetMoleFractions(x); r->SetPressure(LogU(2e4, 3e6)); }
          const std::string o0 = State(*r);
          r->Advance(inert ? LogU(1e-9, 1) : 0.0);
          t.ev(J().t("a", "rest").raw("o", o0).raw("n", State(*r)));
          break;
        }
        case 7: { // in two steps
          Setup(*r, 800, 2500);
          FlameMasterReactor two(*r);
          const std::string o0 = State(*r);
          const double dt = LogU(1e-8, 1e-3), f = U(0, 1);
          r->Advance(dt);
          two.Advance(f * dt);
          const std::string mid = State(two);
          two.Advance(dt - f * dt);
          t.ev(J().t("a", "parts").raw("dt", Num(dt)).raw("o", o0).raw("n", State(*r)).raw("mid", mid).raw("two", State(two)));
          break;
        }
        case 8: case 9: { // with feedback
          Setup(*r, 900, 2500);
          FlameMasterReactor plain(*r), find(*r);
          const std::string o0 = State(*r);
          const double dt = LogU(1e-8, 1e-2);
          V times;
          std::vector<std::string> seen;
          bool mine = true;
          r->Advance(dt, [&](span<const double> y, double s, FlameMasterReactor* who) {
            times.push_back(s);
            seen.push_back(Nums(y));
            mine = mine && who == r.get();
          });
          plain.Advance(dt);
          const double at = find.AdvanceAndFindMaxdT(dt);
          // the beginning, the end and some of the states in between
          std::vector<std::string> some;
          V when;
          const std::size_t stride = std::max<std::size_t>(1, seen.size() / 6);
          for (std::size_t i = 0; i < seen.size(); ++i)
            if (i < 2 || i + 1 == seen.size() || i % stride == 0) { some.push_back(seen[i]); when.push_back(times[i]); }
          // a second attempt starts over from the beginning, in two halves
          int sorted = 1, again = 0;
          for (std::size_t i = 1; i < times.size(); ++i)
            if (!(times[i - 1] < times[i])) {
              if (times[i] == 0.0 || (again && times[i] == times[i - 1])) ++again; else sorted = 0;
            }
          // the steepest rise between successive times, from what was seen
          V temps;
          for (auto& s : seen) temps.push_back(std::stod(s.substr(2)));
          double best = -1e300, arg = -1;
          V slopes;
          for (std::size_t i = 1; i < times.size(); ++i) {
            const double sl = (temps[i] - temps[i - 1]) / (times[i] - times[i - 1]);
            if (sl > best) { best = sl; arg = times[i]; }
          }
          t.ev(J().t("a", "feedback").raw("dt", Num(dt)).raw("o", o0).raw("n", State(*r)).raw("plain", State(plain)).raw("find", State(find))
                   .raw("at", Num(at)).raw("steepest", Num(arg)).i("mine", mine).i("sorted", sorted).i("again", again).raw("when", Nums(when)).raw("seen", vh::List(some)));
          break;
        }
        case 11: { // temperatures as in a script
          FlameMasterReactor x(*r);
          Setup(x, 400, 2500);
          auto log = std::make_shared<Log>();
          x.SetOdeSolver(std::make_unique<Scripted>(log, 0));
          x.SetOdeSolver(nullptr); // keeps the solver
          const double dt = LogU(1e-9, 1);
          const int m = Rnd(1, 8);
          log->times = {0.0}; log->temps = {x.GetTemperature()};
          for (int i = 1; i <= m; ++i) {
            log->times.push_back(i == m ? dt : dt * (i - U(0, 0.9)) / m);
            log->temps.push_back(Rnd(0, 3) ? log->temps.back() * U(0.7, 1.4) : U(300, 3000));
          }
          const std::string o0 = State(x);
          const bool find = Rnd(0, 1);
          V seen_t, seen_T;
          double at = -1;
          bool mine = true;
          if (find) at = x.AdvanceAndFindMaxdT(dt);
          else x.Advance(dt, [&](span<const double> y, double s, FlameMasterReactor* who) { seen_t.push_back(s); seen_T.push_back(y[0]); mine = mine && who == &x; });
          t.ev(J().t("a", "script").raw("o", o0).raw("n", State(x)).raw("yin", Nums(log->yin)).raw("t0", Num(log->t0)).raw("dt0", Num(dt)).raw("dt", Num(log->dt))
                   .b("find", find).raw("at", Num(at)).raw("times", Nums(log->times)).raw("temps", Nums(log->temps)).raw("st", Nums(seen_t)).raw("sT", Nums(seen_T)).i("mine", mine)
                   .i("calls", log->used.size()).l("used", log->used));
          break;
        }
        case 12: { // who owns which solver
          auto log = std::make_shared<Log>();
          log->times = {0.0, 1.0}; log->temps = {500.0, 600.0};
          FlameMasterReactor a(burke);
          a.SetOdeSolver(std::make_unique<Scripted>(log, 0));
          const int op = Rnd(0, 3);
          if (op == 0) { FlameMasterReactor c(a); c.Advance(1.0); a.Advance(1.0); }
          if (op == 1) { FlameMasterReactor c(burke); c = a; c.Advance(1.0); a.Advance(1.0); }
          if (op == 2) { FlameMasterReactor c(std::move(a)); c.Advance(1.0); }
          if (op == 3) { FlameMasterReactor c(burke); c = std::move(a); c.Advance(1.0); }
          t.ev(J().t("a", "solver").i("op", op).l("parent", log->parent).l("used", log->used));
          break;
        }
        default: { // repeated steps of a history
          Setup(*r, 1000, 1400);
          const int m = Rnd(2, 5);
          for (int i = 0; i < m; ++i) {
            const std::string o0 = State(*r);
            const double dt = LogU(1e-7, 1e-3);
            r->Advance(dt);
            t.ev(J().t("a", "step").raw("dt", Num(dt)).raw("o", o0).raw("n", State(*r)));
            if (Rnd(0, 1)) {
              if (Rnd(0, 1)) r->SetPressure(LogU(5e4, 1e6)); else r->SetTemperature(U(900, 2000));
            }
            if (Rnd(0, 2) == 0) { FlameMasterReactor c(*r); *r = c; }
          }
        }
        }
      } catch (std::exception& e) {
        t.ev(J().t("a", "exception").t("what", e.what()).i("kind", what).raw("o", State(*r)));
        break;
      }
    }
    t.finish();
  }
}
