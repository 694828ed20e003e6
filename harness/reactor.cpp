// The state of FlameMasterReactor: random histories of setters, copies and
// moves of several reactors, with everything that can be read afterwards.
#include "fub/core/type_traits.hpp"
#include "vn.hpp"
#include "fub/equations/ideal_gas_mix/FlameMasterReactor.hpp"
#include "fub/equations/ideal_gas_mix/mechanism/Burke2012.hpp"
#include <malloc.h>
#include <memory>
using namespace vn;
using vh::J;
namespace {
// a mechanism that knows entropies as well: s_i = (i + 1) * 1000 + cp-like 900 ln(T)
struct WithEntropy : Burke2012 {
  void ComputeThermoData(span<double> h, span<double> cp, double T, span<double> s) const override {
    Burke2012::ComputeThermoData(h, cp, T);
    for (int i = 0; i < 11; ++i) s[i] = (i + 1) * 1000.0 + 900.0 * std::log(T);
  }
  void ComputeThermoData(ArrayXd& h, ArrayXd& cp, Array1d T) const override { Burke2012::ComputeThermoData(h, cp, T); }
  std::unique_ptr<FlameMasterMechanism> Clone() const override { return std::make_unique<WithEntropy>(); }
};
constexpr int N = 11;
V Fractions() {
  V y(N, 0.0);
  const int k = Rnd(0, 5);
  if (k == 0) y[Rnd(0, N - 1)] = LogU(0.1, 10);
  else if (k == 1) { y[0] = 3.76; y[3] = 1.0; y[6] = U(0, 3); }
  else {
    for (double& x : y) x = Rnd(0, 2) ? U(0, 1) : 0.0;
    if (k == 2) y[Rnd(0, N - 1)] = LogU(1e-18, 1e-3);
    if (k == 3) y[Rnd(0, N - 1)] = -LogU(1e-12, 0.5);
    y[Rnd(0, N - 1)] = U(0.5, 1);
  }
  const double f = Rnd(0, 1) ? 1.0 : LogU(0.01, 100);
  for (double& x : y) x *= f;
  return y;
}
double Temp() {
  switch (Rnd(0, 9)) {
  case 0: return 300.0;
  case 1: return 1000.0;
  case 2: return std::nextafter(1000.0, 2000.0);
  case 3: return U(295, 305);
  case 4: return U(990, 1010);
  default: return U(180, 3300);
  }
}
double Rho() { return LogU(1e-3, 50); }
double Press() { return LogU(1e3, 1e7); }
struct Scalar {
  static std::string Look(FlameMasterReactor& r) {
    V q;
    for (int i = 0; i < N; ++i) q.push_back(U(-2, 2));
    J o;
    const FlameMasterReactor& c = r;
    // derived numbers first: reading must not depend on what was read before
    o.raw("p", Num(c.GetPressure())).raw("M", Num(c.GetMeanMolarMass())).raw("h", Num(c.GetEnthalpy()));
    o.raw("u", Num(c.GetInternalEnergy())).raw("cp", Num(c.GetCp())).raw("cv", Num(c.GetCv()));
    o.raw("rho", Num(c.GetDensity())).raw("T", Num(c.GetTemperature()));
    o.raw("q", Nums(q)).raw("mx", Num(c.MeanX(q))).raw("my", Num(c.MeanY(q)));
    o.raw("Y", Nums(c.GetMassFractions())).raw("cps", Nums(c.GetCps()));
    o.raw("hs", Nums(r.GetEnthalpies())).raw("x", Nums(r.GetMoleFractions()));
    std::string s = "\"none\"";
    try { s = Num(c.GetEntropy()); } catch (FlameMasterReactorException&) {}
    o.raw("s", s);
    return o.str();
  }
};
std::string Lanes(const FlameMasterReactor& r) {
  const Array1d p = r.GetPressureArray(), M = r.GetMeanMolarMassArray(), h = r.GetEnthalpyArray(), u = r.GetInternalEnergyArray(),
                cp = r.GetCpArray(), cv = r.GetCvArray(), rho = r.GetDensityArray(), T = r.GetTemperatureArray();
  const ArrayXd& Y = r.GetMassFractionsArray();
  std::vector<std::string> out;
  for (int i = 0; i < W; ++i) {
    J o;
    V y;
    for (int s = 0; s < N; ++s) y.push_back(Y(s, i));
    o.raw("p", Num(p[i])).raw("M", Num(M[i])).raw("h", Num(h[i])).raw("u", Num(u[i])).raw("cp", Num(cp[i])).raw("cv", Num(cv[i]));
    o.raw("rho", Num(rho[i])).raw("T", Num(T[i])).raw("Y", Nums(y));
    out.push_back(o.str());
  }
  return vh::List(out);
}
std::string Text(const V& y) {
  static const char* names[] = {"N2", "AR", "H", "O2", "O", "OH", "H2", "H2O", "HE", "HO2", "H2O2"};
  std::string s;
  std::vector<int> order;
  for (int i = 0; i < N; ++i) if (y[i] != 0.0) order.push_back(i);
  std::shuffle(order.begin(), order.end(), vg::rng());
  for (int i : order) {
    char b[64];
    std::snprintf(b, sizeof b, "%s:%.17g", names[i], y[i]);
    s += (s.empty() ? "" : Rnd(0, 1) ? ", " : ",") + std::string(b);
  }
  return s;
}
// the energy or enthalpy of the composition at another temperature
template <class F> double At(const FlameMasterReactor& r, double T, F f) {
  FlameMasterReactor c(r);
  c.SetTemperature(T);
  return f(c);
}
} // namespace
int main(int, char** argv) {
  mallopt(M_PERTURB, 0x5b);
  vh::Trace t;
  vh::install(t, argv[1], 600);
  vg::rng().seed(vh::seed() * 7919 + 17);
  const int runs = vh::thorough() ? 700 : 130;
  Burke2012 burke;
  WithEntropy entropy;
  for (int run = 0; run < runs; ++run) {
    const bool ent = Rnd(0, 3) == 0;
    const FlameMasterMechanism& mech = ent ? static_cast<const FlameMasterMechanism&>(entropy) : burke;
    constexpr int slots = 3;
    std::vector<std::unique_ptr<FlameMasterReactor>> r;
    t.start(J().i("slots", slots).b("entropy", ent).str());
    for (int d = 0; d < slots; ++d) {
      r.push_back(std::make_unique<FlameMasterReactor>(mech));
      t.ev(J().t("a", "look").i("d", d + 1).raw("o", Scalar::Look(*r[d])).raw("lanes", Lanes(*r[d])));
    }
    const int steps = Rnd(6, 22);
    for (int k = 0; k < steps; ++k) {
      const int d = Rnd(0, slots - 1);
      FlameMasterReactor& x = *r[d];
      try {
        const int c = Rnd(0, 29);
        auto op = [&](const char* name, const std::string& arg) {
          t.ev(J().t("a", "set").t("op", name).i("d", d + 1).raw("arg", arg).raw("o", Scalar::Look(x)));
        };
        auto arr = [&](const char* name, const std::vector<std::string>& arg, const MaskArray& m) {
          std::vector<std::string> on;
          for (int i = 0; i < W; ++i) on.push_back(m[i] ? "true" : "false");
          t.ev(J().t("a", "lanes").t("op", name).i("d", d + 1).raw("arg", vh::List(arg)).raw("on", vh::List(on)).raw("o", Lanes(x)));
        };
        const MaskArray all = MaskArray::Constant(true);
        auto each = [&](auto gen) { Array1d a; for (int i = 0; i < W; ++i) a[i] = gen(i); return a; };
        auto args = [&](const Array1d& a) { std::vector<std::string> s; for (int i = 0; i < W; ++i) s.push_back(Num(a[i])); return s; };
        switch (c) {
        case 0: case 1: { const double T = Temp(); x.SetTemperature(T); op("T", Num(T)); break; }
        case 2: { const double v = Rho(); x.SetDensity(v); op("rho", Num(v)); break; }
        case 3: case 4: { const double v = Press(); x.SetPressure(v); op("p", Num(v)); break; }
        case 5: { const V y = Fractions(); x.SetMassFractions(y); op("Y", Nums(y)); break; }
        case 6: { const V y = Fractions(); x.SetMoleFractions(y); op("X", Nums(y)); break; }
        case 7: {
          V y = Fractions();
          for (double& v : y) v = std::abs(v);
          const bool mass = Rnd(0, 1);
          if (mass) x.SetMassFractions(Text(y)); else x.SetMoleFractions(Text(y));
          op(mass ? "Y" : "X", Nums(y));
          break;
        }
        case 8: x.SetMassFractions(x.GetMassFractions()); op("same", "\"0\""); break;
        case 9: x.SetMoleFractions(x.GetMoleFractions()); op("same", "\"0\""); break;
        case 10: case 11: case 12: {
          const double u = At(x, Temp(), [](auto& c) { return c.GetInternalEnergy(); });
          x.SetInternalEnergy(u);
          op("U", Num(u));
          break;
        }
        case 13: {
          const double h = At(x, Temp(), [](auto& c) { return c.GetEnthalpy(); });
          x.SetEnthalpy(h, 1e-6);
          op("H", Num(h));
          break;
        }
        case 14: {
          const double p0 = x.GetPressure(), T0 = x.GetTemperature();
          double f = LogU(0.2, 5);
          if (T0 * std::pow(f, 0.4) < 190) f = LogU(1, 5);
          if (T0 * std::pow(f, 0.4) > 3300) f = LogU(0.2, 1);
          const double p = Rnd(0, 4) ? p0 * f : Rnd(0, 1) ? p0 : p0 * (1 + LogU(1e-7, 1e-4) * (Rnd(0, 1) ? 1 : -1));
          const double du = x.SetPressureIsentropic(p);
          t.ev(J().t("a", "isentropic").i("d", d + 1).raw("arg", Num(p)).raw("du", Num(du)).raw("o", Scalar::Look(x)));
          break;
        }
        case 15: {
          const int bad = Rnd(0, 3);
          const char* s[] = {"H2:1,XY:2", "H2", "N2=1", "O2:1,H2"};
          int threw = 0;
          try { if (Rnd(0, 1)) x.SetMassFractions(s[bad]); else x.SetMoleFractions(s[bad]); }
          catch (FlameMasterReactorException&) { threw = 1; }
          t.ev(J().t("a", "refused").i("threw", threw));
          const V y = Fractions();
          x.SetMassFractions(y);
          op("Y", Nums(y));
          break;
        }
        case 16: case 17: { const Array1d T = each([](int) { return Temp(); }); x.SetTemperatureArray(T); arr("T", args(T), all); break; }
        case 18: { const Array1d v = each([](int) { return Rho(); }); x.SetDensityArray(v); arr("rho", args(v), all); break; }
        case 19: { const Array1d v = each([](int) { return Press(); }); x.SetPressureArray(v); arr("p", args(v), all); break; }
        case 20: case 21: case 22: {
          const bool masked = c != 20;
          const MaskArray m = masked ? RndMask() : all;
          ArrayXd y(N, W);
          std::vector<std::string> a;
          for (int i = 0; i < W; ++i) {
            V v = Fractions();
            if (!m[i]) for (double& q : v) q = Rnd(0, 1) ? std::nan("") : U(-1, 1);
            for (int s = 0; s < N; ++s) y(s, i) = v[s];
            a.push_back(Nums(v));
          }
          if (masked) x.SetMassFractionsArray(y, m); else x.SetMassFractionsArray(y);
          arr("Y", a, m);
          break;
        }
        case 23: case 24: case 25: {
          const bool masked = c != 23;
          MaskArray m = masked ? RndMask() : all;
          const Array1d T0 = x.GetTemperatureArray();
          FlameMasterReactor copy(x);
          const Array1d T = each([&](int) { return Temp(); });
          copy.SetTemperatureArray(T);
          Array1d u = copy.GetInternalEnergyArray();
          for (int i = 0; i < W; ++i) if (!m[i]) u[i] = Rnd(0, 1) ? std::nan("") : U(-1e9, 1e9);
          if (masked) x.SetInternalEnergyArray(u, m); else x.SetInternalEnergyArray(u);
          arr("U", args(u), m);
          break;
        }
        default: {
          const int how = Rnd(0, 4);
          const int s = (d + Rnd(1, slots - 1)) % slots;
          const char* names[] = {"copy construction", "copy assignment", "move construction", "move assignment", "self assignment"};
          if (how == 0) { auto c2 = std::make_unique<FlameMasterReactor>(*r[s]); r[d] = std::move(c2); }
          if (how == 1) *r[d] = *r[s];
          if (how == 2) { r[d] = std::make_unique<FlameMasterReactor>(std::move(*r[s])); r[s] = std::make_unique<FlameMasterReactor>(*r[d]); }
          if (how == 3) { *r[d] = std::move(*r[s]); r[s] = std::make_unique<FlameMasterReactor>(*r[d]); }
          if (how == 4) { FlameMasterReactor& self = *r[s]; self = *r[s]; r[d] = std::make_unique<FlameMasterReactor>(self); }
          t.ev(J().t("a", "copy").t("how", names[how]).i("d", d + 1).i("s", s + 1).raw("o", Scalar::Look(*r[d])).raw("lanes", Lanes(*r[d])));
          const int z = Rnd(0, 1) ? d : s; // the copy and the original are independent
          const double T = Temp();
          r[z]->SetTemperature(T);
          t.ev(J().t("a", "set").t("op", "T").i("d", z + 1).raw("arg", Num(T)).raw("o", Scalar::Look(*r[z])));
          const V y = Fractions();
          r[z]->SetMassFractions(y);
          t.ev(J().t("a", "set").t("op", "Y").i("d", z + 1).raw("arg", Nums(y)).raw("o", Scalar::Look(*r[z])));
        }
        }
        if (Rnd(0, 2) == 0) {
          const int z = Rnd(0, slots - 1);
          t.ev(J().t("a", "look").i("d", z + 1).raw("o", Scalar::Look(*r[z])).raw("lanes", Lanes(*r[z])));
        }
      } catch (std::exception& e) {
        t.ev(J().t("a", "exception"));
        break;
      }
    }
    t.finish();
  }
}
