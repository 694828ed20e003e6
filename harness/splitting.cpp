// Runs the real splitting methods over recording operators, with a failure at
// every call in turn.
#include "vh.hpp"
#include "fub/core/type_traits.hpp"
#include "fub/split_method/GodunovSplitting.hpp"
#include "fub/split_method/StrangSplitting.hpp"
#include "fub/split_method/StrangSplittingLumped.hpp"
#include <memory>
using fub::Duration;
using R = fub::Result<void, fub::TimeStepTooLarge>;
static vh::Trace trace;
static double unit;
static int calls, fail_at, failed;
struct Op {
  int id;
  R operator()(Duration dt) const {
    if (++calls > 3000) throw vh::BudgetExceeded();
    trace.ev(vh::J().t("a", "call").i("o", id).i("dt", vh::Grid(dt.count(), unit)));
    if (calls == fail_at) { failed = calls; return fub::TimeStepTooLarge{Duration(calls * unit), id}; }
    return boost::outcome_v2::success();
  }
};
template <class F> static void Exec(const char* m, int n, const char* how, F f) {
  for (fail_at = 0;; ++fail_at) {
    calls = 0; failed = 0;
    trace.start(vh::J().t("m", m).i("n", n).i("dt", 64).t("how", how).str());
    try {
      R r = f(Duration(64 * unit));
      const long long err = r ? 0 : vh::Grid(r.error().dt.count(), unit);
      trace.ev(vh::J().t("a", "ret").i("fail", failed).b("ok", bool(r)).i("err", err));
    } catch (...) { trace.ev(vh::J().t("a", "exception")); }
    trace.finish();
    if (fail_at > calls || fail_at > 300) break;
  }
}
template <class M> static void All(const char* name, const M& m, bool base_only = false) {
  const fub::SplittingMethod& b = m;
  Op o1{1}, o2{2}, o3{3}, o4{4}, o5{5};
  Exec(name, 1, "base", [&](Duration dt) { return b.Advance(dt, o1); });
  Exec(name, 2, "base", [&](Duration dt) { return b.Advance(dt, o1, o2); });
  Exec(name, 3, "base", [&](Duration dt) { return b.Advance(dt, o1, o2, o3); });
  Exec(name, 2, "recursive", [&](Duration dt) { return b.AdvanceRecursively(dt, o1, o2); });
  Exec(name, 3, "recursive", [&](Duration dt) { return b.AdvanceRecursively(dt, o1, o2, o3); });
  Exec(name, 4, "recursive", [&](Duration dt) { return b.AdvanceRecursively(dt, o1, o2, o3, o4); });
  Exec(name, 5, "recursive", [&](Duration dt) { return b.AdvanceRecursively(dt, o1, o2, o3, o4, o5); });
  if constexpr (!std::is_same_v<M, fub::AnySplitMethod>) {
    Exec(name, 1, "direct", [&](Duration dt) { return m.Advance(dt, o1); });
    Exec(name, 2, "direct", [&](Duration dt) { return m.Advance(dt, o1, o2); });
    Exec(name, 3, "direct", [&](Duration dt) { return m.Advance(dt, o1, o2, o3); });
  }
  (void)base_only;
}
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  vh::install(trace, argv[1], 120);
  for (double u : {1.0, 0.1, 1e-9}) {
    unit = u;
    fub::GodunovSplitting g; fub::StrangSplitting s; fub::StrangSplittingLumped l;
    All("godunov", g); All("strang", s); All("lumped", l);
    // type erased: copies are independent values
    auto any = std::make_unique<fub::AnySplitMethod>(g);
    fub::AnySplitMethod copy = *any;
    All("godunov", *any);
    *any = s;
    All("strang", *any); All("godunov", copy);
    fub::AnySplitMethod moved = std::move(*any);
    any.reset();
    All("strang", moved);
    copy = fub::AnySplitMethod(l);
    All("lumped", copy);
    moved = copy;
    copy = g;
    All("lumped", moved); All("godunov", copy);
  }
  std::printf("traces=%lld\n", trace.count);
  std::fclose(trace.out);
}
