// A view of all variables of a patch whose last direction are the components.
#ifndef VERIF_STUB_VIEW
#define VERIF_STUB_VIEW
#include "fub/AMReX/PatchHierarchy.hpp"
#include "fub/Equation.hpp"
#include "fub/State.hpp"
namespace fub::amrex {
template <class V, class T, class Eq> V MakeView(const PatchDataView<T, AMREX_SPACEDIM + 1>& fab, const Eq& eq) {
  constexpr int R = Eq::Rank();
  const auto depths = ::fub::Depths(eq, Type<V>{});
  V view{};
  int counter = 0;
  auto b = fab.Box();
  ForEachVariable([&](auto& pdv, const auto& depth) {
    using P = std::decay_t<decltype(pdv)>;
    constexpr std::size_t PR = P::Rank();
    std::array<std::ptrdiff_t, PR> e{}, o{};
    for (int d = 0; d < R; ++d) { e[d] = b.upper[d] - b.lower[d]; o[d] = b.lower[d]; }
    int n = 1;
    if constexpr (PR == R + 1) { n = depth; e[R] = n; }
    Index<AMREX_SPACEDIM + 1> first = b.lower; first[AMREX_SPACEDIM] += counter;
    counter += n;
    pdv = P(mdspan<T, PR>(&fab(first), dynamic_extents<PR>(e)), o);
  }, view, depths);
  return view;
}
}
#endif
