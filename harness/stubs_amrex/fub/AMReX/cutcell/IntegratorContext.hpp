// Stand-in for the integrator context: only what a time integrator asks it for.
#ifndef VERIF_CUTCELL_CONTEXT
#define VERIF_CUTCELL_CONTEXT
#include "AMReX.H"
#include "fub/AMReX/ViewFArrayBox.hpp"
#include "fub/CutCellData.hpp"
#include "fub/Direction.hpp"
#include "fub/Duration.hpp"
namespace fub::amrex::cutcell {
struct DataDescription { int n_cons_components; };
struct PatchHierarchy {
  DataDescription desc;
  std::vector<CutCellData<AMREX_SPACEDIM>> geom;
  const DataDescription& GetDataDescription() const { return desc; }
  CutCellData<AMREX_SPACEDIM> GetCutCellData(int, const ::amrex::MFIter& i) const { return geom.at(i.k); }
};
struct IntegratorContext {
  ::amrex::MultiFab scratch, fluxes, stabilized, left, right;
  ::amrex::MultiCutFab boundary;
  PatchHierarchy hierarchy;
  std::vector<::amrex::FabType> types;
  double dx;
  int dir;
  ::amrex::MultiFab& GetScratch(int) { return scratch; }
  void check(Direction d) { ::amrex::Require(int(d) == dir); }
  ::amrex::MultiFab& GetFluxes(int, Direction d) { check(d); return fluxes; }
  ::amrex::MultiFab& GetStabilizedFluxes(int, Direction d) { check(d); return stabilized; }
  ::amrex::MultiFab& GetShieldedFromLeftFluxes(int, Direction d) { check(d); return left; }
  ::amrex::MultiFab& GetShieldedFromRightFluxes(int, Direction d) { check(d); return right; }
  ::amrex::MultiCutFab& GetBoundaryFluxes(int) { return boundary; }
  const PatchHierarchy& GetPatchHierarchy() const { return hierarchy; }
  double GetDx(int, Direction d) { check(d); return dx; }
  ::amrex::FabType GetFabType(int, const ::amrex::MFIter& i) { return types.at(i.k); }
};
} // namespace fub::amrex::cutcell
#endif
