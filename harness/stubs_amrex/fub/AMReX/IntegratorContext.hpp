#ifndef VERIF_CONTEXT
#define VERIF_CONTEXT
#include "AMReX.H"
#include "fub/Direction.hpp"
#include "fub/Duration.hpp"
#include "fub/Execution.hpp"
namespace fub::amrex {
struct IntegratorContext {
  ::amrex::MultiFab scratch, fluxes;
  ::amrex::Geometry geom;
  int dir;
  ::amrex::MultiFab& GetScratch(int) { return scratch; }
  const ::amrex::MultiFab& GetFluxes(int, Direction d) { ::amrex::Require(int(d) == dir); return fluxes; }
  const ::amrex::Geometry& GetGeometry(int) { return geom; }
};
} // namespace fub::amrex
#endif
