// Stand-ins for the AMReX types that the signature of a boundary condition
// names; AMReX itself is not installed here.
#ifndef VERIF_STUB_PATCH_HIERARCHY
#define VERIF_STUB_PATCH_HIERARCHY
#include "fub/PatchDataView.hpp"
#include "fub/Duration.hpp"
#include "fub/Direction.hpp"
#define AMREX_SPACEDIM 2
namespace fub::amrex { struct PatchHierarchy {}; struct PatchHandle { int level; }; }
#endif
