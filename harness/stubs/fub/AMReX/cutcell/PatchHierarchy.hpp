#ifndef VERIF_STUB_CUTCELL_PATCH_HIERARCHY
#define VERIF_STUB_CUTCELL_PATCH_HIERARCHY
namespace fub::amrex::cutcell { struct PatchHierarchy {}; }
#endif
