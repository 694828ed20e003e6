// The Fortran integrator is linked but never called by the harnesses.
#include <cstdlib>
extern "C" void radau_() { std::abort(); }
