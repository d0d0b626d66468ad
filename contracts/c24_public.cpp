// C24, bounded: whole solves on generated cores against the iteration written out over public interfaces
// trials *: 40 1000
#include "solvers.hpp"
#ifndef VF_SYM
VF_HARNESS(eigenvalue) { vfv::eigenvalue(); }
VF_HARNESS(accelerated) { vfv::eigenvalue(true); }
VF_HARNESS(fixed_source) { vfv::fixed(); }
#endif
