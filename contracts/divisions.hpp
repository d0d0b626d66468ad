// Increasing mesh divisions
#pragma once
#include "core/mesh.hpp"
#include "vf.hpp"
namespace vfm {
using namespace mocc;
inline VecF divisions(const char *name, const char *first, long n)
{
    double *w = vf::buffer<double>(name, n, 0.1, 2.0);
    VecF x(n + 1);
    x[0] = 0.0;
    for (long i = 0; i < n; i++) x[i + 1] = x[i] + (w[i] > 0 ? w[i] : 0.3);
    return x;
}
}
