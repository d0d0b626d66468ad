// Assumed contracts of standard-library algorithms (dependencies; their bodies are not verified here).
#pragma once
#include "vf.hpp"
#ifdef VF_SYM
// lower_bound: everything before the result is below the value, nothing from the result on is
VF_CONTRACT(lower_bound_d, "re:.*std::lower_bound<(__gnu_cxx::__normal_iterator<)?double( const)?.*, double>[(]")
extern "C" const double *vfc_lower_bound_d(const double *f, const double *l, const double &v)
{
    long n = l - f;
    double x = v;
    vf::check(n >= 0, "lower_bound: valid range");
    vf::check(vf::forall(0, n - 1, [&](long j) { return f[j] <= f[j + 1]; }), "lower_bound: sorted range");
    long r = vf::nat("lower_bound", 0, 0);
    vf::assume(r <= n);
    vf::assume(vf::forall(0, r, [&](long j) { return f[j] < x; }));
    vf::assume(vf::forall(r, n, [&](long j) { return f[j] >= x; }));
    return f + r;
}
#endif
