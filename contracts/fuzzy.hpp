// Contracts of the comparisons up to rounding (checked by bounded runs in c06_fuzzy.cpp: they look at the bits of a number)
#pragma once
#include "vf.hpp"
namespace vfz {
inline double mag(double x) { return vf::ite(x < 0.0, -x, x); }
}
#ifdef VF_SYM
// equality up to rounding: exact equality counts, differences well above the tolerance do not
VF_CONTRACT(fp_equiv, "mocc::fp_equiv(double, double)")
extern "C" bool vfc_fp_equiv(double a, double b)
{
    bool r = vf::boolean("equiv");
    vf::assume(vf::all(vf::implies(a == b, r), vf::implies(r, vfz::mag(a - b) <= 1e-9)));
    return r;
}
// lower_bound with that comparison: what precedes the result is less, what follows is not less by more than the tolerance
VF_CONTRACT(lower_bound_fuzzy, "re:.*std::lower_bound<(__gnu_cxx::__normal_iterator<)?double( const)?.*, double, bool [(][*][)][(]double, double[)]>[(]")
extern "C" const double *vfc_lower_bound_fuzzy(const double *f, const double *l, const double &v, bool (*)(double, double))
{
    long n = l - f;
    double x = v;
    vf::check(n >= 0, "lower_bound: valid range");
    vf::check(vf::forall(0, n - 1, [&](long j) { return f[j] + 4e-9 < f[j + 1]; }), "lower_bound: ordered, well separated");
    long r = vf::nat("lower_bound", 0, 0);
    vf::assume(r <= n);
    vf::assume(vf::forall(0, r, [&](long j) { return f[j] < x; }));
    vf::assume(vf::forall(r, n, [&](long j) { return f[j] >= x - 1e-9; }));
    return f + r;
}
#endif
