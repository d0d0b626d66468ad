// C06, bounded: what the lookup contracts assume of comparisons up to rounding
// trials *: 20000 500000
#include "vf.hpp"
#ifndef VF_SYM
#include <algorithm>
#include <vector>
#include "util/fp_utils.hpp"
using namespace mocc;
namespace {
double number()
{
    double x = vf::range("x", -1000000, 1000000) / 1000.0;
    return vf::boolean("small") ? x * 1e-6 : x;
}
double close(double x)
{
    static const double e[] = {0, 1e-16, 1e-15, 1e-14, 1e-13, 1e-12, 1e-11, 1e-10, 1e-9, 2e-9, 1e-8, 1e-6, 1e-3, 1, 10};
    return x + (vf::boolean("neg") ? -1 : 1) * e[vf::range("e", 0, 14)];
}
}
VF_HARNESS(equality)
{
    double a = number(), b = close(a);
    for (bool r : {fp_equiv(a, b), vf::boolean("same") || (a < 0) == (b < 0) ? (a < 0) == (b < 0) && fp_equiv_ulp(a, b) : false}) {
        if (r) vf::check(std::abs(a - b) <= 1e-9, "well separated numbers differ");
    }
    vf::check(fp_equiv(a, a) && fp_equiv_ulp(a, a), "a number equals itself");
    vf::check(fp_equiv(a, b) == fp_equiv(b, a), "symmetric");
    vf::check(!(fuzzy_lt(a, b) && fuzzy_lt(b, a)), "order");
    if (fuzzy_lt(a, b)) vf::check(a < b, "less");
    if (a < b - 1e-9) vf::check(fuzzy_lt(a, b), "clearly less");
}
VF_HARNESS(search)
{
    std::vector<double> v(1, number());
    long n = vf::range("n", 1, 6);
    for (long i = 1; i < n; i++) v.push_back(v.back() + (vf::boolean("tight") ? 5e-9 : 0.3));
    double x = close(v[vf::range("i", 0, n - 1)]);
    long r = std::lower_bound(v.begin(), v.end(), x, fuzzy_lt) - v.begin();
    for (long j = 0; j < n; j++) vf::check(j < r ? v[j] < x : v[j] >= x - 1e-9, "position found");
}
#endif
