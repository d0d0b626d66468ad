// C14, bounded: through the public interface only
// trials *: 4000 200000
#include <iostream>
#include "core/exponential.hpp"
#include "vf.hpp"
using namespace mocc;
#ifndef VF_SYM
template <int N> static void anywhere()
{
    double lo = vf::real("min", -12, -1), hi = vf::real("max", -0.5, 2);
    Exponential_Linear<N> e(lo, hi);
    double sp = (hi - lo) / N;
    vf::check(vf::eq(e.dx(), sp), "spacing");
    long k = vf::range("node", 0, N);
    vf::check(vf::eq(e[k], std::exp(lo + k * sp)), "nodes are exact");
    double v = vf::real("v", -14, 4);
    long where = vf::range("where", 0, 5);
    if (where == 0) v = hi;
    if (where == 1) v = lo;
    if (where == 2) v = hi + (vf::range("above", 1, 1000) / 1000.0) * sp;
    if (where == 3) v = lo - (vf::range("below", 1, 1000) / 1000.0) * sp;
    double r = e.exp(v), x = std::exp(v);
    if (v < lo || v > hi) {
        vf::check(r == x, "exact outside of the range");
    } else {
        long i   = std::min((long)N - 1, (long)std::floor((v - lo) / sp));
        double a = std::exp(lo + i * sp), b = std::exp(lo + (i + 1) * sp);
        vf::check(std::fabs(r - (a + (b - a) * ((v - lo) / sp - i))) <= 1e-9 * (b + 1e-3), "linear interpolation of the bracketing exponentials");
        vf::check(r >= x * (1 - 1e-9), "never below the exponential");
    }
}
VF_HARNESS(anywhere_sweeper) { anywhere<10000>(); }
VF_HARNESS(anywhere_small) { anywhere<3>(); }
#endif
