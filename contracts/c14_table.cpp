// C14: tabulated exponential
// trials *: 4000 200000
#include <iostream>
#include "core/exponential.hpp"
#include "vf.hpp"
using namespace mocc;

// the constructor fills the table with the exact exponentials at equally spaced nodes from min to max
template <int N> static void table(Exponential_Linear<N> &e, double lo, double hi)
{
    const double *d = e.d_.data();
    double sp       = (hi - lo) / N;
    vf::check(e.min_ == lo && e.max_ == hi, "range");
    vf::check(vf::eq(e.dx(), sp), "spacing");
    vf::check(vf::forall(0, N + 1, [&](long i) { return vf::eq(d[i], std::exp(lo + i * ((hi - lo) / N))); }), "nodes are exact");
    long i = vf::range("node", 0, N);
    vf::check(e[i] == d[i], "table value");
}
VF_HARNESS(constructor_sweeper)
{
    double lo = vf::real("min", -12, -1), hi = vf::real("max", -0.5, 2);
    vf::assume(lo < hi);
    Exponential_Linear<10000> e(lo, hi);
    table(e, lo, hi);
}
VF_HARNESS(constructor_small)
{
    double lo = vf::real("min", -12, -1), hi = vf::real("max", -0.5, 2);
    vf::assume(lo < hi);
    Exponential_Linear<3> e(lo, hi);
    table(e, lo, hi);
}
// a table object in the state the constructor leaves it in
template <int N> static Exponential_Linear<N> &any_table()
{
    Exponential_Linear<N> &e = vf::object<Exponential_Linear<N>>("table");
    double lo = vf::real("min", -12, -1), hi = vf::real("max", -0.5, 2);
    vf::assume(lo < hi);
#ifdef VF_SYM
    e.min_    = lo;
    e.max_    = hi;
    e.space_  = (hi - lo) / N;
    e.rspace_ = 1.0 / e.space_;
    // d_[i] is the exponential at node i by the constructor's contract; the lookup is proved for any table contents
#else
    new (&e) Exponential_Linear<N>(lo, hi);
#endif
    return e;
}
template <int N> static void lookup()
{
    Exponential_Linear<N> &e = any_table<N>();
    double lo = e.min_, hi = e.max_, sp = (hi - lo) / N;
    // any argument in the range, ends included, written as node k plus a fraction of the spacing
    long k   = vf::range("k", 0, N - 1);
    double f = vf::within("f", 0.0, 1.0);
    double v = lo + (k + f) * sp;
#ifndef VF_SYM
    if (vf::range("end", 0, 20) == 0) v = hi;
    if (vf::range("start", 0, 20) == 0) v = lo;
    if (v > hi) v = hi;
    vf::assume(v >= lo);
#endif
    double r = e.exp(v);
#ifdef VF_SYM
    double a = e.d_[k], b = e.d_[k + 1];
    vf::check(r == a + (b - a) * f, "linear interpolation of the bracketing exponentials");
#else
    double a, b;
    double x = std::exp(v);
    k        = std::floor((v - lo) / sp);
    a        = std::exp(lo + k * sp);
    b        = std::exp(lo + (k + 1) * sp);
    double c = a + (b - a) * ((v - lo) / sp - k);
    vf::check(std::fabs(r - c) <= 1e-9 * (b + 1e-3), "linear interpolation of the bracketing exponentials");
    vf::check(r >= x * (1 - 1e-9), "never below the exponential");
    vf::check(r - x <= std::exp(std::min(hi, v + sp)) * sp * sp / 8 * (1 + 1e-6) + 1e-12, "error at most an eighth of the squared spacing");
#endif
}
VF_HARNESS(lookup_sweeper) { lookup<10000>(); }
VF_HARNESS(lookup_small) { lookup<3>(); }
VF_HARNESS(nodes)
{
    Exponential_Linear<10000> &e = any_table<10000>();
    long k = vf::range("k", 0, 10000);
    double v = e.min_ + k * ((e.max_ - e.min_) / 10000);
    vf::assume(v <= e.max_);
    vf::check(vf::eq(e.exp(v), e[k]), "exact at the nodes");
}
VF_HARNESS(outside)
{
    Exponential_Linear<10000> &e = any_table<10000>();
    double v = vf::real("v", -20, 10);
    vf::assume(v < e.min_ || v > e.max_);
    vf::check(e.exp(v) == std::exp(v), "exact outside of the range");
}
VF_HARNESS(base)
{
    Exponential e;
    double v = vf::real("v", -20, 10);
    vf::check(e.exp(v) == std::exp(v), "library exponential");
}
