// C01: ranges of the draws, sampling from a distribution
// sources:
#include <algorithm>
#include "util/rng_lcg.hpp"
#include "vf.hpp"
#include "stdc.hpp"
using namespace mocc;
#ifdef VF_SYM
VF_CONTRACT(equiv_ulp, "re:mocc::fp_equiv_ulp[(]double, double[)]")
extern "C" bool vfc_equiv_ulp(double a, double b)
{
    // assumed: values that differ by no more than a few parts in 10^15 are equivalent
    bool r = vf::boolean("equiv");
    vf::assume(vf::implies(vf::both(a - b <= 1e-15 * b, b - a <= 1e-15 * b), r));
    return r;
}
#endif
// a generator about to enter an arbitrary state; natively often one of the extreme states
static RNG_LCG generator()
{
#ifdef VF_SYM
    long s = vf::range("seed", 0, 0x7fffffffffffffffL);
    return RNG_LCG(s);
#else
    long mode = vf::range("mode", 0, 5), s = vf::range("seed", 0, 0x7fffffffffffffffL);
    if (mode >= 3) return RNG_LCG(s);
    // state from which the next draw is (nearly) the largest or the smallest
    const uint64_t m = UINT64_C(2806196910506780709), mask = ~(UINT64_C(1) << 63);
    uint64_t inv = 1;
    for (int i = 0; i < 7; i++) inv *= 2 - m * inv;
    uint64_t t = mode == 0 ? mask - (s % 2048) : mode == 1 ? mask - (s % 4) : s % 64;
    return RNG_LCG(((t - 1) * inv) & mask);
#endif
}
VF_HARNESS(unit_draw)
{
    RNG_LCG r = generator();
    double v  = r.random();
    vf::check(v >= 0.0, "a draw is not negative");
    vf::check(v < 1.0, "a draw is below one");
}
VF_HARNESS(bounded_draw)
{
    RNG_LCG r = generator();
    double u  = vf::positive("u", 50);
    double v  = r.random(u);
    vf::check(v >= 0.0 && v < u, "a draw up to a bound is inside");
}
VF_HARNESS(interval_draw)
{
    RNG_LCG r = generator();
    double l = vf::real("l", -5, 5), w = vf::positive("w", 5);
    double u = l + w;
    vf::assume(l < u);
    double v = r.random(l, u);
    vf::check(v >= l && v <= u, "a draw over an interval is inside");
}
VF_HARNESS(integer_draw)
{
    RNG_LCG r = generator();
    int n     = vf::range("n", 1, 2147483647);
    int i     = r.random_int(n);
    vf::check(i >= 0 && i < n, "an integer draw is below its bound");
}
// the three forms of a draw scale the same number, and each takes one number from the stream
VF_HARNESS(same_number)
{
    RNG_LCG a = generator(), b = a, c = a, d = a;
    double u = vf::positive("u", 50), w = vf::positive("w", 5);
    double v = a.random();
    vf::check(vf::eq(b.random(u), v * u), "scaled draw");
    vf::check(vf::eq(c.random(2.0, 2.0 + w), 2.0 + w * v), "interval draw");
    long n = vf::range("n", 1, 1000);
    long i = d.random_int(n);
    vf::check(i <= v * n && v * n < i + 1, "integer draw");
    a();
    b();
    c();
    vf::check(a() == b(), "one number per scaled draw");
}
VF_HARNESS(sampling)
{
    RNG_LCG r = generator(), q = r;
    long n = vf::nat("n", 1, 6);
    std::vector<double> cdf;
    vf::vec(cdf, "cdf", n, 0.01, 1.0);
#ifndef VF_SYM
    for (long i = 0; i < n; i++) cdf[i] = std::fabs(cdf[i]) + (i ? cdf[i - 1] : 0.01);
    for (long i = 0; i < n; i++) cdf[i] /= cdf[n - 1];
    // round-off may leave the last entry below one
    cdf[n - 1] -= vf::range("ulps", 0, 20) * 1.1102230246251565e-16;
    for (long i = n - 1; i > 0; i--) cdf[i - 1] = std::min(cdf[i - 1], cdf[i]);
#endif
    const double *p = cdf.data();
#ifdef VF_SYM
    vf::assume(p[n - 1] >= 1 - 1e-15 && p[n - 1] <= 1);
#endif
    vf::assume(vf::forall(0, n - 1, [&](long i) { return p[i] <= p[i + 1]; }));
    double v = q.random();
    int i    = r.sample_cdf(cdf);
    vf::check(i >= 0 && i < n, "index inside");
    vf::check(vf::implies(i < n - 1, p[i] >= v), "entry not below the drawn number");
    vf::check(vf::forall(0, i, [&](long j) { return p[j] < v; }), "entries before it are below the drawn number");
}
// skipping ahead equals drawing
#ifndef VF_SYM
VF_HARNESS(skipping)
{
    RNG_LCG a = generator(), b = a;
    long n = vf::range("n", 0, 3000);
    for (long i = 0; i < n; i++) a();
    b.jump_ahead(n);
    vf::check(a() == b(), "skipping n equals n draws");
    // long skips are sums of shorter ones
    RNG_LCG c = generator(), d = c;
    uint64_t k = vf::range("k", 0, 0x3fffffffffffffffL), l = vf::range("l", 0, 0x3fffffffffffffffL);
    c.jump_ahead(k);
    c.jump_ahead(l);
    d.jump_ahead(k + l);
    vf::check(c() == d(), "skips add up");
    uint64_t s = vf::range("seed2", 0, 0x7fffffffffffffffL);
    c.set_seed(s);
    RNG_LCG e(s);
    for (int i = 0; i < 5; i++) vf::check(c() == e(), "seed determines the draws");
}
#endif
