// C01: random number streams
// sources:
// opts step_is_affine: wrap=1
// opts jump_ahead: wrap=1
// opts reseeding: wrap=1
#include <algorithm>
#include "util/rng_lcg.hpp"
#include "vf.hpp"
#include "stdc.hpp"
using namespace mocc;
#ifdef VF_SYM
// Ghost description of the stream: the state after k draws from s is G(k)*s + B(k) modulo 2^63, with G(0)=1, B(0)=0,
// G(k+1) = m G(k), B(k+1) = m B(k) + 1.
static const long m  = 2806196910506780709L;
static const unsigned long M = 1UL << 63;
static long md(long x) { return vf_mod_(x, M); }

// one draw continues the description
VF_HARNESS(step_is_affine)
{
    long G = vf::nat("G", 1, 9), B = vf::nat("B", 0, 9), s = vf::nat("s", 0, 9);
    RNG_LCG r(1);
    r.current_seed_ = md(G * s + B);
    unsigned long v = r();
    vf::check((long)v == md(m * G * s + m * B + 1), "a draw returns the next state");
    vf::check((long)r.current_seed_ == md(m * G * s + m * B + 1), "a draw advances to the next state");
}
// G(a+c) = G(a) G(c) and B(a+c) = G(c) B(a) + B(c), by induction on c
VF_HARNESS(lemma_addition)
{
    long Ga = vf::nat("Ga", 1, 9), Ba = vf::nat("Ba", 0, 9), Gc = vf::nat("Gc", 1, 9), Bc = vf::nat("Bc", 0, 9);
    vf::check(Ga * 1 == Ga && 1 * Ba + 0 == Ba, "base");
    long Gac = Ga * Gc, Bac = Gc * Ba + Bc;           // induction hypothesis
    long Gc1 = m * Gc, Bc1 = m * Bc + 1;              // definition at c+1
    long Gac1 = m * Gac, Bac1 = m * Bac + 1;          // definition at a+c+1
    vf::check(Gac1 == Ga * Gc1, "step for G");
    vf::check(Bac1 == Gc1 * Ba + Bc1, "step for B");
}
// n = Q(k) 2^k + R(k) with Q(k) = 2 Q(k+1) + bit(k), R(k+1) = R(k) + bit(k) 2^k, by induction on k
VF_HARNESS(lemma_bits)
{
    long n = vf::nat("n", 0, 9), Q = vf::nat("Q", 0, 9), P = vf::nat("P", 1, 9), Rk = vf::nat("R", 0, 9);
    long bit = vf::nat("bit", 0, 1), Q1 = vf::nat("Q1", 0, 9);
    vf::assume(bit <= 1 && n == Q * P + Rk && Q == 2 * Q1 + bit);
    vf::check(n == n * 1 + 0, "base");
    vf::check(n == Q1 * (2 * P) + (Rk + bit * P), "step");
}
// jump_ahead(n) from s leads to G(n) s + B(n)
VF_HARNESS(jump_ahead)
{
    long n = vf::nat("n", 0, 1000), s = vf::nat("s", 0, 1000);
    // ghost sequences over the bits of n: Q, R, 2^k as in lemma_bits; gp, bp = G, B at 2^k; gr, br = G, B at R(k)
    long K   = n + 2;
    long *Q  = vf::buffer<long>("Q", K), *Rk = vf::buffer<long>("R", K), *P = vf::buffer<long>("P", K), *bit = vf::buffer<long>("bit", K);
    long *gp = vf::buffer<long>("gp", K), *bp = vf::buffer<long>("bp", K), *gr = vf::buffer<long>("gr", K), *br = vf::buffer<long>("br", K);
    vf::assume(Q[0] == n && Rk[0] == 0 && P[0] == 1 && gp[0] == m && bp[0] == 1 && gr[0] == 1 && br[0] == 0);
    vf::assume(vf::forall(0, n + 1, [&](long k) {
        return vf::all(bit[k] >= 0, bit[k] <= 1, Q[k] == 2 * Q[k + 1] + bit[k], Q[k] >= 0);
    }));
    // lemma_addition at (2^k, 2^k) and at (R(k), 2^k)
    vf::assume(vf::forall(0, n + 1, [&](long k) {
        return vf::all(gp[k + 1] == gp[k] * gp[k], bp[k + 1] == gp[k] * bp[k] + bp[k],
                       gr[k + 1] == vf::itei(bit[k] == 1, gr[k] * gp[k], gr[k]),
                       br[k + 1] == vf::itei(bit[k] == 1, gp[k] * br[k] + bp[k], br[k]));
    }));
    // lemma_bits: when Q(k) = 0, R(k) = n, so that gr, br are G, B at n
    long Gn = vf::nat("Gn", 1, 9), Bn = vf::nat("Bn", 0, 9);
    vf::assume(vf::forall(0, K + 1, [&](long k) { return vf::implies(Q[k] == 0, vf::both(gr[k] == Gn, br[k] == Bn)); }));
    vf::hint1("jump_ahead", [&](long k) { return vf::all(Q[k] >= 0, Q[k] + k <= n); });
    vf::hint_int1("jump_ahead", [&](long k, long v) { return v == Q[k]; });
    vf::hint_int1("jump_ahead", [&](long k, long v) { return v == md(gp[k]); });
    vf::hint_int1("jump_ahead", [&](long k, long v) { return v == md(bp[k]); });
    vf::hint_int1("jump_ahead", [&](long k, long v) { return v == md(gr[k]); });
    vf::hint_int1("jump_ahead", [&](long k, long v) { return v == md(br[k]); });
    RNG_LCG r(1);
    r.current_seed_ = s;
    r.jump_ahead(n);
    vf::check((long)r.current_seed_ == md(Gn * s + Bn), "state after jumping ahead by n");
}
#endif
// setting the seed determines everything that follows
VF_HARNESS(reseeding)
{
    RNG_LCG a(vf::nat("first", 0, 1L << 62)), b(vf::nat("second", 0, 1L << 62));
    long s = vf::nat("seed", 0, 1L << 62);
    a();
    a.set_seed(s);
    b.set_seed(s);
    vf::check(a() == b(), "same seed, same draw");
    RNG_LCG c(s);
    c();
    vf::check(c() == a(), "seed given at construction, same draws");
    RNG_LCG d(7);
    d = c;
    vf::check(d() == c(), "assigned generator, same draws");
}
