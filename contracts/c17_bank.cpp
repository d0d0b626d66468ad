// C17: growing, shrinking and exchanging fission banks
// sources: sweepers/mc/fission_bank.cpp
#include "sweepers/mc/fission_bank.hpp"
#include "vf.hpp"
#ifndef VF_SYM
#include "cores.hpp"
#endif
#include <memory>
using namespace mocc;
using namespace mocc::mc;

struct Bank {
    long n;
    FissionBank *b;
    const double *w; // weights, which tell the sites apart
#ifdef VF_SYM
    Bank(const char *name, const char *sites)
    {
        n = vf::nat("n", 1, 8);
        vf::assume(n <= 1000000000);
        b = &vf::object<FissionBank>(name);
        vf::vec(b->sites_, sites, n);
        b->total_fission_ = vf::real("total");
    }
#else
    std::unique_ptr<vfc::Core> core;
    std::unique_ptr<FissionBank> own;
    Bank(const char *, const char *)
    {
        n = vf::nat("n", 1, 8);
        own.reset(new FissionBank(*(const CoreMesh *)this));
        b = own.get();
        for (long i = 0; i < n; i++) {
            Particle p(Point3(0.1, 0.2, 0.3), Direction(0.5, 0.5, 0.5), 0, i);
            p.weight = 1 + i;
            b->sites_.push_back(p);
        }
        b->total_fission_ = vf::real("total");
    }
#endif
};
VF_HARNESS(push)
{
    Bank t("bank", "sites");
    FissionBank &b = *t.b;
    double total = b.total_fission_;
    Direction d;
    Particle p(Point3(vf::real("x"), vf::real("y"), vf::real("z")), d, (int)vf::range("group", 0, 50), (unsigned)vf::range("id", 0, 1000000));
    p.weight = vf::positive("w");
    long j = vf::nat("j", 0, 7);
    vf::assume(j < t.n);
    double wj = b.sites_[j].weight;
    unsigned id = b.sites_[j].id;
    b.push_back(p);
    vf::check(b.size() == t.n + 1, "one more site");
    vf::check(b.sites_[j].weight == wj && b.sites_[j].id == id, "the others stay");
    vf::check(b.sites_[t.n].weight == p.weight && b.sites_[t.n].id == p.id && b.sites_[t.n].group == p.group, "the new site comes last");
    vf::check(b.sites_[t.n].location_global.x == p.location_global.x && b.sites_[t.n].location_global.y == p.location_global.y && b.sites_[t.n].location_global.z == p.location_global.z, "its place");
    vf::check(b.total_fission() == total + p.weight, "total");
}
#ifdef VF_SYM
// discharged under C01
VF_CONTRACT(random_int, "re:(int|unsigned int|long|unsigned long)? ?mocc::RNG_LCG::random_int")
extern "C" int vfc_random_int(RNG_LCG *, int bound)
{
    vf::check(bound > 0, "random_int: positive bound");
    long r = vf::nat("draw", 0, 7);
    vf::assume(r < bound);
    return (int)r;
}
#endif
VF_HARNESS(grow)
{
    Bank t("bank", "sites");
    FissionBank &b = *t.b;
    long n = vf::nat("size", 0, 20);
    vf::assume(n > t.n && n <= 1000000000);
    RNG_LCG &rng = vf::object<RNG_LCG>("rng");
#ifndef VF_SYM
    new (&rng) RNG_LCG(2 * vf::range("seed", 0, 100000) + 1);
#endif
    long j = vf::nat("j", 0, 20), k = vf::nat("k", 0, 7);
    vf::assume(j < n && k < t.n);
    // an identity that no site has
    unsigned x = (unsigned)vf::nat("x", 8, 20);
#ifdef VF_SYM
    vf::assume(vf::forall(0, t.n, [&](long i) { return b.sites_[i].id != x; }));
#endif
    unsigned idk = b.sites_[k].id;
    double wk = b.sites_[k].weight, total = b.total_fission_;
    vf::hint1("resize", [&](long i) { return (long)b.sites_.size() == t.n + i; });
    vf::hint1("resize", [&](long i) { return vf::forall(0, t.n + i, [&](long m) { return b.sites_[m].id != x; }); });
    vf::hint1("resize", [&](long i) { return vf::both(b.sites_[k].id == idk, b.sites_[k].weight == wk); });
    b.resize(n, rng);
    vf::check(b.size() == n, "the size asked for");
    vf::check(b.sites_[k].id == idk && b.sites_[k].weight == wk, "old sites stay");
    vf::check(b.sites_[j].id != x, "nothing invented");
    vf::check(b.total_fission_ == total, "resizing adds no fission");
}
VF_HARNESS(shrink)
{
    Bank t("bank", "sites");
    FissionBank &b = *t.b;
    long n = vf::nat("size", 0, 8);
    vf::assume(n < t.n);
    RNG_LCG &rng = vf::object<RNG_LCG>("rng");
#ifndef VF_SYM
    new (&rng) RNG_LCG(2 * vf::range("seed", 0, 100000) + 1);
#endif
    long j = vf::nat("j", 0, 20);
    unsigned x = (unsigned)vf::nat("x", 8, 20);
#ifdef VF_SYM
    vf::assume(vf::forall(0, t.n, [&](long i) { return b.sites_[i].id != x; }));
#endif
    double total = b.total_fission_;
    vf_term_(b.sites_[0].id);
    vf::hint1("resize", [&](long i) { return (long)b.sites_.size() == t.n - i; });
    vf::hint1("resize", [&](long i) { return vf::forall(0, t.n - i, [&](long m) { return b.sites_[m].id != x; }); });
    b.resize(n, rng);
    vf::check(b.size() == n, "the size asked for");
    if (j < n) vf::check(b.sites_[j].id != x, "nothing invented");
    vf::check(b.total_fission_ == total, "resizing adds no fission");
}
VF_HARNESS(same_size)
{
    Bank t("bank", "sites");
    FissionBank &b = *t.b;
    RNG_LCG &rng = vf::object<RNG_LCG>("rng");
#ifndef VF_SYM
    new (&rng) RNG_LCG(2 * vf::range("seed", 0, 100000) + 1);
#endif
    long k = vf::nat("k", 0, 7);
    vf::assume(k < t.n);
    unsigned idk = b.sites_[k].id;
    b.resize(t.n, rng);
    vf::check(b.size() == t.n && b.sites_[k].id == idk, "nothing changes");
}
VF_HARNESS(swapped)
{
    Bank s("bank1", "sites1"), t("bank2", "sites2");
    FissionBank &a = *s.b, &b = *t.b;
    long j = vf::nat("j", 0, 7), k = vf::nat("k", 0, 7);
    vf::assume(j < s.n && k < t.n);
    unsigned idj = a.sites_[j].id, idk = b.sites_[k].id;
    double ta = a.total_fission_, tb = b.total_fission_;
    a.swap(b);
    vf::check(a.size() == t.n && b.size() == s.n, "sizes");
    vf::check(b.sites_[j].id == idj && a.sites_[k].id == idk, "sites");
    vf::check(a.total_fission() == tb && b.total_fission() == ta, "totals");
    vf::check(a[k].id == idk && &*a.begin() == &a.sites_[0] && a.end() - a.begin() == t.n, "access");
}
VF_HARNESS(cleared)
{
    Bank t("bank", "sites");
    t.b->clear();
    vf::check(t.b->size() == 0 && t.b->total_fission() == 0, "empty");
}
