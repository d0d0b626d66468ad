// C20: total fission and fission source
// sources: core/transport_sweeper.cpp
// trials *: 300 6000
#include "core/transport_sweeper.hpp"
#include "xsmesh.hpp"
using namespace mocc;
namespace {
#ifndef VF_SYM
struct Sweeper : public TransportSweeper {
    static pugi::xml_node input(pugi::xml_document &d)
    {
        d.load_string("<sweeper><ang_quad type=\"ls\" order=\"2\"/></sweeper>");
        return d.child("sweeper");
    }
    Sweeper(pugi::xml_document &d) : TransportSweeper(input(d)) {}
    void sweep(int) override {}
    void initialize() override {}
    void update_incoming_flux() override {}
    void get_pin_flux_1g(int, ArrayB1 &, MeshTreatment) const override {}
    real_t set_pin_flux_1g(int, const ArrayB1 &, MeshTreatment) override { return 0; }
    SP_XSMeshHomogenized_t get_homogenized_xsmesh() override { return nullptr; }
    void output(H5Node &) const override {}
};
#endif
struct Setup {
    vfx::XS x;
#ifndef VF_SYM
    pugi::xml_document doc;
    std::unique_ptr<Sweeper> so;
#endif
    TransportSweeper &s;
#ifdef VF_SYM
    Setup() : s(vf::object<TransportSweeper>("sweeper"))
    {
        *(XSMesh **)&s.xs_mesh_ = &x.m;
#else
    Setup() : so(new Sweeper(doc)), s(*so)
    {
        s.xs_mesh_ = SP_XSMesh_t(&x.m, [](XSMesh *) {});
#endif
        s.n_reg_   = x.nreg;
        s.n_group_ = x.ng;
        vf::arr2(s.flux_, "flux", x.nreg, x.ng, 0.0, 3.0);
        vf::arr2(s.flux_old_, "old", x.nreg, x.ng, 0.0, 3.0);
        vf::vec(s.vol_, "vol", x.nreg, 0.1, 3.0);
        x.partition();
    }
};
}
VF_HARNESS(fission_source)
{
    Setup t;
    long r = vf::nat("region", 0, t.x.nreg - 1), ng = t.x.ng;
    vf::assume(r < t.x.nreg);
    t.x.owned(r);
    double k = vf::positive("k");
#ifdef VF_SYM
    ArrayB1 &fs = vf::object<ArrayB1>("fs_array");
#else
    ArrayB1 fs;
#endif
    vf::arr1(fs, "fs", t.x.nreg);
    long o = t.x.owner[r], j = t.x.pos[r];
    double rk = 1.0 / k;
    auto term = [&](long g) { return rk * t.x.reg[o].xsmacnf_[g] * t.s.flux_((int)r, (int)g); };
    auto part = [&](long g) { return vf::sum(0, g, term); };
    auto is   = [&](double v) { return fs((int)r) == v; };
    vf::hint3("calc_fission_source", [&](long a, long b, long c) {
        return is(vf::ite(o < a, part(ng), vf::ite(o == a, part(b) + vf::ite(j < c, term(b), 0.0), 0.0)));
    });
    vf::hint2("calc_fission_source", [&](long a, long b) { return is(vf::ite(o < a, part(ng), vf::ite(o == a, part(b), 0.0))); });
    vf::hint1("calc_fission_source", [&](long a) { return is(vf::ite(o < a, part(ng), 0.0)); });
    t.s.TransportSweeper::calc_fission_source(k, fs);
    vf::check(vf::eq(fs((int)r), part(ng)), "fission production of all groups over the eigenvalue");
}
// the sum runs over materials, groups and the regions of each material
static void total(bool old)
{
    Setup t;
    const ArrayB2 &f = old ? t.s.flux_old_ : t.s.flux_;
    long ng = t.x.ng, nxs = t.x.nxs;
    auto one = [&](long k, long g, long j) { int r = t.x.reg[k].reg_[j]; return f(r, (int)g) * t.s.vol_[r] * t.x.reg[k].xsmacnf_[g]; };
    auto regions = [&](long k, long g, long n) { return vf::sum(0, n, [&](long j) { return one(k, g, j); }); };
    auto groups = [&](long k, long n) { return vf::sum(0, n, [&](long g) { return regions(k, g, t.x.cnt[k]); }); };
    auto mats = [&](long n) { return vf::sum(0, n, [&](long k) { return groups(k, ng); }); };
    vf::hacc3("total_fission", [&](long a, long b, long c, double v) { return v == mats(a) + groups(a, b) + regions(a, b, c); });
    vf::hacc2("total_fission", [&](long a, long b, double v) { return v == mats(a) + groups(a, b); });
    vf::hacc1("total_fission", [&](long a, double v) { return v == mats(a); });
    vf::check(vf::eq(t.s.TransportSweeper::total_fission(old), mats(nxs)), "production summed over materials, groups and regions");
}
VF_HARNESS(total_now) { total(false); }
VF_HARNESS(total_old) { total(true); }
