// C12: fission source and currents of the coarse-mesh solver
// sources: core/cmfd.cpp
// trials *: 300 6000
#include "core/cmfd.hpp"
#include "xsmesh.hpp"
using namespace mocc;
namespace {
struct Setup {
#ifdef VF_SYM
    CMFD &c;
    vfx::XS x;
    long cells, surfs;
    Setup() : c(vf::object<CMFD>("cmfd")), x(c.xsmesh_)
    {
        cells = x.nreg;
        surfs = vf::nat("surfs", 1, 10);
        vf::assume(surfs <= 1000000000);
        arrays();
    }
#else
    vfc::Core core;
    pugi::xml_document doc;
    std::unique_ptr<CMFD> keep;
    CMFD &c;
    vfx::XS x;
    long cells, surfs;
    static vfc::Options opt()
    {
        vfc::Options o;
        o.max_ng = 3;
        return o;
    }
    static CMFD *make(vfc::Core &core, pugi::xml_document &doc)
    {
        doc.load_string("<cmfd/>");
        return new CMFD(doc.child("cmfd"), core.mesh.get(), SP_XSMeshHomogenized_t(new XSMeshHomogenized(*core.mesh)));
    }
    Setup() : core(vfc::spec(opt())), keep(make(core, doc)), c(*keep), x(c.xsmesh_)
    {
        cells = c.n_cell_, surfs = c.n_surf_;
        vf::assume(cells == (long)core.mesh->n_pin());      // no subplanes
        arrays();
    }
#endif
    void arrays()
    {
        c.n_cell_ = cells, c.n_surf_ = surfs, c.n_group_ = x.ng;
        vf::arr2(c.coarse_data_.flux, "flux", cells, x.ng, 0.0, 3.0);
        vf::arr1(c.fs_, "fs", cells);
        x.partition();
    }
};
}
VF_HARNESS(fission_source)
{
    Setup t;
    long r = vf::nat("cell", 0, t.cells - 1), ng = t.x.ng;
    vf::assume(r < t.cells);
    t.x.owned(r);
    double k = vf::positive("k");
    long o = t.x.owner[r], j = t.x.pos[r];
    ArrayB1 &fs = t.c.fs_;
    const ArrayB2 &f = t.c.coarse_data_.flux;
    auto term = [&](long g) { return t.x.reg[o].xsmacnf_[g] * f((int)r, (int)g); };
    auto part = [&](long g) { return vf::sum(0, g, term); };
    auto is   = [&](double v) { return fs((int)r) == v; };
    vf::hint3("CMFD::fission_source", [&](long a, long b, long g) {
        return is(vf::ite(vf::any(o < a, vf::both(o == a, j < b)), part(ng), vf::ite(vf::both(o == a, j == b), part(g), 0.0)));
    });
    vf::hint2("CMFD::fission_source", [&](long a, long b) { return is(vf::ite(vf::any(o < a, vf::both(o == a, j < b)), part(ng), 0.0)); });
    vf::hint1("CMFD::fission_source", [&](long a) { return is(vf::ite(o < a, part(ng), 0.0)); });
    vf::hint1("CMFD::fission_source", [&](long a) { return is(vf::ite(r < a, part(ng) * (1.0 / k), part(ng))); });
    t.c.fission_source(k);
    vf::check(vf::eq(fs((int)r), part(ng) / k), "production of all groups over the eigenvalue");
}
// cell by cell, group by group; no volumes (only ratios are used)
VF_HARNESS(total_fission)
{
    Setup t;
    long ng = t.x.ng;
    const ArrayB2 &f = t.c.coarse_data_.flux;
    auto groups = [&](long k, long j, long n) { return vf::sum(0, n, [&](long g) { return t.x.reg[k].xsmacnf_[g] * f(t.x.reg[k].reg_[j], (int)g); }); };
    auto regions = [&](long k, long n) { return vf::sum(0, n, [&](long j) { return groups(k, j, ng); }); };
    auto mats = [&](long n) { return vf::sum(0, n, [&](long k) { return regions(k, t.x.cnt[k]); }); };
    vf::hacc3("CMFD::total_fission", [&](long a, long b, long c, double v) { return v == mats(a) + regions(a, b) + groups(a, b, c); });
    vf::hacc2("CMFD::total_fission", [&](long a, long b, double v) { return v == mats(a) + regions(a, b); });
    vf::hacc1("CMFD::total_fission", [&](long a, double v) { return v == mats(a); });
    vf::check(vf::eq(t.c.total_fission(), mats(t.x.nxs)), "production of every cell and group once");
}
#ifdef VF_SYM
// which cells a surface separates: see C03
static const int *left_, *right_;
static long cells_;
extern "C" std::pair<int, int> vfc_neigh(const Mesh *, size_t s)
{
    int l = left_[s], r = right_[s];
    vf::assume(vf::all(l >= -1, l < cells_, r >= -1, r < cells_));
    return std::pair<int, int>(l, r);
}
VF_CONTRACT(neigh, "mocc::Mesh::coarse_neigh_cells(unsigned long) const");
#endif
VF_HARNESS(store_currents)
{
    Setup t;
    CMFD &c = t.c;
    CoarseData &d = c.coarse_data_;
    long ng = t.x.ng, ns = t.surfs;
    int s = vf::nat("surface", 0, ns - 1), g = vf::nat("group", 0, ng - 1);
    vf::assume(s < ns && g < ng);
#ifdef VF_SYM
    Mesh &fine = vf::object<Mesh>("fine");
    c.fine_mesh_ = &fine;
    fine.nz_ = vf::nat("nz", 1, 5);
    vf::vec(fine.macroplane_index_, "macroplane", fine.nz_);
    vf::assume(fine.macroplane_index_.back() == (int)fine.nz_ - 1);
    int *lo = vf::buffer<int>("left", ns), *hi = vf::buffer<int>("right", ns);
    left_ = lo, right_ = hi, cells_ = t.cells;
    int l = lo[s], r = hi[s];
    vf::assume(vf::all(l >= -1, l < t.cells, r >= -1, r < t.cells));
#else
    int l = c.mesh_.coarse_neigh_cells(s).first, r = c.mesh_.coarse_neigh_cells(s).second;
#endif
    for (auto a : {&c.d_hat_, &c.d_tilde_, &c.s_hat_, &c.s_tilde_}) vf::arr2(*a, a == &c.d_hat_ ? "d_hat" : a == &c.d_tilde_ ? "d_tilde" : a == &c.s_hat_ ? "s_hat" : "s_tilde", ns, ng);
    vf::arr2(d.current, "current", ns, ng);
    vf::arr2(d.surface_flux, "surface_flux", ns, ng);
    vf::arr2(d.partial_current, "partial", ns, ng);
    vf::arr2(d.partial_current_old, "partial_old", ns, ng);
    vf::arr1(c.current_1g_, "current_1g", ns);
    c.n_solve_ = vf::nat("solves", 0, 3);
    double fl = vf::ite(l >= 0, d.flux((int)vf::itei(l >= 0, l, 0), g), 0.0), fr = vf::ite(r >= 0, d.flux((int)vf::itei(r >= 0, r, 0), g), 0.0);
    double want = -c.d_tilde_(s, g) * (fr - fl) + c.d_hat_(s, g) * (fr + fl);
    double old = d.current(s, g);
    vf::hint1("store_currents", [&](long a) { return d.current(s, g) == vf::ite(g < a, want, old); });
    vf::hint2("store_currents", [&](long a, long b) { return vf::implies(vf::both(a == g, s < b), c.current_1g_(s) == want); });
    vf::hint2("store_currents", [&](long a, long b) { return vf::implies(a == g, c.current_1g_(s) == want); });
    vf::hint2("store_currents", [&](long a, long b) { return vf::implies(a != g, d.current(s, g) == vf::ite(g < a, want, old)); });
    vf::hint2("store_currents", [&](long a, long b) { return vf::implies(vf::both(a == g, s < b), d.current(s, g) == want); });
    c.store_currents();
    vf::check(vf::eq(d.current(s, g), want), "current implied by the coefficients and the flux");
}
