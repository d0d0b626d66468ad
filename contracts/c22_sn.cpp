// C22: what the discrete-ordinates sweep records on the faces of the cells
// sources: core/constants.cpp
// trials *: 400 8000
#include "util/blitz_typedefs.hpp"
#include "core/constants.hpp"
#include "core/coarse_data.hpp"
#include "surfaces.hpp"
#include "sn/sn_current_worker.hpp"
using namespace mocc;
static long nx_, ny_, nz_, px_, py_, pz_, cell_, face_, surf_, ns_;
#ifdef VF_SYM
// numbering (C02, C03): no other place has the number of this cell, and no other cell has this face on its upwind side
static const int *table_;
extern "C" int vfc_cell(const Mesh *, Position p)
{
    vf::check(vf::all(p.x >= 0, p.x < nx_, p.y >= 0, p.y < ny_, p.z >= 0, p.z < nz_), "a cell of the mesh");
    long c = vf::range("number", 0, 99999999);
    vf::assume((c == cell_) == vf::all(p.x == px_, p.y == py_, p.z == pz_));
    return c;
}
VF_CONTRACT(cell, "mocc::Mesh::coarse_cell(mocc::Position) const")
extern "C" int vfc_surf(const Mesh *, int i, Surface f)
{
    long s = table_[6 * i + (long)f];
    vf::assume(s >= 0 && s < ns_);
    vf::assume((s == surf_) == vf::both((long)i == cell_, (long)f == face_));
    return s;
}
VF_CONTRACT(surf, "mocc::Mesh::coarse_surf(int, mocc::Surface) const")
#endif
struct Setup {
    long ng, g;
    Angle a;
    double w;
    bool up[3];
    int octant;
#ifdef VF_SYM
    CoarseData &d;
    Mesh &m;
    Setup(bool, int o = -1) : octant(o), d(vf::object<CoarseData>("data")), m(vf::object<Mesh>("mesh"))
    {
        nx_ = vf::nat("nx", 1, 5), ny_ = vf::nat("ny", 1, 5), nz_ = vf::nat("nz", 1, 5);
        m.nx_ = nx_, m.ny_ = ny_, m.nz_ = nz_;
        ns_ = vf::nat("surfaces", 1, 100);
        vf::assume(ns_ < 100000000);
        cell_ = vf::nat("cell", 0, 50), surf_ = vf::nat("surf", 0, 50);
        table_ = vf::buffer<int>("table", 600000000);
        vf::assume(cell_ < 100000000 && surf_ < ns_);
        common();
    }
#else
    std::unique_ptr<CoarseData> dp;
    CoarseData &d;
    Mesh &m;
    static Mesh *made(bool flat)
    {
        nx_ = vf::range("nx", 1, 5), ny_ = vf::range("ny", 1, 5), nz_ = flat ? 1 : vf::range("nz", 1, 5);
        std::array<Boundary, 6> bc;
        bc.fill(Boundary::VACUUM);
        Mesh *m = new Mesh(nx_ * ny_ * nz_, nx_ * ny_ * nz_, vfm::divisions("x", "", nx_), vfm::divisions("y", "", ny_), vfm::divisions("z", "", nz_), bc);
        m->prepare_surfaces();
        return m;
    }
    Setup(bool flat, int o, Mesh *mm) : octant(o), dp(new CoarseData(*mm, vf::range("ng", 1, 3))), d(*dp), m(*mm)
    {
        ns_ = m.n_surf();
        ng  = d.current.extent(1);
        common();
    }
    Setup(bool flat, int o = -1) : Setup(flat, o, made(flat)) {}
    ~Setup() { delete &m; }
#endif
    void common()
    {
        ng = vf::range("ng", 1, 3), g = vf::nat("g", 0, ng - 1);
        vf::assume(g < ng);
        vf::arr2(d.current, "current", ns_, ng);
        vf::arr2(d.surface_flux, "surface_flux", ns_, ng);
        px_ = vf::nat("px", 0, nx_ - 1), py_ = vf::nat("py", 0, ny_ - 1), pz_ = vf::nat("pz", 0, nz_ - 1);
        vf::assume(px_ < nx_ && py_ < ny_ && pz_ < nz_);
        a.ox = vf::real("ox", -1, 1), a.oy = vf::real("oy", -1, 1), a.oz = vf::real("oz", -1, 1);
        vf::assume(a.ox != 0 && a.oy != 0 && a.oz != 0);
#ifndef VF_SYM
        if (octant >= 0) a.ox = std::copysign(a.ox, octant & 1 ? -1.0 : 1.0), a.oy = std::copysign(a.oy, octant & 2 ? -1.0 : 1.0), a.oz = std::copysign(a.oz, octant & 4 ? -1.0 : 1.0);
#endif
        if (octant >= 0) vf::assume(vf::all((a.ox > 0) == !(octant & 1), (a.oy > 0) == !(octant & 2), (a.oz > 0) == !(octant & 4)));
        for (int n = 0; n < 3; n++) up[n] = octant >= 0 ? !(octant >> n & 1) : direction(n) > 0;
        a.weight = vf::positive("weight", 1);
    }
    // the face on the upwind (or downwind) side across axis n
    long face(int n, bool upwind) const
    {
        return vf::itei(up[n] != upwind, n == 0 ? (long)Surface::EAST : n == 1 ? (long)Surface::NORTH : (long)Surface::TOP, n == 0 ? (long)Surface::WEST : n == 1 ? (long)Surface::SOUTH : (long)Surface::BOTTOM);
    }
    double direction(int n) const { return n == 0 ? a.ox : n == 1 ? a.oy : a.oz; }
    void pick(int n, bool upwind)
    {
        face_ = face(n, upwind);
#ifndef VF_SYM
        cell_ = m.coarse_cell(Position((int)px_, (int)py_, (int)pz_));
        surf_ = m.coarse_surf(cell_, (Surface)face_);
#endif
    }
    double cur() { return d.current((int)surf_, (int)g); }
    double flux() { return d.surface_flux((int)surf_, (int)g); }
};
// incoming flux on the boundary across axis n
static void incoming(int n, bool flat, int octant = -1)
{
    Setup t(flat, octant);
    t.w = t.a.weight * (flat ? PI : HPI);
    if (flat) vf::assume(nz_ == 1);
    long edge = n == 0 ? (t.up[0] ? 0 : nx_ - 1) : n == 1 ? (t.up[1] ? 0 : ny_ - 1) : (t.up[2] ? 0 : nz_ - 1);
    vf::assume((n == 0 ? px_ : n == 1 ? py_ : pz_) == edge);
    t.pick(n, true);
    double *x = vf::buffer<double>("x", ny_ * nz_), *y = vf::buffer<double>("y", nx_ * nz_), *z = vf::buffer<double>("z", nx_ * ny_);
    double psi = n == 0 ? x[ny_ * pz_ + py_] : n == 1 ? y[nx_ * pz_ + px_] : z[nx_ * py_ + px_];
    double c0 = t.cur(), f0 = t.flux(), c1 = c0 + psi * (t.direction(n) * t.w), f1 = f0 + t.w * psi;
    long outer = n == 2 ? py_ : pz_, inner = n == 0 ? py_ : px_;
    auto is = [&](bool done) { return vf::both(t.cur() == vf::ite(done, c1, c0), t.flux() == vf::ite(done, f1, f0)); };
    if (!flat) {
        vf::hint2("upwind_work", [&](long i, long j) { return is(vf::any(outer < i, vf::both(outer == i, inner < j))); });
        vf::hint1("upwind_work", [&](long i) { return is(outer < i); });
    } else
        vf::hint1("upwind_work", [&](long i) { return is(inner < i); });
    vf::hint1("upwind_work", [&](long) { return is(true); });
    vf::hint1("upwind_work", [&](long) { return is(false); });
    vf::hint2("upwind_work", [&](long, long) { return is(true); });
    vf::hint2("upwind_work", [&](long, long) { return is(false); });
    sn::Current w(&t.d, &t.m);
    w.set_octant(t.a);
    if (flat) w.upwind_work(x, y, t.a, (int)t.g);
    else w.upwind_work(x, y, z, t.a, (int)t.g);
    vf::check(vf::eq(t.cur(), c1), "current through the boundary");
    vf::check(vf::eq(t.flux(), f1), "flux on the boundary");
}
// both signs of the axis in question, with both signs of the others
#define OCTANT(n, o) VF_HARNESS(incoming_##n##_##o) { incoming(n, false, o); }
OCTANT(0, 0) OCTANT(0, 1) OCTANT(0, 6) OCTANT(0, 7)
OCTANT(1, 0) OCTANT(1, 2) OCTANT(1, 5) OCTANT(1, 7)
OCTANT(2, 0) OCTANT(2, 4) OCTANT(2, 3) OCTANT(2, 7)
VF_HARNESS(incoming_x_2d) { incoming(0, true); }
VF_HARNESS(incoming_y_2d) { incoming(1, true); }
// outgoing flux of a cell across axis n (n = 3: any other face)
static void outgoing(int n, bool flat)
{
    Setup t(flat);
    t.w = t.a.weight * (flat ? PI : HPI);
    if (n < 3) t.pick(n, false);
    else {
        face_ = vf::range("face", 0, 5);
        for (int k = 0; k < (flat ? 2 : 3); k++) vf::assume(face_ != t.face(k, false));
        if (flat) vf::assume(face_ != (long)Surface::TOP && face_ != (long)Surface::BOTTOM);
#ifndef VF_SYM
        cell_ = t.m.coarse_cell(Position((int)px_, (int)py_, (int)pz_));
        surf_ = t.m.coarse_surf(cell_, (Surface)face_);
#endif
    }
    double psi[3] = {vf::real("psi_x"), vf::real("psi_y"), vf::real("psi_z")};
    double c1 = t.cur(), f1 = t.flux();
    if (n < 3) c1 += psi[n] * (t.direction(n) * t.w), f1 += psi[n] * t.w;
    sn::Current w(&t.d, &t.m);
    w.set_octant(t.a);
    if (flat) w.current_work(psi[0], psi[1], (size_t)cell_, t.a, (int)t.g);
    else w.current_work(psi[0], psi[1], psi[2], (size_t)cell_, t.a, (int)t.g);
    vf::check(vf::eq(t.cur(), c1), "current through the face");
    vf::check(vf::eq(t.flux(), f1), "flux on the face");
}
VF_HARNESS(outgoing_x) { outgoing(0, false); }
VF_HARNESS(outgoing_y) { outgoing(1, false); }
VF_HARNESS(outgoing_z) { outgoing(2, false); }
VF_HARNESS(outgoing_other) { outgoing(3, false); }
VF_HARNESS(outgoing_x_2d) { outgoing(0, true); }
VF_HARNESS(outgoing_y_2d) { outgoing(1, true); }
VF_HARNESS(outgoing_other_2d) { outgoing(3, true); }
