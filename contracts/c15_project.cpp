// C15, bounded: pin fluxes of real sweepers read and set in any order
// trials *: 1000 30000
#include "moc.hpp"
#include "sweepers.hpp"
#ifndef VF_SYM
using namespace mocc;
static bool close(double a, double b) { return std::abs(a - b) <= 1e-11 * (std::abs(a) + std::abs(b)); }
static double flux_value() { return vf::range("phi", 1, 1000) / 100.0; }
struct MocCase {
    vfm::Moc m;
    vfm::Numbering num;
    TransportSweeper &s;
    const CoreMesh &mesh;
    long ng;
    MocCase() : m(vfc::spec(options())), num(m.core.s), s(*m.s), mesh(*m.core.mesh), ng(m.core.s.ng) {}
    static vfc::Options options()
    {
        vfc::Options op;
        op.max_ng = 3;
        op.max_pin = 2;
        return op;
    }
    // volume-weighted average of the regions of a pin of a macroplane, with areas from the pin's mesh
    double average(const ArrayB2 &f, long mp, long xy, long g) const
    {
        const vfc::Spec &sp = m.core.s;
        auto areas = areas_of(mp, xy);
        double v = 0, t = 0;
        for (size_t i = 0; i < areas.size(); i++) {
            v += areas[i];
            t += areas[i] * f((int)(num.first[mp][xy] + i), (int)g);
        }
        vf::check(close(v, sp.wx[0][0] * sp.wy[0][0]), "areas add up to the pin");
        return t / v;
    }
    std::vector<double> areas_of(long mp, long xy) const
    {
        const vfc::Spec &sp = m.core.s;
        long id = sp.pin_at(xy % num.nx, xy / num.nx, num.plane[mp]);
        auto a = mesh.pins().at((int)id + 1)->mesh().areas();
        return std::vector<double>(a.begin(), a.end());
    }
};
VF_HARNESS(moc_read)
{
    MocCase c;
    vf::check(c.s.n_reg() == c.num.n, "number of regions");
    ArrayB2 &f = c.s.flux();
    for (int i = 0; i < c.num.n; i++) for (int g = 0; g < c.ng; g++) f(i, g) = flux_value();
    ArrayB2 keep(f.copy());
    ArrayB2 pp = c.s.get_pin_flux(MeshTreatment::PIN_PLANE), p = c.s.get_pin_flux(MeshTreatment::PIN);
    for (size_t mp = 0; mp < c.num.first.size(); mp++)
        for (long xy = 0; xy < c.num.nx * c.num.ny; xy++)
            for (long g = 0; g < c.ng; g++) {
                double want = c.average(f, mp, xy, g);
                vf::check(close(pp((int)(mp * c.num.nx * c.num.ny + xy), (int)g), want), "average over the pin of a macroplane");
                for (long z = c.num.plane[mp]; z < c.num.plane[mp] + c.m.core.s.subplane[mp]; z++)
                    vf::check(close(p((int)(z * c.num.nx * c.num.ny + xy), (int)g), want), "average over the pin of each plane");
            }
    for (int i = 0; i < c.num.n; i++) for (int g = 0; g < c.ng; g++) vf::check(f(i, g) == keep(i, g), "reading changes nothing");
}
static void moc_set(MeshTreatment how)
{
    MocCase c;
    ArrayB2 &f = c.s.flux();
    for (int i = 0; i < c.num.n; i++) for (int g = 0; g < c.ng; g++) f(i, g) = flux_value();
    long nxy = c.num.nx * c.num.ny, nz = how == MeshTreatment::PIN ? c.m.core.s.nz : (long)c.num.first.size();
    for (int round = 0; round < 2; round++) {
        ArrayB2 keep(f.copy());
        ArrayB2 want(nz * nxy, c.ng);
        bool same = round == 1 && vf::boolean("same");
        if (same) want = c.s.get_pin_flux(how);
        else
            for (int i = 0; i < nz * nxy; i++) for (int g = 0; g < c.ng; g++) want(i, g) = flux_value();
        double total = 0;
        std::vector<std::vector<double>> now(c.num.first.size() * nxy, std::vector<double>(c.ng));
        for (size_t mp = 0; mp < c.num.first.size(); mp++)
            for (long xy = 0; xy < nxy; xy++)
                for (long g = 0; g < c.ng; g++) {
                    double w = 0;
                    if (how == MeshTreatment::PIN) {
                        // the average over the planes of the macroplane
                        for (long z = c.num.plane[mp]; z < c.num.plane[mp] + c.m.core.s.subplane[mp]; z++) w += c.m.core.s.dz[z] * want((int)(z * nxy + xy), (int)g);
                        w /= c.num.height[mp];
                    } else w = want((int)(mp * nxy + xy), (int)g);
                    now[mp * nxy + xy][g] = w;
                    double e = w - c.average(keep, mp, xy, g);
                    total += e * e;
                }
        double r = vf::boolean("onegroup") && c.ng == 1 ? c.s.set_pin_flux_1g(0, ArrayB1(want(blitz::Range::all(), 0)), how) : c.s.set_pin_flux(want, how);
        vf::check(std::abs(r - std::sqrt(total) / now.size()) <= 1e-10, "residual");
        ArrayB2 back = c.s.get_pin_flux(MeshTreatment::PIN_PLANE);
        for (size_t mp = 0; mp < c.num.first.size(); mp++)
            for (long xy = 0; xy < nxy; xy++)
                for (long g = 0; g < c.ng; g++) {
                    int at = (int)(mp * nxy + xy);
                    vf::check(close(back(at, (int)g), now[at][g]), "the values set are read back");
                    double factor = now[at][g] / c.average(keep, mp, xy, g);
                    long first = c.num.first[mp][xy], n = c.areas_of(mp, xy).size();
                    for (long i = first; i < first + n; i++) vf::check(close(f((int)i, (int)g), factor * keep((int)i, (int)g)), "one factor for all regions of the pin");
                }
        if (same) for (int i = 0; i < c.num.n; i++) for (int g = 0; g < c.ng; g++) vf::check(close(f(i, g), keep(i, g)), "setting what was read changes nothing");
    }
}
VF_HARNESS(moc_set_plane) { moc_set(MeshTreatment::PIN_PLANE); }
VF_HARNESS(moc_set_pin) { moc_set(MeshTreatment::PIN); }
VF_HARNESS(moc_bad)
{
    MocCase c;
    ArrayB1 v(c.mesh.n_reg(MeshTreatment::PIN_PLANE));
    v = 1.0;
    long at = vf::range("at", 0, 1000) % v.size();
    v((int)at) = vf::boolean("zero") ? 0.0 : -0.5;
    c.s.flux() = 2.0;
    bool threw = false;
    try { c.s.set_pin_flux_1g(0, v, MeshTreatment::PIN_PLANE); } catch (...) { threw = true; }
    vf::check(threw, "a flux that is not positive is refused");
    for (auto x : c.s.flux()) vf::check(x == 2.0, "and changes nothing");
}
VF_HARNESS(sn)
{
    vfc::Options op;
    op.max_ng = 3;
    op.max_pin = 2;
    vfs::SnInput in(vfc::spec(op));
    std::unique_ptr<TransportSweeper> s(new sn::SnSweeper_DD(in.node(), *in.core.mesh));
    const vfc::Spec &sp = in.core.s;
    long nxy = sp.npx() * sp.npy(), ng = sp.ng, nm = sp.subplane.size();
    vf::check(s->n_reg() == nxy * sp.nz, "number of regions");
    ArrayB2 &f = s->flux();
    for (int i = 0; i < f.extent(0); i++) for (int g = 0; g < ng; g++) f(i, g) = flux_value();
    vfm::Numbering num(sp);
    auto average = [&](const ArrayB2 &a, long mp, long xy, long g) {
        double t = 0;
        for (long z = num.plane[mp]; z < num.plane[mp] + sp.subplane[mp]; z++) t += sp.dz[z] * a((int)(z * nxy + xy), (int)g);
        return t / num.height[mp];
    };
    for (int round = 0; round < 3; round++) {
        ArrayB2 keep(f.copy());
        ArrayB2 p = s->get_pin_flux(MeshTreatment::PIN), pp = s->get_pin_flux(MeshTreatment::PIN_PLANE);
        for (int g = 0; g < ng; g++) {
            for (int i = 0; i < nxy * sp.nz; i++) vf::check(p(i, g) == keep(i, g), "flux of the pin");
            for (long m = 0; m < nm; m++)
                for (long xy = 0; xy < nxy; xy++) vf::check(close(pp((int)(m * nxy + xy), g), average(keep, m, xy, g)), "average over the macroplane");
        }
        bool plane = vf::boolean("plane"), same = vf::boolean("same");
        ArrayB2 want(plane ? pp.copy() : p.copy());
        if (!same) for (auto &v : want) v = flux_value();
        double total = 0, r = s->set_pin_flux(want, plane ? MeshTreatment::PIN_PLANE : MeshTreatment::PIN);
        ArrayB2 back = s->get_pin_flux(plane ? MeshTreatment::PIN_PLANE : MeshTreatment::PIN);
        for (int g = 0; g < ng; g++)
            for (int i = 0; i < want.extent(0); i++) {
                vf::check(close(back(i, g), want(i, g)), "the values set are read back");
                double e = want(i, g) - (plane ? pp(i, g) : p(i, g));
                total += e * e;
            }
        if (plane)
            for (long m = 0; m < nm; m++)
                for (long z = num.plane[m]; z < num.plane[m] + sp.subplane[m]; z++)
                    for (long xy = 0; xy < nxy; xy++)
                        for (int g = 0; g < ng; g++)
                            vf::check(close(f((int)(z * nxy + xy), g), keep((int)(z * nxy + xy), g) * want((int)(m * nxy + xy), g) / average(keep, m, xy, g)), "one factor for all planes of the pin");
        if (same) for (int i = 0; i < f.extent(0); i++) for (int g = 0; g < ng; g++) vf::check(close(f(i, g), keep(i, g)), "setting what was read changes nothing");
        vf::check(std::abs(r - std::sqrt(total)) <= 1e-10 * (1 + total), "residual");
    }
}
#endif
