// C10, bounded: homogenized cross sections of real cores against reaction rates summed over the flat regions
// trials *: 1000 30000
#include "core/xs_mesh_homogenized.hpp"
#include "xsmesh.hpp"
#ifndef VF_SYM
using namespace mocc;
struct Reg {
    double area;
    const Material *mat;
};
// the flat regions of a pin in the order of their numbers, with their areas and materials
static std::vector<Reg> regions(const CoreMesh &cm, const Pin &p)
{
    std::vector<Reg> v;
    auto areas = p.mesh().areas();
    int i = 0;
    for (int id : p.mat_ids()) {
        for (int k = 0; k < (int)p.mesh().n_fsrs(i); k++) v.push_back({areas[v.size()], &cm.mat_lib().get_material_by_id(id)});
        i++;
    }
    vf::check(v.size() == areas.size(), "each region has a material");
    return v;
}
static double dense(const ScatteringMatrix &m, int ng, int to, int from) { return m.as_vector()[to * ng + from]; }
// rates of a pin's regions with a flux (region, group), against the homogenized data of its region
static void rates(const std::vector<Reg> &r, int ng, const std::vector<std::vector<double>> &phi, const XSMeshRegion &x)
{
    double source = 0, spectrum = 0;
    std::vector<double> tot(ng, 0.0);
    for (size_t i = 0; i < r.size(); i++)
        for (int g = 0; g < ng; g++) {
            tot[g] += r[i].area * phi[i][g];
            source += r[i].area * phi[i][g] * r[i].mat->xsnf(g);
        }
    std::vector<double> out(ng, 0.0);
    for (int g = 0; g < ng; g++) {
        double tr = 0, nf = 0, f = 0, ch = 0;
        for (size_t i = 0; i < r.size(); i++) {
            double w = r[i].area * phi[i][g], s = 0;
            tr += w * r[i].mat->xstr(g);
            nf += w * r[i].mat->xsnf(g);
            f += w * r[i].mat->xsf(g);
            for (int h = 0; h < ng; h++) s += r[i].area * phi[i][h] * r[i].mat->xsnf(h);
            ch += s * r[i].mat->xsch(g);
        }
        vf::check(vf::eq(x.xsmactr(g) * tot[g], tr), "transport rate");
        vf::check(vf::eq(x.xsmacnf(g) * tot[g], nf), "nu-fission rate");
        vf::check(vf::eq(x.xsmacf(g) * tot[g], f), "fission rate");
        vf::check(source > 0 ? vf::eq(x.xsmacch(g) * source, ch) : x.xsmacch(g) == 0, "fission neutrons born in the group");
        spectrum += x.xsmacch(g);
        for (int h = 0; h < ng; h++) {
            double sc = 0;
            for (size_t i = 0; i < r.size(); i++) sc += r[i].area * phi[i][h] * dense(r[i].mat->xssc(), ng, g, h);
            vf::check(vf::eq(dense(x.xsmacsc(), ng, g, h) * tot[h], sc), "scattering rate");
            out[h] += dense(x.xsmacsc(), ng, g, h);
        }
        vf::check(vf::eq(x.xsmacrm(g), x.xsmactr(g) - dense(x.xsmacsc(), ng, g, g)), "removal is transport less self-scatter");
    }
    vf::check(source <= 0 || vf::eq(spectrum, 1.0), "spectrum sums to one");
    for (int g = 0; g < ng; g++) vf::check(vf::eq(x.xsmacsc().out(g), out[g]), "out-scatter of the group");
}
static double power(double x, int n) { return n <= 0 ? 1.0 : x * power(x, n - 1); }
// the flux of flat region i: what the history asks for
static std::vector<std::vector<double>> flat(size_t n, int ng) { return std::vector<std::vector<double>>(n, std::vector<double>(ng, 1.0)); }
VF_HARNESS(volume_weighted)
{
    vfc::Core c(vfc::spec());
    const CoreMesh &cm = *c.mesh;
    XSMeshHomogenized m(cm);
    int ng = c.s.ng, i = 0;
    vf::check((int)m.n_group() == ng, "number of groups");
    std::vector<int> seen(cm.n_pin(), 0);
    int nxy = (int)(cm.nx() * cm.ny());
    for (const auto &mp : cm.macroplanes()) {
        int at = 0;
        for (const auto &p : mp) {
            auto r = regions(cm, *p);
            rates(r, ng, flat(r.size(), ng), m[i]);
            Position pos = cm.pin_position(at);
            vf::check((int)m[i].reg().size() == mp.iz_max - mp.iz_min + 1, "one coarse cell for each plane of the macroplane");
            for (int k : m[i].reg()) {
                vf::check(k >= 0 && k < (int)seen.size() && !seen[k], "each coarse cell is listed once");
                seen[k] = 1;
                vf::check(k % nxy == pos.y * (int)cm.nx() + pos.x && k / nxy >= mp.iz_min && k / nxy <= mp.iz_max, "coarse cell of the pin");
            }
            at++;
            i++;
        }
    }
    vf::check(i == (int)m.size(), "one region for each pin of each macroplane");
    for (int s : seen) vf::check(s == 1, "each coarse cell has a region");
    vf::check(m.n_reg_expanded() == (int)cm.n_pin(), "number of coarse cells");
    // no flux, no change
    std::vector<double> before;
    for (const auto &x : m) for (int g = 0; g < ng; g++) before.push_back(x.xsmactr(g));
    m.update();
    size_t at = 0;
    for (const auto &x : m) for (int g = 0; g < ng; g++) vf::check(x.xsmactr(g) == before[at++], "an update without a flux changes nothing");
}
VF_HARNESS(flux_weighted)
{
    vfc::Core c(vfc::spec());
    const CoreMesh &cm = *c.mesh;
    XSMeshHomogenized m(cm);
    int ng = c.s.ng;
    int n  = (int)cm.n_reg(MeshTreatment::PLANE);
    ArrayB2 flux(n, ng);
    m.set_flux(flux);
    int rounds = (int)vf::range("rounds", 1, 3);
    for (int k = 0; k < rounds; k++) {
        double scale = power(10.0, (int)vf::range("scale", 0, 3));
        // some regions, or all of one group, may hold very little flux
        int dim = (int)vf::range("dim", 0, ng);
        for (int r = 0; r < n; r++)
            for (int g = 0; g < ng; g++) flux(r, g) = (g == dim ? 1e-3 : 1.0) * vf::range("phi", 1, 1000) / 100.0 * scale;
        m.update();
        int i = 0, at = 0;
        for (const auto &mp : cm.macroplanes())
            for (const auto &p : mp) {
                auto r = regions(cm, *p);
                std::vector<std::vector<double>> phi;
                for (size_t j = 0; j < r.size(); j++, at++) {
                    phi.push_back({});
                    for (int g = 0; g < ng; g++) phi.back().push_back(flux(at, g));
                }
                rates(r, ng, phi, m[i++]);
            }
        vf::check(at == n && i == (int)m.size(), "all regions are used");
    }
}
// a uniform flux gives the volume-weighted data, and a pin of one material its own data whatever the flux
VF_HARNESS(uniform)
{
    vfc::Core c(vfc::spec());
    const CoreMesh &cm = *c.mesh;
    XSMeshHomogenized a(cm), b(cm);
    int ng = c.s.ng;
    ArrayB2 flux((int)cm.n_reg(MeshTreatment::PLANE), ng);
    double level = vf::range("level", 1, 500) / 10.0;
    flux = level;
    b.set_flux(flux);
    b.update();
    for (int i = 0; i < (int)a.size(); i++)
        for (int g = 0; g < ng; g++) {
            vf::check(vf::eq(a[i].xsmactr(g), b[i].xsmactr(g)) && vf::eq(a[i].xsmacnf(g), b[i].xsmacnf(g)) && vf::eq(a[i].xsmacf(g), b[i].xsmacf(g)) &&
                          vf::eq(a[i].xsmacch(g), b[i].xsmacch(g)),
                      "uniform flux");
            for (int h = 0; h < ng; h++) vf::check(vf::eq(dense(a[i].xsmacsc(), ng, g, h), dense(b[i].xsmacsc(), ng, g, h)), "uniform flux");
        }
    for (int r = 0; r < flux.extent(0); r++)
        for (int g = 0; g < ng; g++) flux(r, g) = vf::range("phi", 1, 1000) / 100.0;
    b.update();
    int i = 0;
    for (const auto &mp : cm.macroplanes())
        for (const auto &p : mp) {
            bool one = true;
            for (int id : p->mat_ids()) one = one && id == p->mat_ids()[0];
            if (one) {
                const Material &mat = cm.mat_lib().get_material_by_id(p->mat_ids()[0]);
                for (int g = 0; g < ng; g++) {
                    vf::check(vf::eq(b[i].xsmactr(g), mat.xstr(g)) && vf::eq(b[i].xsmacnf(g), mat.xsnf(g)) && vf::eq(b[i].xsmacf(g), mat.xsf(g)), "one material");
                    vf::check(!mat.is_fissile() || vf::eq(b[i].xsmacch(g), mat.xsch(g)), "one material");
                }
            }
            i++;
        }
}
#endif
