// C22, bounded: currents and surface fluxes recorded by whole sweeps of the real sweepers on generated cores
// trials *: 150 3000
#include "moc.hpp"
#include "sweepers.hpp"
#ifndef VF_SYM
#include "core/coarse_data.hpp"
#include "core/source_isotropic.hpp"
#include "core/xs_mesh_homogenized.hpp"
#include "sn_sweeper_factory.hpp"
using namespace mocc;
static const double four_pi = 4 * 3.14159265358979323846;
static vfc::Options options(bool reflect = false)
{
    vfc::Options op;
    op.max_ng  = 2;
    op.max_pin = 2;
    if (reflect) op.all_bc = 1;
    return op;
}
struct Run {
    CoarseData cd;
    pugi::xml_document sd;
    UP_Source_t src;
    Run(TransportSweeper &s, const CoreMesh &m) : cd(m, s.n_group())
    {
        sd.load_string("<source scattering=\"P0\" />");
        src = s.create_source(sd.child("source"));
        s.assign_source(src.get());
        s.set_coarse_data(&cd);
        s.initialize();
        // values that a sweep must not add to
        cd.current      = 3.0;
        cd.surface_flux = 5.0;
    }
};
// a source that keeps a flux of one everywhere
static void level(TransportSweeper &s, Source &src, int g)
{
    src.initialize_group(g);
    for (const auto &x : s.xs_mesh())
        for (int r : x.reg()) src[r] = x.xsmacrm(g);
}
VF_HARNESS(moc_balance)
{
    vfm::Moc c(vfc::spec(options()));
    moc::MoCSweeper &s = *c.s;
    const CoreMesh &m  = *c.core.mesh;
    const vfc::Spec &sp = c.core.s;
    vfm::Numbering num(sp);
    Run r(s, m);
    for (int i = 0; i < s.n_reg(); i++)
        for (int g = 0; g < s.n_group(); g++) s.flux()(i, g) = 0.5 + vf::range("flux", 0, 10) * 0.1;
    for (int g = 0; g < s.n_group(); g++) {
        r.src->initialize_group(g);
        for (int i = 0; i < s.n_reg(); i++) (*r.src)[i] = 0.1 + vf::range("src", 0, 20) * 0.1;
        s.sweep(g);
        const auto &q = r.src->get_transport(0);
        std::vector<double> xs(s.n_reg(), -1.0);
        for (const auto &x : s.xs_mesh())
            for (int k : x.reg()) xs[k] = x.xsmactr(g);
        long nxy = num.nx * num.ny;
        for (size_t mp = 0; mp < num.first.size(); mp++)
            for (long xy = 0; xy < nxy; xy++) {
                long id    = sp.pin_at(xy % num.nx, xy / num.nx, num.plane[mp]);
                auto areas = m.pins().at((int)id + 1)->mesh().areas();
                double gain = 0, lost = 0, pin = 0;
                for (size_t k = 0; k < areas.size(); k++) {
                    long i = num.first[mp][xy] + k;
                    gain += areas[k] * q[i] * xs[i] * four_pi;
                    lost += areas[k] * s.flux()((int)i, g) * xs[i];
                    pin += areas[k];
                }
                for (long z = num.plane[mp]; z < num.plane[mp] + sp.subplane[mp]; z++) {
                    int cell = (int)(z * nxy + xy);
                    auto j   = [&](Surface f) { return r.cd.current((int)m.coarse_surf(cell, f), g); };
                    Position p = m.coarse_position(cell);
                    double out = (j(Surface::EAST) - j(Surface::WEST)) * m.dy(p.y) + (j(Surface::NORTH) - j(Surface::SOUTH)) * m.dx(p.x);
                    vf::check(std::fabs(out + lost - gain) < 1e-8 * (1 + std::fabs(out) + lost + gain), "outflow plus removal equals source in every pin of every plane");
                    for (Surface f : {Surface::EAST, Surface::WEST, Surface::NORTH, Surface::SOUTH}) {
                        int first = (int)m.coarse_surf((int)(num.plane[mp] * nxy + xy), f);
                        vf::check(std::fabs(j(f) - r.cd.current(first, g)) < 1e-12, "the planes of a macroplane have the same currents");
                    }
                }
            }
    }
}
VF_HARNESS(moc_level)
{
    vfm::Moc c(vfc::spec(options(true)));
    moc::MoCSweeper &s = *c.s;
    const CoreMesh &m  = *c.core.mesh;
    const vfc::Spec &sp = c.core.s;
    Run r(s, m);
    for (int g = 0; g < s.n_group(); g++) {
        level(s, *r.src, g);
        s.sweep(g);
        for (int i = 0; i < s.n_reg(); i++) vf::check(std::fabs(s.flux()(i, g) - 1.0) < 1e-10, "a uniform flux stays uniform");
        auto xs = sp.xs(), ys = sp.ys();
        long z0 = 0;
        for (size_t mp = 0; mp < sp.subplane.size(); mp++) {
            for (long k = 0; k < sp.subplane[mp]; k++)
                for (long line = 0; line <= sp.npx(); line++) {
                    double cur = 0;
                    for (long y = 0; y < sp.npy(); y++) {
                        int cell = (int)(((z0 + k) * sp.npy() + y) * sp.npx() + std::min(line, sp.npx() - 1));
                        int surf = (int)m.coarse_surf(cell, line < sp.npx() ? Surface::WEST : Surface::EAST);
                        cur += r.cd.current(surf, g) * m.dy((int)y);
                    }
                    vf::check(std::fabs(cur) < 1e-10, "no net current in a uniform flux");
                }
            // surface fluxes are kept by macroplane
            for (long line = 0; line <= sp.npx(); line++) {
                double sum = 0;
                for (long y = 0; y < sp.npy(); y++) {
                    int cell = (int)((mp * sp.npy() + y) * sp.npx() + std::min(line, sp.npx() - 1));
                    sum += r.cd.surface_flux((int)m.coarse_surf(cell, line < sp.npx() ? Surface::WEST : Surface::EAST), g) * m.dy((int)y);
                }
                vf::check(std::fabs(sum - ys.back()) < 1e-9 * (1 + ys.back()), "flux on the faces across x");
            }
            for (long line = 0; line <= sp.npy(); line++) {
                double sum = 0;
                for (long x = 0; x < sp.npx(); x++) {
                    int cell = (int)((mp * sp.npy() + std::min(line, sp.npy() - 1)) * sp.npx() + x);
                    sum += r.cd.surface_flux((int)m.coarse_surf(cell, line < sp.npy() ? Surface::SOUTH : Surface::NORTH), g) * m.dx((int)x);
                }
                vf::check(std::fabs(sum - xs.back()) < 1e-9 * (1 + xs.back()), "flux on the faces across y");
            }
            z0 += sp.subplane[mp];
        }
    }
}
VF_HARNESS(sn_level)
{
    vfs::SnInput in(vfc::spec(options(true)), "equation=\"dd\"", vf::range("inner", 1, 3));
    const CoreMesh &m = *in.core.mesh;
    auto sw = SnSweeperFactory(in.node(), m);
    Run r(*sw, m);
    for (int g = 0; g < sw->n_group(); g++) {
        level(*sw, *r.src, g);
        sw->sweep(g);
        for (int i = 0; i < m.n_pin(); i++) {
            vf::check(std::fabs(sw->flux()(i, g) - 1.0) < 1e-10, "a uniform flux stays uniform");
            for (Surface f : AllSurfaces) {
                if (m.is_2d() && (f == Surface::TOP || f == Surface::BOTTOM)) continue;
                int k = (int)m.coarse_surf(i, f);
                vf::check(std::fabs(r.cd.current(k, g)) < 1e-10, "no net current in a uniform flux");
                vf::check(std::fabs(r.cd.surface_flux(k, g) - 1.0) < 1e-9, "surface flux of a uniform flux");
            }
        }
    }
}
#endif
