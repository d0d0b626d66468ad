// C13, bounded: whole sweeps of the real sweepers on generated cores keep the neutron balance cell by cell
// trials *: 150 3000
#include "sweepers.hpp"
#ifndef VF_SYM
#include "core/coarse_data.hpp"
#include "core/source_isotropic.hpp"
#include "core/xs_mesh_homogenized.hpp"
#include "sn_sweeper_factory.hpp"
#include "cmdo/sn_sweeper_factory_cdd.hpp"
using namespace mocc;

static void sweep_balance(const char *more, bool cdd, bool jacobi)
{
    vfc::Options op;
    op.max_lat = 2;
    vfs::SnInput in(vfc::spec(op), more, vf::range("inner", 1, 3));
    const CoreMesh &m = *in.core.mesh;
    std::shared_ptr<CorrectionData> d;
    std::unique_ptr<sn::SnSweeper> sw;
    if (cdd) {
        auto p = cmdo::SnSweeperFactory_CDD(in.node(), m);
        sw     = std::move(p.first);
        d      = p.second;
        for (int g = 0; g < sw->n_group(); g++)
            for (int a = 0; a < sw->ang_quad().ndir() / 2; a++)
                for (int r = 0; r < d->n_cell(); r++) {
                    double h = 0.35 + 0.2 * ((g * 31 + a * 7 + r * 13) % 17) / 17.0;
                    d->alpha(r, a, g, Normal::X_NORM) = h;
                    d->alpha(r, a, g, Normal::Y_NORM) = h * 0.9 + 0.02;
                    d->beta(r, a, g) = 0.9 + 0.2 * h;
                }
    } else
        sw = SnSweeperFactory(in.node(), m);
    CoarseData cd(m, sw->n_group());
    pugi::xml_document sd;
    sd.load_string("<source scattering=\"P0\" />");
    auto src = sw->create_source(sd.child("source"));
    sw->assign_source(src.get());
    sw->set_coarse_data(&cd);
    sw->initialize();
    ArrayB1 fs(sw->n_reg());
    for (int i = 0; i < sw->n_reg(); i++) {
        fs(i) = 0.2 + vf::range("fs", 0, 10) * 0.1;
        for (int g = 0; g < sw->n_group(); g++) sw->flux()(i, g) = 0.5 + vf::range("flux", 0, 10) * 0.1;
    }
    for (int g = 0; g < sw->n_group(); g++) {
        src->initialize_group(g);
        src->fission(fs, g);
        src->in_scatter(g);
        sw->sweep(g);
        if (m.is_2d()) vf_cover("two dimensions");
        const auto &q  = src->get_transport(0);
        std::vector<double> xs(m.n_pin(), -1.0);
        for (const auto &xsr : sw->xs_mesh())
            for (int r : xsr.reg()) xs[r] = xsr.xsmactr(g);
        for (int i = 0; i < m.n_pin(); i++) {
            if (sw->flux()(i, g) <= 0) continue;      // negative averages are cut off after the sweep
            double l = 0;
            auto j = [&](Surface s) { return cd.current((int)m.coarse_surf(i, s), g); };
            Position p = m.coarse_position(i);
            l += (j(Surface::EAST) - j(Surface::WEST)) / m.dx(p.x);
            l += (j(Surface::NORTH) - j(Surface::SOUTH)) / m.dy(p.y);
            if (!m.is_2d()) l += (j(Surface::TOP) - j(Surface::BOTTOM)) / m.dz(p.z);
            double rem = xs[i] * sw->flux()(i, g);
            double s   = 4 * 3.14159265358979323846 * q[i];
            vf::check(std::fabs(l + rem - s) < 1e-9 * (1 + std::fabs(rem) + std::fabs(s) + std::fabs(l)), "outflow plus removal equals source in every cell");
        }
    }
}
VF_HARNESS(sweep_dd) { sweep_balance("equation=\"dd\"", false, false); }
VF_HARNESS(sweep_dd_jacobi) { sweep_balance("equation=\"dd\" boundary_update=\"jacobi\"", false, true); }
VF_HARNESS(sweep_dd_sc) { sweep_balance("equation=\"dd\" axial=\"sc\"", false, false); }
VF_HARNESS(sweep_cdd_dd) { sweep_balance("equation=\"cdd\" axial=\"dd\"", true, false); }
VF_HARNESS(sweep_cdd_fw) { sweep_balance("equation=\"cdd\" axial=\"fw\"", true, false); }
VF_HARNESS(sweep_cdd_sc) { sweep_balance("equation=\"cdd\" axial=\"sc\"", true, false); }
VF_HARNESS(sweep_cdd_ff) { sweep_balance("equation=\"cdd\" axial=\"dd_ff\"", true, false); }
VF_HARNESS(sweep_cdd_pmb) { sweep_balance("equation=\"cdd\" axial=\"pmb\"", true, false); }
#endif
