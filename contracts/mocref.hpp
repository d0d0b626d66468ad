// A characteristics sweep written out ray by ray, as a reference for whole sweeps (native runs only)
#pragma once
#include "moc.hpp"
#ifndef VF_SYM
#include "core/coarse_data.hpp"
#include "core/source_isotropic.hpp"
namespace vfm {
using namespace mocc;
static const double pi = 3.14159265358979323846;
inline bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)); }
struct Sweep {
    vfm::Moc c;
    vfm::Numbering num;
    pugi::xml_document sd;
    UP_Source_t src;
    std::vector<double> xs, self, vol, s0;
    bool jacobi;
    static vfc::Options options()
    {
        vfc::Options op;
        op.max_ng  = 2;
        op.max_pin = 2;
        return op;
    }
    Sweep(bool j) : c(vfc::spec(options()), "", j ? "boundary_update=\"jacobi\"" : ""), num(c.core.s), jacobi(j)
    {
        moc::MoCSweeper &s = *c.s;
        sd.load_string("<source scattering=\"P0\" />");
        src = s.create_source(sd.child("source"));
        s.assign_source(src.get());
        s.initialize();
        for (int i = 0; i < s.n_reg(); i++)
            for (int g = 0; g < s.n_group(); g++) s.flux()(i, g) = 0.5 + vf::range("flux", 0, 10) * 0.1;
        for (auto &b : s.boundary_)
            for (int g = 0; g < s.n_group(); g++)
                for (int a = 0; a < (int)s.ang_quad_.ndir() / 2; a++) {
                    auto p = b.get_boundary(g, a);
                    for (int i = 0; i < p.first; i++) p.second[i] = 0.01 * vf::range("incoming", 0, 30);
                }
        // volumes from the pin shapes and the plane heights
        vol.assign(s.n_reg(), 0.0);
        for (size_t mp = 0; mp < num.first.size(); mp++)
            for (long xy = 0; xy < num.nx * num.ny; xy++) {
                auto areas = c.core.mesh->pins().at((int)c.core.s.pin_at(xy % num.nx, xy / num.nx, num.plane[mp]) + 1)->mesh().areas();
                for (size_t k = 0; k < areas.size(); k++) vol[num.first[mp][xy] + k] = areas[k] * num.height[mp];
            }
    }
    void prepare(int g)
    {
        moc::MoCSweeper &s = *c.s;
        src->initialize_group(g);
        xs.assign(s.n_reg(), 0.0); self = xs; s0 = xs;
        for (int i = 0; i < s.n_reg(); i++) (*src)[i] = s0[i] = 0.1 + vf::range("src", 0, 20) * 0.1;
        for (const auto &x : s.xs_mesh())
            for (int k : x.reg()) { xs[k] = x.xsmactr(g); self[k] = x.xsmacsc().self_scat(g); }
    }
    // the sweep as stated, one ray and one direction at a time
    void reference(int g, std::vector<double> &flux, std::vector<BoundaryCondition> &in)
    {
        moc::MoCSweeper &s = *c.s;
        size_t n           = flux.size();
        for (unsigned inner = 0; inner < s.n_inner_; inner++) {
            std::vector<double> q(n), sum(n, 0.0);
            for (size_t i = 0; i < n; i++) q[i] = (s0[i] + self[i] * flux[i]) / (4 * pi * xs[i]);
            for (size_t mp = 0; mp < num.first.size(); mp++) {
                BoundaryCondition out = s.boundary_out_[mp];
                long first            = num.first[mp][0];
                int uid               = (int)c.core.mesh->unique_plane_ids()[num.plane[mp]];
                for (int a = 0; a < (int)s.ang_quad_.ndir() / 4; a++) {
                    // a quarter of the directions over two octants: each ray serves an angle and its reverse
                    int back  = s.ang_quad_.reverse(a);
                    Angle ang = s.ang_quad_[a];
                    std::vector<std::pair<int, double>> o1, o2;
                    for (const auto &ray : s.rays_[uid][a]) {
                        double w  = ang.weight * s.rays_.spacing(a) * num.height[mp] * std::sin(ang.theta) * pi;
                        int nseg  = ray.nseg();
                        auto fade = [&](int k) { return s.exp_.exp(-xs[ray.seg_index(k) + first] * ray.seg_len(k) / std::sin(ang.theta)); };
                        double psi = in[mp].get_boundary(g, a).second[ray.bc(0)];
                        for (int k = 0; k < nseg; k++) {
                            int r      = ray.seg_index(k) + (int)first;
                            double end = q[r] + (psi - q[r]) * fade(k);
                            sum[r] += w * (psi - end);
                            psi = end;
                        }
                        o1.push_back({ray.bc(1), psi});
                        psi = in[mp].get_boundary(g, back).second[ray.bc(1)];
                        for (int k = nseg - 1; k >= 0; k--) {
                            int r      = ray.seg_index(k) + (int)first;
                            double end = q[r] + (psi - q[r]) * fade(k);
                            sum[r] += w * (psi - end);
                            psi = end;
                        }
                        o2.push_back({ray.bc(0), psi});
                    }
                    for (auto &o : o1) out.get_boundary(0, a).second[o.first] = o.second;
                    for (auto &o : o2) out.get_boundary(0, back).second[o.first] = o.second;
                    if (!jacobi) {
                        in[mp].update(g, a, out);
                        in[mp].update(g, back, out);
                    }
                }
                if (jacobi) in[mp].update(g, out);
            }
            for (size_t i = 0; i < n; i++) flux[i] = sum[i] / (xs[i] * vol[i]) + 4 * pi * q[i];
        }
    }
};
inline void compare(bool jacobi)
{
    Sweep w(jacobi);
    moc::MoCSweeper &s = *w.c.s;
    CoarseData cd(*w.c.core.mesh, s.n_group());
    if (vf::range("currents", 0, 1)) s.set_coarse_data(&cd);
    for (int g = 0; g < s.n_group(); g++) {
        w.prepare(g);
        std::vector<double> flux(s.n_reg()), other(s.n_reg());
        for (int i = 0; i < s.n_reg(); i++) { flux[i] = s.flux()(i, g); other[i] = s.n_group() > 1 ? s.flux()(i, 1 - g) : 0.0; }
        // copies of a boundary have its shape, not its values
        std::vector<BoundaryCondition> in(s.boundary_);
        for (size_t k = 0; k < in.size(); k++) in[k].data_ = s.boundary_[k].data_;
        w.reference(g, flux, in);
        s.sweep(g);
        for (int i = 0; i < s.n_reg(); i++) {
            vf::check(near(flux[i], s.flux()(i, g)), "the scalar flux is the stated sum over the rays");
            if (s.n_group() > 1) vf::check(other[i] == s.flux()(i, 1 - g), "the other group is left alone");
        }
        for (size_t mp = 0; mp < w.num.first.size(); mp++)
            for (int h = 0; h < s.n_group(); h++)
                for (int a = 0; a < (int)s.ang_quad_.ndir() / 2; a++) {
                    auto p = in[mp].get_boundary(h, a), p2 = s.boundary_[mp].get_boundary(h, a);
                    vf::check(p.first == p2.first, "as many incoming values");
                    for (int i = 0; i < p.first; i++) vf::check(near(p.second[i], p2.second[i]), "incoming values for the next sweep");
                }
    }
}
}
#endif
