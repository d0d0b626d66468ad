// A characteristics sweeper on a generated core, built by the real constructors (native runs only)
#pragma once
#ifndef VF_SYM
#include "cores.hpp"
#include "moc/moc_sweeper.hpp"
namespace vfm {
using namespace mocc;
struct Moc {
    vfc::Core core;
    pugi::xml_document doc;
    std::unique_ptr<moc::MoCSweeper> s;
    explicit Moc(const vfc::Spec &sp, const std::string &rays = "", const std::string &more = "") : core(sp)
    {
        std::ostringstream o;
        o << "<sweeper type=\"moc\" n_inner=\"" << vf::range("inner", 1, 3) << "\" " << more << "><ang_quad type=\"ls\" order=\"" << 2 * vf::range("order", 1, 2)
          << "\" /><rays spacing=\"" << vf::range("spacing", 8, 30) / 100.0 << "\" " << rays << "/></sweeper>";
        doc.load_string(o.str().c_str());
        s.reset(new moc::MoCSweeper(doc.child("sweeper"), *core.mesh));
    }
};
// the flat regions of macroplane m and pin position (x,y) in the order of the plane numbering, from the input alone
struct Numbering {
    std::vector<std::vector<long>> first;      // [macroplane][y * nx + x]
    std::vector<long> plane;                    // first plane of each macroplane
    std::vector<double> height;
    long nx, ny, n;
    explicit Numbering(const vfc::Spec &s) : nx(s.npx()), ny(s.npy()), n(0)
    {
        long z = 0;
        for (long np : s.subplane) {
            plane.push_back(z);
            first.push_back(std::vector<long>(nx * ny, 0));
            height.push_back(0.0);
            for (long k = 0; k < np; k++) height.back() += s.dz[z + k];
            // lattice by lattice, and pin by pin within a lattice
            long y0 = 0;
            for (long ly = 0; ly < s.ny_lat; ly++) {
                long x0 = 0;
                for (long lx = 0; lx < s.nx_lat; lx++) {
                    for (size_t y = 0; y < s.wy[ly].size(); y++)
                        for (size_t x = 0; x < s.wx[lx].size(); x++) {
                            long at = (y0 + y) * nx + x0 + x;
                            first.back()[at] = n;
                            n += s.meshes[s.pins[s.pin_at(x0 + x, y0 + y, z)].mesh].n_reg;
                        }
                    x0 += s.wx[lx].size();
                }
                y0 += s.wy[ly].size();
            }
            z += np;
        }
    }
};
}
#endif
