// C03, bounded: through the public interface only
// trials *: 400 20000
#include <map>
#include "divisions.hpp"
using namespace mocc;
#ifndef VF_SYM
VF_HARNESS(every_surface)
{
    long nx = vf::nat("nx", 1, 7), ny = vf::nat("ny", 1, 7), nz = vf::nat("nz", 1, 5);
    std::array<Boundary, 6> bc;
    bc.fill(Boundary::VACUUM);
    VecF xs = vfm::divisions("dx", "", nx), ys = vfm::divisions("dy", "", ny), zs = vfm::divisions("dz", "", nz);
    Mesh m(nx * ny * nz, nx * ny * nz, xs, ys, zs, bc);
    std::map<long, std::vector<std::pair<long, int>>> owners;
    for (long z = 0; z < nz; z++)
        for (long y = 0; y < ny; y++)
            for (long x = 0; x < nx; x++) {
                long c = m.coarse_cell(Position(x, y, z));
                for (int i = 0; i < 6; i++) owners[m.coarse_surf(c, (Surface)i)].push_back({c, i});
            }
    vf::check((long)owners.size() == (long)m.n_surf() && owners.begin()->first == 0 && owners.rbegin()->first == (long)m.n_surf() - 1, "the surfaces of all cells are numbered consecutively");
    for (auto &o : owners) {
        vf::check(o.second.size() <= 2, "at most two cells share a surface");
        long lo = -1, hi = -1;
        for (auto &p : o.second) {
            bool up = p.second == 0 || p.second == 1 || p.second == 4;
            vf::check((up ? lo : hi) == -1, "a surface has one cell on each side");
            (up ? lo : hi) = p.first;
            Position q = m.coarse_position(p.first);
            double dx = xs[q.x + 1] - xs[q.x], dy = ys[q.y + 1] - ys[q.y], dz = zs[q.z + 1] - zs[q.z];
            int ax = p.second == 0 || p.second == 2 ? 0 : p.second == 1 || p.second == 3 ? 1 : 2;
            vf::check((int)m.surface_normal(o.first) == ax, "normal of a surface");
            double area = ax == 0 ? dy * dz : ax == 1 ? dx * dz : dx * dy;
            vf::check(vf::eq(m.coarse_area(p.first, (Surface)p.second), area) && vf::eq(m.coarse_area(o.first), area), "area of a surface");
        }
        auto n = m.coarse_neigh_cells(o.first);
        vf::check(n.first == lo && n.second == hi, "cells on the two sides of a surface");
        if (lo >= 0 && hi >= 0) {
            long d = hi - lo;
            Position p = m.coarse_position(lo), q = m.coarse_position(hi);
            vf::check((q.x - p.x) + (q.y - p.y) + (q.z - p.z) == 1 && d > 0, "cells sharing a surface touch");
            auto r = m.coarse_interface(lo, hi);
            vf::check((long)r.first == o.first, "surface between two cells");
            for (int i : {0, 1, 4})
                if (m.coarse_surf(lo, (Surface)i) == o.first) vf::check(m.coarse_neighbor(lo, (Surface)i) == hi, "neighbour across a surface");
            for (int i : {2, 3, 5})
                if (m.coarse_surf(hi, (Surface)i) == o.first) vf::check(m.coarse_neighbor(hi, (Surface)i) == lo, "neighbour across a surface");
        }
    }
}
#endif
