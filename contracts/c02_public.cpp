// C02, bounded: through the public interface only
// trials *: 400 20000
#include <map>
#include "divisions.hpp"
using namespace mocc;
#ifndef VF_SYM
VF_HARNESS(every_cell)
{
    long nx = vf::nat("nx", 1, 7), ny = vf::nat("ny", 1, 7), nz = vf::nat("nz", 1, 5);
    std::array<Boundary, 6> bc;
    bc.fill(Boundary::VACUUM);
    VecF xs = vfm::divisions("dx", "", nx), ys = vfm::divisions("dy", "", ny), zs = vfm::divisions("dz", "", nz);
    Mesh m(nx * ny * nz, nx * ny * nz, xs, ys, zs, bc);
    vf::check((long)m.n_pin() == nx * ny * nz && (long)m.nx() == nx && (long)m.ny() == ny && (long)m.nz() == nz, "extents");
    std::map<long, long> seen;
    double fx = vf::range("fx", 1, 999) / 1000.0, fy = vf::range("fy", 1, 999) / 1000.0, fz = vf::range("fz", 1, 999) / 1000.0;
    for (long z = 0; z < nz; z++)
        for (long y = 0; y < ny; y++)
            for (long x = 0; x < nx; x++) {
                int c = m.coarse_cell(Position(x, y, z));
                vf::check(c >= 0 && c < nx * ny * nz && !seen[c]++, "distinct cells inside of the mesh");
                Position p = m.coarse_position(c);
                vf::check(p.x == x && p.y == y && p.z == z, "position of a cell");
                vf::check(c >= m.plane_cell_begin(z) && c < m.plane_cell_end(z) && m.plane_cell_end(z) - m.plane_cell_begin(z) == nx * ny, "cells of a plane");
                double dx = xs[x + 1] - xs[x], dy = ys[y + 1] - ys[y], dz = zs[z + 1] - zs[z];
                vf::check(vf::eq(m.cell_thickness(c, Normal::X_NORM), dx) && vf::eq(m.cell_thickness(c, Normal::Y_NORM), dy) &&
                              vf::eq(m.cell_thickness(c, Normal::Z_NORM), dz), "thickness of a cell");
                vf::check(vf::eq(m.dx(x), dx) && vf::eq(m.dy(y), dy) && vf::eq(m.dz(z), dz), "widths");
                vf::check(vf::eq(m.coarse_volume(c), dx * dy * dz) && vf::eq(m.coarse_volume()[c], dx * dy * dz), "volume of a cell");
                Point3 q(xs[x] + fx * dx, ys[y] + fy * dy, zs[z] + fz * dz);
                vf::check(m.coarse_cell_point(q) == c, "cell of a point");
                vf::check(m.coarse_cell_point(Point2(q.x, q.y)) == m.coarse_cell(Position(x, y, 0)), "cell of a point in the plane");
            }
}
#endif
