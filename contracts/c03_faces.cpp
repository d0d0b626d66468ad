// C03: what the queries about surfaces return, given the surface table of c03_prepare.cpp
// sources: core/constants.cpp core/mesh.cpp core/position.cpp
#include "surfaces.hpp"
using namespace mocc;

static long cell_of(const Mesh &m, long x, long y, long z) { return z * m.nx_ * m.ny_ + y * m.nx_ + x; }

struct At {
    long x, y, z, c;
};
// an arbitrary cell of the mesh; symbolically, the rows of the table for the cell and its six neighbours
static At any_cell(Mesh &m)
{
    long nx = m.nx_, ny = m.ny_, nz = m.nz_;
    At a;
    a.x = vf::nat("x", 0, 5);
    a.y = vf::nat("y", 0, 5);
    a.z = vf::nat("z", 0, 5);
    vf::assume(a.x < nx && a.y < ny && a.z < nz);
    a.c = cell_of(m, a.x, a.y, a.z);
#ifdef VF_SYM
    vf::vec(m.coarse_surf_, "surfs", 6 * nx * ny * nz);
    const int *t = m.coarse_surf_.data();
    vfm::row(t, a.x, a.y, a.z, nx, ny);
#endif
    return a;
}

VF_HARNESS(own_faces)
{
    Mesh &m = vfm::mesh();
    long nx = m.nx_, ny = m.ny_, nz = m.nz_;
    At a = any_cell(m);
    long s[6];
    for (int i = 0; i < 6; i++) s[i] = m.coarse_surf(a.c, (Surface)i);
    for (int i = 0; i < 6; i++) {
        vf::check(s[i] >= 0 && s[i] < nz * vfm::plane_surfs(nx, ny) + nx * ny, "surface numbers are in range");
        for (int j = i + 1; j < 6; j++) vf::check(s[i] != s[j], "six distinct surfaces");
    }
    vf::check(m.surface_normal(s[0]) == Normal::X_NORM, "normal of the east face");
    vf::check(m.surface_normal(s[1]) == Normal::Y_NORM, "normal of the north face");
    vf::check(m.surface_normal(s[2]) == Normal::X_NORM, "normal of the west face");
    vf::check(m.surface_normal(s[3]) == Normal::Y_NORM, "normal of the south face");
    vf::check(m.surface_normal(s[4]) == Normal::Z_NORM, "normal of the top face");
    vf::check(m.surface_normal(s[5]) == Normal::Z_NORM, "normal of the bottom face");
}

VF_HARNESS(plane_range)
{
    Mesh &m = vfm::mesh();
    At a = any_cell(m);
    vf::check(m.plane_surf_begin(a.z) <= m.plane_surf_xy_begin(a.z) && m.plane_surf_xy_begin(a.z) <= m.plane_surf_end(a.z), "plane ranges are ordered");
    for (int i = 0; i < 4; i++) {
        long s = m.coarse_surf(a.c, (Surface)i);
        vf::check(s >= m.plane_surf_xy_begin(a.z) && s < m.plane_surf_end(a.z), "lateral faces lie in their plane's range");
    }
    long b = m.coarse_surf(a.c, Surface::BOTTOM), t = m.coarse_surf(a.c, Surface::TOP);
    vf::check(b >= m.plane_surf_begin(a.z) && b < m.plane_surf_xy_begin(a.z), "bottom faces lie in their plane's range");
    vf::check(t >= m.plane_surf_begin(a.z + 1) && t < m.plane_surf_xy_begin(a.z + 1), "top faces lie in the next plane's range");
}

VF_HARNESS(neighbours)
{
    Mesh &m = vfm::mesh();
    At a = any_cell(m);
    long nx = m.nx_, ny = m.ny_, nz = m.nz_;
    vf::check(m.coarse_neighbor(a.c, Surface::EAST) == (a.x + 1 < nx ? a.c + 1 : -1), "neighbour to the east");
    vf::check(m.coarse_neighbor(a.c, Surface::WEST) == (a.x > 0 ? a.c - 1 : -1), "neighbour to the west");
    vf::check(m.coarse_neighbor(a.c, Surface::NORTH) == (a.y + 1 < ny ? a.c + nx : -1), "neighbour to the north");
    vf::check(m.coarse_neighbor(a.c, Surface::SOUTH) == (a.y > 0 ? a.c - nx : -1), "neighbour to the south");
    vf::check(m.coarse_neighbor(a.c, Surface::TOP) == (a.z + 1 < nz ? a.c + nx * ny : -1), "neighbour above");
    vf::check(m.coarse_neighbor(a.c, Surface::BOTTOM) == (a.z > 0 ? a.c - nx * ny : -1), "neighbour below");
}

VF_HARNESS(shared_faces)
{
    Mesh &m = vfm::mesh();
    At a = any_cell(m);
    long nx = m.nx_, ny = m.ny_, nz = m.nz_;
#ifdef VF_SYM
    const int *t = m.coarse_surf_.data();
#endif
    long d = vf::range("direction", 0, 2);
    if (d == 0) {
        vf::assume(a.x + 1 < nx);
#ifdef VF_SYM
        vfm::row(t, a.x + 1, a.y, a.z, nx, ny);
#endif
        vf::check(m.coarse_surf(a.c, Surface::EAST) == m.coarse_surf(cell_of(m, a.x + 1, a.y, a.z), Surface::WEST), "east neighbours share a surface");
    }
    else if (d == 1) {
        vf::assume(a.y + 1 < ny);
#ifdef VF_SYM
        vfm::row(t, a.x, a.y + 1, a.z, nx, ny);
#endif
        vf::check(m.coarse_surf(a.c, Surface::NORTH) == m.coarse_surf(cell_of(m, a.x, a.y + 1, a.z), Surface::SOUTH), "north neighbours share a surface");
    }
    else {
        vf::assume(a.z + 1 < nz);
#ifdef VF_SYM
        vfm::row(t, a.x, a.y, a.z + 1, nx, ny);
#endif
        vf::check(m.coarse_surf(a.c, Surface::TOP) == m.coarse_surf(cell_of(m, a.x, a.y, a.z + 1), Surface::BOTTOM), "neighbours above share a surface");
    }
}

// the cells on either side of a surface; every surface is the west/south/bottom or east/north/top face of some cell
VF_HARNESS(sides_x)
{
    Mesh &m = vfm::mesh();
    At a = any_cell(m);
    auto e = m.coarse_neigh_cells(m.coarse_surf(a.c, Surface::EAST)), w = m.coarse_neigh_cells(m.coarse_surf(a.c, Surface::WEST));
    vf::check(e.first == a.c && e.second == (a.x + 1 < m.nx_ ? a.c + 1 : -1), "cells on the two sides of the east face");
    vf::check(w.second == a.c && w.first == (a.x > 0 ? a.c - 1 : -1), "cells on the two sides of the west face");
}
VF_HARNESS(sides_y)
{
    Mesh &m = vfm::mesh();
    At a = any_cell(m);
    auto n = m.coarse_neigh_cells(m.coarse_surf(a.c, Surface::NORTH)), s = m.coarse_neigh_cells(m.coarse_surf(a.c, Surface::SOUTH));
    vf::check(n.first == a.c && n.second == (a.y + 1 < m.ny_ ? a.c + m.nx_ : -1), "cells on the two sides of the north face");
    vf::check(s.second == a.c && s.first == (a.y > 0 ? a.c - m.nx_ : -1), "cells on the two sides of the south face");
}
VF_HARNESS(sides_z)
{
    Mesh &m = vfm::mesh();
    At a = any_cell(m);
    long np = m.nx_ * m.ny_;
    auto t = m.coarse_neigh_cells(m.coarse_surf(a.c, Surface::TOP)), b = m.coarse_neigh_cells(m.coarse_surf(a.c, Surface::BOTTOM));
    vf::check(t.first == a.c && t.second == (a.z + 1 < m.nz_ ? a.c + np : -1), "cells on the two sides of the top face");
    vf::check(b.second == a.c && b.first == (a.z > 0 ? a.c - np : -1), "cells on the two sides of the bottom face");
}

#ifdef VF_SYM
// contract of coarse_neighbor, proved by the harness neighbours; used inside coarse_interface
VF_CONTRACT(neighbor, "re:mocc::Mesh::coarse_neighbor[(]")
extern "C" int vfc_neighbor(const Mesh *m, size_t cell, Surface s)
{
    long c = cell, nx = m->nx_, ny = m->ny_, nz = m->nz_;
    vf::check(c >= 0 && c < nx * ny * nz, "coarse_neighbor: valid cell");
    long x = vf::imod(c, nx), y = vf::idiv(vf::imod(c, nx * ny), nx), z = vf::idiv(c, nx * ny);
    switch (s) {
    case Surface::EAST: return vf::itei(x + 1 < nx, c + 1, -1);
    case Surface::WEST: return vf::itei(x > 0, c - 1, -1);
    case Surface::NORTH: return vf::itei(y + 1 < ny, c + nx, -1);
    case Surface::SOUTH: return vf::itei(y > 0, c - nx, -1);
    case Surface::TOP: return vf::itei(z + 1 < nz, c + nx * ny, -1);
    default: return vf::itei(z > 0, c - nx * ny, -1);
    }
}
#endif
// areas and the surface between two cells, one harness per side
static void area_of(int i)
{
    Mesh &m = vfm::mesh();
    At a = any_cell(m);
    double dx = m.dx_vec_[a.x], dy = m.dy_vec_[a.y], dz = m.dz_vec_[a.z];
    double area = i == 0 || i == 2 ? dy * dz : i == 1 || i == 3 ? dx * dz : dx * dy;
    vf::check(vf::eq(m.coarse_area(a.c, (Surface)i), area), "face area of a cell");
    vf::check(vf::eq(m.coarse_area(m.coarse_surf(a.c, (Surface)i)), area), "area of a surface");
}
static void between(int d)
{
    Mesh &m = vfm::mesh();
    At a = any_cell(m);
    long nx = m.nx_, ny = m.ny_, nz = m.nz_;
    long o = d == 0 ? a.c + 1 : d == 1 ? a.c + nx : d == 2 ? a.c - 1 : d == 3 ? a.c - nx : d == 4 ? a.c + nx * ny : a.c - nx * ny;
    vf::assume(d == 0 ? a.x + 1 < nx : d == 1 ? a.y + 1 < ny : d == 2 ? a.x > 0 : d == 3 ? a.y > 0 : d == 4 ? a.z + 1 < nz : a.z > 0);
    auto r = m.coarse_interface(a.c, o);
    vf::check((long)r.first == m.coarse_surf(a.c, r.second) && m.coarse_neighbor(a.c, r.second) == o, "surface between two cells");
}
VF_HARNESS(area_east) { area_of(0); }
VF_HARNESS(area_north) { area_of(1); }
VF_HARNESS(area_west) { area_of(2); }
VF_HARNESS(area_south) { area_of(3); }
VF_HARNESS(area_top) { area_of(4); }
VF_HARNESS(area_bottom) { area_of(5); }
VF_HARNESS(between_east) { between(0); }
VF_HARNESS(between_north) { between(1); }
VF_HARNESS(between_west) { between(2); }
VF_HARNESS(between_south) { between(3); }
VF_HARNESS(between_top) { between(4); }
VF_HARNESS(between_bottom) { between(5); }
