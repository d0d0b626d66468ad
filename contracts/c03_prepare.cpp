// C03: the surface table is filled with the numbering the other contracts start from
// sources: core/mesh.cpp core/position.cpp
#include "surfaces.hpp"
using namespace mocc;

VF_HARNESS(surface_table)
{
    long nx = vf::nat("nx", 1, 6), ny = vf::nat("ny", 1, 6), nz = vf::nat("nz", 1, 6);
    vf::assume(6 * nx * ny * nz < 2147483648L && (nz + 1) * vfm::plane_surfs(nx, ny) < 2147483648L);
    Mesh &m = vf::object<Mesh>("mesh");
#ifndef VF_SYM
    new (&m) Mesh();
#endif
    m.nx_ = nx;
    m.ny_ = ny;
    m.nz_ = nz;
    auto done = [&](long n) {
        const int *t = m.coarse_surf_.data();
        return vf::forall(0, n, [&](long c) { return vfm::numbered(t, c, nx, ny); });
    };
    vf::hint3("prepare_surfaces", [&](long iz, long iy, long ix) { return done(iz * nx * ny + iy * nx + ix); });
    vf::hint2("prepare_surfaces", [&](long iz, long iy) { return done(iz * nx * ny + iy * nx); });
    vf::hint1("prepare_surfaces", [&](long iz) { return done(iz * nx * ny); });
    m.prepare_surfaces();
    vf::check((long)m.coarse_surf_.size() == 6 * nx * ny * nz, "six surfaces for every cell");
    vf::check(done(nx * ny * nz), "surface numbers of every cell");
}
