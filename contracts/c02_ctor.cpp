// C02: the constructor establishes the mesh invariant the other contracts start from
// sources: core/mesh.cpp core/position.cpp
#include "meshes.hpp"
using namespace mocc;

#ifdef VF_SYM
// contract of prepare_surfaces (proved in c03_prepare.cpp); frame: the surface table only
VF_CONTRACT(prepare_surfaces, "mocc::Mesh::prepare_surfaces()")
extern "C" void vfc_prepare_surfaces(Mesh *m)
{
    vf::vec(m->coarse_surf_, "surfs", 6 * m->nx_ * m->ny_ * m->nz_);
}
#endif

// opts constructor_invariant: budget=90
VF_HARNESS(constructor_invariant)
{
    long nx = vf::nat("nx", 1, 6), ny = vf::nat("ny", 1, 6), nz = vf::nat("nz", 1, 6);
    vf::assume(6 * nx * ny * nz < 2147483648L);
    VecF x, y, z;
    vf::vec(x, "x", nx + 1);
    vf::vec(y, "y", ny + 1);
    vf::vec(z, "z", nz + 1);
#ifdef VF_SYM
    vf::assume(vfm::increasing(x.data(), nx + 1));
    vf::assume(vfm::increasing(y.data(), ny + 1));
    vf::assume(vfm::increasing(z.data(), nz + 1));
#else
    x = vfm::divisions("dx", "", nx);
    y = vfm::divisions("dy", "", ny);
    z = vfm::divisions("dz", "", nz);
#endif
    std::array<Boundary, 6> bc;
    bc.fill(Boundary::VACUUM);
    Mesh m(nx * ny * nz, nx * ny * nz, x, y, z, bc);
    vf::check(m.nx_ == nx && m.ny_ == ny && m.nz_ == nz, "extents");
    vf::check(vf::eq(m.hx_, x[nx]) && vf::eq(m.hy_, y[ny]) && vf::eq(m.hz_, z[nz]), "sizes");
    vf::check((long)m.n_surf_plane_ == (nx + 1) * ny + (ny + 1) * nx + nx * ny, "surfaces per plane");
    vf::check(vf::forall(0, nx + 1, [&](long i) { return m.x_vec_[i] == x[i]; }), "x divisions");
    vf::check(vf::forall(0, ny + 1, [&](long i) { return m.y_vec_[i] == y[i]; }), "y divisions");
    vf::check(vf::forall(0, nz + 1, [&](long i) { return m.z_vec_[i] == z[i]; }), "z divisions");
    vf::check(vf::forall(0, nx, [&](long i) { return vf::eq(m.dx_vec_[i], x[i + 1] - x[i]); }), "column widths");
    vf::check(vf::forall(0, ny, [&](long i) { return vf::eq(m.dy_vec_[i], y[i + 1] - y[i]); }), "row widths");
    vf::check(vf::forall(0, nz, [&](long i) { return vf::eq(m.dz_vec_[i], z[i + 1] - z[i]); }), "plane heights");
    long ix = vf::nat("ix", 0, 5), iy = vf::nat("iy", 0, 5), iz = vf::nat("iz", 0, 5);
    vf::assume(ix < nx && iy < ny && iz < nz);
    vf::check(vf::eq(m.coarse_vol_[iz * nx * ny + iy * nx + ix], (x[ix + 1] - x[ix]) * (y[iy + 1] - y[iy]) * (z[iz + 1] - z[iz])), "cell volumes");
}
