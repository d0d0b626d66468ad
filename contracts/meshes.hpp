// A structured mesh in the state its constructor leaves it in.  Natively it is built by the real constructor;
// symbolically it is an arbitrary mesh satisfying the class invariant (which c02_mesh_ctor.cpp proves of the constructor).
#pragma once
#include "core/mesh.hpp"
#include "divisions.hpp"
#include "vf.hpp"
namespace vfm {
using namespace mocc;
inline bool increasing(const double *p, long n)
{
    return vf::forall(0, n - 1, [&](long i) { return p[i] < p[i + 1]; });
}
// the part of the invariant that concerns the volume of cell (x,y,z), instantiated at one cell
inline void volume_invariant(Mesh &m, long x, long y, long z)
{
#ifdef VF_SYM
    vf::assume(m.coarse_vol_[z * m.nx_ * m.ny_ + y * m.nx_ + x] == m.dx_vec_[x] * m.dy_vec_[y] * m.dz_vec_[z]);
#endif
}
inline Mesh &mesh(long nmax = 6)
{
    Mesh &m = vf::object<Mesh>("mesh");
    long nx = vf::nat("nx", 1, nmax), ny = vf::nat("ny", 1, nmax), nz = vf::nat("nz", 1, nmax);
#ifdef VF_SYM
    m.nx_ = nx;
    m.ny_ = ny;
    m.nz_ = nz;
    vf::vec(m.x_vec_, "x", nx + 1);
    vf::vec(m.y_vec_, "y", ny + 1);
    vf::vec(m.z_vec_, "z", nz + 1);
    vf::vec(m.dx_vec_, "dx", nx);
    vf::vec(m.dy_vec_, "dy", ny);
    vf::vec(m.dz_vec_, "dz", nz);
    vf::vec(m.coarse_vol_, "vol", nx * ny * nz);
    vf::vec(m.macroplane_index_, "macroplane", nz);
    const int *mp = m.macroplane_index_.data();
    vf::assume(vf::forall(0, nz, [&](long i) { return mp[i] >= 0 && mp[i] < nz; }));
    m.n_surf_plane_ = (nx + 1) * ny + (ny + 1) * nx + nx * ny;
    const double *x = m.x_vec_.data(), *y = m.y_vec_.data(), *z = m.z_vec_.data();
    const double *dx = m.dx_vec_.data(), *dy = m.dy_vec_.data(), *dz = m.dz_vec_.data();
    vf::assume(increasing(x, nx + 1));
    vf::assume(increasing(y, ny + 1));
    vf::assume(increasing(z, nz + 1));
    vf::assume(vf::forall(0, nx, [&](long i) { return dx[i] == x[i + 1] - x[i]; }));
    vf::assume(vf::forall(0, ny, [&](long i) { return dy[i] == y[i + 1] - y[i]; }));
    vf::assume(vf::forall(0, nz, [&](long i) { return dz[i] == z[i + 1] - z[i]; }));
    m.hx_ = x[nx];
    m.hy_ = y[ny];
    m.hz_ = z[nz];
#else
    std::array<Boundary, 6> bc;
    bc.fill(Boundary::VACUUM);
    new (&m) Mesh(nx * ny * nz, nx * ny * nz, divisions("x", "", nx), divisions("y", "", ny), divisions("z", "", nz), bc);
    // macroplanes are arbitrary groups of consecutive planes
    for (long i = 0, k = 0; i < nz; i++) {
        m.macroplane_index_[i] = k;
        if (vf::boolean("group_end")) k++;
    }
#endif
    return m;
}
}
