// C02: cell indices and positions
// sources: core/mesh.cpp core/position.cpp
#include "meshes.hpp"
#include "stdc.hpp"
using namespace mocc;
using vfm::mesh;

VF_HARNESS(index_position_index)
{
    Mesh &m = mesh();
    long i  = vf::nat("cell", 0, 215);
    vf::assume(i < m.nx_ * m.ny_ * m.nz_);
    Position p = m.coarse_position(i);
    vf::check(p.x >= 0 && p.x < m.nx_, "x inside");
    vf::check(p.y >= 0 && p.y < m.ny_, "y inside");
    vf::check(p.z >= 0 && p.z < m.nz_, "z inside");
    vf::check(m.coarse_cell(p) == i, "index of position of index");
}
VF_HARNESS(position_index_position)
{
    Mesh &m = mesh();
    long x = vf::nat("x", 0, 5), y = vf::nat("y", 0, 5), z = vf::nat("z", 0, 5);
    vf::assume(x < m.nx_ && y < m.ny_ && z < m.nz_);
    int c = m.coarse_cell(Position(x, y, z));
    vf::check(c >= 0 && c < m.n_pin(), "index inside");
    Position p = m.coarse_position(c);
    vf::check(p.x == x, "x");
    vf::check(p.y == y, "y");
    vf::check(p.z == z, "z");
}
// counts, and the plane ranges partition the cells
VF_HARNESS(plane_ranges)
{
    Mesh &m = mesh();
    vf::check((long)m.nx() == m.nx_ && (long)m.ny() == m.ny_ && (long)m.nz() == m.nz_, "extents");
    vf::check(m.n_pin() == (long)m.nx_ * m.ny_ * m.nz_, "number of cells");
    vf::check((long)m.plane_cell_begin(0) == 0, "first plane starts at zero");
    vf::check((long)m.plane_cell_end(m.nz_ - 1) == m.n_pin(), "last plane ends at the number of cells");
    long k = vf::nat("plane", 0, 5);
    vf::assume(k < m.nz_);
    vf::check(m.plane_cell_begin(k) < m.plane_cell_end(k), "ranges are not empty");
    vf::check(m.plane_cell_end(k) == m.plane_cell_begin(k + 1), "ranges follow one another");
    vf::check(m.plane_cell_begin(k) == m.coarse_cell_offset(k), "offset of a plane is its first cell");
    long i = vf::nat("cell", 0, 215);
    vf::assume(i < m.n_pin());
    bool in = i >= (long)m.plane_cell_begin(k) && i < (long)m.plane_cell_end(k);
    vf::check(in == (m.coarse_position(i).z == k), "a cell is in the range of its own plane only");
}
VF_HARNESS(thickness_and_volume)
{
    Mesh &m = mesh();
    long x = vf::nat("x", 0, 5), y = vf::nat("y", 0, 5), z = vf::nat("z", 0, 5);
    vf::assume(x < m.nx_ && y < m.ny_ && z < m.nz_);
    vfm::volume_invariant(m, x, y, z);
    int c     = m.coarse_cell(Position(x, y, z));
    double hx = m.x_vec_[x + 1] - m.x_vec_[x], hy = m.y_vec_[y + 1] - m.y_vec_[y], hz = m.z_vec_[z + 1] - m.z_vec_[z];
    vf::check(vf::eq(m.cell_thickness(c, Normal::X_NORM), hx), "x thickness");
    vf::check(vf::eq(m.cell_thickness(c, Normal::Y_NORM), hy), "y thickness");
    vf::check(vf::eq(m.cell_thickness(c, Normal::Z_NORM), hz), "z thickness");
    vf::check(vf::eq(m.dx(x), hx), "column width");
    vf::check(vf::eq(m.dy(y), hy), "row width");
    vf::check(vf::eq(m.dz(z), hz), "plane height");
    vf::check(vf::eq(m.coarse_volume(c), hx * hy * hz), "volume");
    vf::check(vf::eq(m.coarse_volume()[c], hx * hy * hz), "volume in the list of volumes");
}
VF_HARNESS(point_lookup)
{
    Mesh &m = mesh();
    long x = vf::nat("x", 0, 5), y = vf::nat("y", 0, 5), z = vf::nat("z", 0, 5);
    vf::assume(x < m.nx_ && y < m.ny_ && z < m.nz_);
    double fx = vf::within("fx", 0.0, 1.0), fy = vf::within("fy", 0.0, 1.0), fz = vf::within("fz", 0.0, 1.0);
    vf::assume(fx > 0 && fx < 1 && fy > 0 && fy < 1 && fz > 0 && fz < 1);
    double px = m.x_vec_[x] + fx * (m.x_vec_[x + 1] - m.x_vec_[x]);
    double py = m.y_vec_[y] + fy * (m.y_vec_[y + 1] - m.y_vec_[y]);
    double pz = m.z_vec_[z] + fz * (m.z_vec_[z + 1] - m.z_vec_[z]);
    vf::check(m.coarse_cell_point(Point2(px, py)) == m.coarse_cell(Position(x, y, 0)), "cell of a point in the plane");
    vf::check(m.coarse_cell_point(Point3(px, py, pz)) == m.coarse_cell(Position(x, y, z)), "cell of a point");
}
