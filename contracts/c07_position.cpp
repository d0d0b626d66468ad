// C07: pin lookups in lattices, planes and the core, and pin positions
// sources: core/lattice.cpp core/plane.cpp
// trials *: 300 6000
#include "core/plane.hpp"
#include "core/lattice.hpp"
#include "core/pin.hpp"
#include "core/mesh.hpp"
#include "fuzzy.hpp"
#include "stdc.hpp"
#ifndef VF_SYM
#include "cores.hpp"
#endif
using namespace mocc;
using vfz::mag;
namespace {
Direction direction()
{
#ifdef VF_SYM
    Direction &d = vf::object<Direction>("dir");
    d.ox = vf::real("ox"), d.oy = vf::real("oy");
    return d;
#else
    return Direction(vf::range("az", 1, 6282) / 1000.0, vf::range("pol", 1, 3140) / 1000.0);
#endif
}
#ifdef VF_SYM
// edges from zero on, in order and well apart
void edges(const VecF &x, long n)
{
    vf::assume(vf::both(x[0] == 0.0, vf::forall(0, n, [&](long j) { return x[j] + 4e-9 < x[j + 1]; })));
    vf::assume(vf::forall(0, n + 1, [&](long j) { return vf::both(x[j] >= 0.0, x[j] <= x[n]); })); // which follows
}
#endif
// a coordinate that belongs to cell i: between its edges or on the one that the direction points away from
double place(const char *n, const VecF &x, long cells, long i, double o)
{
    vf::assume(i < cells);
#ifdef VF_SYM
    double v = vf::real(n);
    vf::assume(vf::both(v >= x[i], v <= x[i + 1]));
    auto clear = [&](double a) { return vf::any(v == a, mag(v - a) > 1e-9); };
    vf::assume(vf::both(clear(x[i]), clear(x[i + 1])));
    vf::assume(vf::ite(o > 0.0, vf::ite(vf::any(v < x[i + 1], i == cells - 1), 1.0, 0.0), vf::ite(vf::any(v > x[i], i == 0), 1.0, 0.0)) == 1.0);
    return v;
#else
    long k = vf::range(n, 0, 1000);
    if (k > 800) return o > 0.0 ? x[i] : x[i + 1];
    if (k > 700) return o > 0.0 && i == cells - 1 ? x[i + 1] : o <= 0.0 && i == 0 ? x[i] : 0.5 * (x[i] + x[i + 1]);
    return x[i] + (x[i + 1] - x[i]) * (k + 1) / 1000.0;
#endif
}
}
VF_HARNESS(lattice_pin)
{
#ifdef VF_SYM
    Lattice &l = vf::object<Lattice>("lattice");
    long nx = vf::nat("nx", 1, 5), ny = vf::nat("ny", 1, 5);
    vf::assume(nx <= 10000 && ny <= 10000);
    l.nx_ = nx, l.ny_ = ny;
    vf::vec(l.x_vec_, "xs", nx + 1);
    vf::vec(l.y_vec_, "ys", ny + 1);
    edges(l.x_vec_, nx);
    edges(l.y_vec_, ny);
    l.hx_ = l.x_vec_[nx], l.hy_ = l.y_vec_[ny];
    vf::vec(l.first_reg_pin_, "first", nx * ny);
    Pin **pp = vf::buffer<Pin *>("pins", nx * ny);
    auto one = [](const void *, long) { return 1l; };
    vf_family_(pp, 0, "pin", sizeof(Pin), one, pp);
    vf_family_(pp[0], (char *)&pp[0]->pin_mesh_ - (char *)pp[0], "mesh", 8, one, pp);
    l.pins_._M_impl._M_start = pp;
    l.pins_._M_impl._M_finish = l.pins_._M_impl._M_end_of_storage = pp + nx * ny;
#else
    vfc::Core core(vfc::spec());
    const Plane &plane = core.mesh->planes_[0];
    const Lattice &l = plane.at(vf::range("lx", 0, plane.nx_ - 1), vf::range("ly", 0, plane.ny_ - 1));
    long nx = l.nx_, ny = l.ny_;
#endif
    Direction dir = direction();
    long i = vf::nat("i", 0, 2), j = vf::nat("j", 0, 2);
    Point2 p(place("x", l.x_vec_, nx, i, dir.ox), place("y", l.y_vec_, ny, j, dir.oy));
    int first = vf::nat("base", 0, 100), base = first;
    const PinMesh *m = l.get_pinmesh(p, first, dir);
    vf::check(p.x == 0.5 * (l.x_vec_[i + 1] + l.x_vec_[i]) && p.y == 0.5 * (l.y_vec_[j + 1] + l.y_vec_[j]), "middle of the pin");
    vf::check(m == l.pins_[j * nx + i]->pin_mesh_, "mesh of the pin");
    vf::check(first == base + l.first_reg_pin_[j * nx + i], "first region of the pin");
}
#ifdef VF_SYM
// what the lattice answers: see lattice_pin
static long lat_;
static double lx_, ly_, ox_, oy_;
static const Lattice *asked_;
static int extra_;
static const PinMesh *mesh_;
VF_CONTRACT(lattice, "mocc::Lattice::get_pinmesh(mocc::Point2&, int&, mocc::Direction) const")
extern "C" const PinMesh *vfc_lattice(const Lattice *l, Point2 &p, int &first, Direction *)
{
    asked_ = l;
    lx_ = p.x, ly_ = p.y;
    p.x = ox_, p.y = oy_;
    first += extra_;
    return mesh_;
}
#endif
VF_HARNESS(plane_pin)
{
    Direction dir = direction();
    long i = vf::nat("i", 0, 2), j = vf::nat("j", 0, 2);
#ifdef VF_SYM
    Plane &l = vf::object<Plane>("plane");
    long nx = vf::nat("nx", 1, 5), ny = vf::nat("ny", 1, 5);
    vf::assume(nx <= 10000 && ny <= 10000);
    l.nx_ = nx, l.ny_ = ny;
    vf::vec(l.hx_, "xs", nx + 1);
    vf::vec(l.hy_, "ys", ny + 1);
    edges(l.hx_, nx);
    edges(l.hy_, ny);
    vf::vec(l.first_reg_lattice_, "first", nx * ny);
    const Lattice **pp = vf::buffer<const Lattice *>("lattices", nx * ny);
    vf_family_(pp, 0, "lattice", sizeof(Lattice), [](const void *, long) { return 1l; }, pp);
    l.lattices_._M_impl._M_start = pp;
    l.lattices_._M_impl._M_finish = l.lattices_._M_impl._M_end_of_storage = pp + nx * ny;
    ox_ = vf::real("mx"), oy_ = vf::real("my");
    extra_ = vf::nat("extra", 0, 10);
    mesh_ = &vf::object<PinMesh>("mesh");
#else
    vfc::Core core(vfc::spec());
    const Plane &l = core.mesh->planes_[0];
    long nx = l.nx_, ny = l.ny_;
#endif
    Point2 p(place("x", l.hx_, nx, i, dir.ox), place("y", l.hy_, ny, j, dir.oy)), q = p;
    int first = vf::nat("base", 0, 100), base = first;
    const PinMesh *m = l.get_pinmesh(p, first, dir);
    const Lattice &lat = *l.lattices_[j * nx + i];
    double x0 = l.hx_[i], y0 = l.hy_[j];
#ifdef VF_SYM
    vf::check(asked_ == &lat && m == mesh_, "lattice that contains the point");
    vf::check(lx_ == q.x - x0 && ly_ == q.y - y0, "point relative to the lattice");
    vf::check(p.x == ox_ + x0 && p.y == oy_ + y0, "middle of the pin");
    vf::check(first == base + l.first_reg_lattice_[j * nx + i] + extra_, "first region of the pin");
#else
    Point2 r(q.x - x0, q.y - y0);
    int f = base + l.first_reg_lattice_[j * nx + i];
    const PinMesh *want = lat.get_pinmesh(r, f, dir);
    vf::check(m == want && first == f, "lattice that contains the point");
    vf::check(vf::eq(p.x, r.x + x0) && vf::eq(p.y, r.y + y0), "middle of the pin");
#endif
}
// planes are numbered upward
VF_HARNESS(plane_above)
{
    long i = vf::nat("i", 0, 4);
    double oz = vf::real("oz");
    vf::assume(oz != 0.0);
#ifdef VF_SYM
    Mesh &m = vf::object<Mesh>("mesh");
    long nz = vf::nat("nz", 1, 5);
    vf::assume(nz <= 100000);
    m.nz_ = nz;
    vf::vec(m.z_vec_, "zs", nz + 1);
    edges(m.z_vec_, nz);
#else
    vfc::Core core(vfc::spec());
    const Mesh &m = *core.mesh;
    long nz = m.nz();
#endif
    double z = place("z", m.z_vec_, nz, i, oz);
    vf::check(m.plane_index(z, oz) == i, "plane that contains the position");
}
