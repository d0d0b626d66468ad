// C05: octant arithmetic of an angular quadrature whose octants mirror the first
// sources: core/geometry/angle.cpp core/angular_quadrature.cpp
#include "core/angular_quadrature.hpp"
#include "core/constants.hpp"
#include "vf.hpp"
#ifndef VF_SYM
#include "pugixml.hpp"
#endif
using namespace mocc;

// sign of the components in each octant, counted from zero
static double sx(long o) { return vf::ite(vf::any(vf::any(o == 1, o == 2), vf::any(o == 5, o == 6)), -1.0, 1.0); }
static double sy(long o) { return vf::ite(vf::any(vf::any(o == 2, o == 3), vf::any(o == 6, o == 7)), -1.0, 1.0); }
static double sz(long o) { return vf::ite(o >= 4, -1.0, 1.0); }

static AngularQuadrature &quadrature()
{
    AngularQuadrature &q = vf::object<AngularQuadrature>("quad");
#ifdef VF_SYM
    long n = vf::nat("ndir_oct", 1, 20);
    vf::assume(n <= 100000000);
    q.ndir_oct_ = n;
    Angle *a    = vf::buffer<Angle>("angles", 8 * n);
    q.angles_._M_impl._M_start  = a;
    q.angles_._M_impl._M_finish = q.angles_._M_impl._M_end_of_storage = a + 8 * n;
#else
    pugi::xml_document doc;
    std::string s = "<ang_quad type=\"cg\" n_azimuthal=\"" + std::to_string(vf::range("naz", 1, 5)) + "\" n_polar=\"" + std::to_string(vf::range("npol", 1, 4)) + "\"/>";
    doc.load_string(s.c_str());
    new (&q) AngularQuadrature(doc.child("ang_quad"));
#endif
    return q;
}
static long angle(const AngularQuadrature &q, long &oct, long &k)
{
    oct = vf::nat("octant", 0, 7);
    k   = vf::nat("k", 0, 19);
    vf::assume(oct < 8 && k < q.ndir_oct_);
    for (long o = 0; o < 8; o++)
        if (oct == o) {
            oct = o; // one path per octant
            break;
        }
#ifdef VF_SYM
    // the octants mirror the first one; needed at this k only
    const Angle *a = &q.angles_[0];
    long n = q.ndir_oct_;
    vf::assume(vf::all(a[k].ox > 0, a[k].oy > 0, a[k].oz > 0));
    for (long o = 1; o < 8; o++)
        vf::assume(vf::all(a[k + o * n].ox == sx(o) * a[k].ox, a[k + o * n].oy == sy(o) * a[k].oy, a[k + o * n].oz == sz(o) * a[k].oz, a[k + o * n].weight == a[k].weight));
#endif
    return oct * q.ndir_oct_ + k;
}
VF_HARNESS(counting)
{
    AngularQuadrature &q = quadrature();
    long n = q.ndir_oct_, oct, k, a = angle(q, oct, k);
    vf::check(q.ndir_oct() == n && q.ndir() == 8 * n, "number of angles");
    vf::check(&*q.begin() == &q.angles_[0] && q.end() - q.begin() == 8 * n, "iteration");
    vf::check(&*(q.octant(oct + 1) + k) == &q.angles_[a], "octant iterator");
    vf::check(&q[a] == &q.angles_[a], "indexing");
    vf::check(q[a].weight == q[k].weight, "weights are the same in all octants");
}
static void mirrored(const AngularQuadrature &q, long a, long r, double fx, double fy, double fz)
{
    vf::check(r >= 0 && r < 8 * (long)q.ndir_oct_, "within the set");
    const Angle &p = q.angles_[a], &m = q.angles_[r];
    vf::check(vf::eq(m.ox, fx * p.ox) && vf::eq(m.oy, fy * p.oy) && vf::eq(m.oz, fz * p.oz), "direction");
    vf::check(m.weight == p.weight, "same weight");
}
VF_HARNESS(reflect_normal)
{
    AngularQuadrature &q = quadrature();
    long oct, k, a = angle(q, oct, k);
    long nrm = vf::nat("normal", 0, 2);
    vf::assume(nrm < 3);
    Normal N = (Normal)nrm;
    long r   = q.reflect(a, N);
    mirrored(q, a, r, nrm == 0 ? -1 : 1, nrm == 1 ? -1 : 1, nrm == 2 ? -1 : 1);
    vf::check((long)q.reflect(r, N) == a, "reflecting twice");
}
VF_HARNESS(reflect_surface)
{
    AngularQuadrature &q = quadrature();
    long oct, k, a = angle(q, oct, k);
    long i = vf::nat("surface", 0, 5);
    vf::assume(i < 6);
    Surface s = (Surface)i;
    bool x = s == Surface::EAST || s == Surface::WEST, y = s == Surface::NORTH || s == Surface::SOUTH, z = s == Surface::TOP || s == Surface::BOTTOM;
    long r = q.reflect(a, s);
    mirrored(q, a, r, x ? -1 : 1, y ? -1 : 1, z ? -1 : 1);
    vf::check((long)q.reflect(r, s) == a, "reflecting twice");
}
VF_HARNESS(reverse_3d)
{
    AngularQuadrature &q = quadrature();
    long oct, k, a = angle(q, oct, k);
    long r = q.reverse(a, 3);
    mirrored(q, a, r, -1, -1, -1);
    vf::check((long)q.reverse(r, 3) == a, "reversing twice");
}
VF_HARNESS(reverse_2d)
{
    AngularQuadrature &q = quadrature();
    long oct, k, a = angle(q, oct, k);
    vf::assume(oct < 4);
    long r = q.reverse(a);
    vf::check(r < 4 * (long)q.ndir_oct_, "within the upper half");
    mirrored(q, a, r, -1, -1, 1);
    vf::check((long)q.reverse(r) == a && (long)q.reverse(a, 2) == r, "reversing twice");
}
VF_HARNESS(octant_direction)
{
    long oct = vf::nat("octant", 0, 7);
    vf::assume(oct < 8);
    Angle a = vf::object<Angle>("a");
    a.ox = vf::real("ox");
    a.oy = vf::real("oy");
    a.oz = vf::real("oz");
    a.weight = vf::real("w");
#ifndef VF_SYM
    double l = sqrt(a.ox * a.ox + a.oy * a.oy + a.oz * a.oz);
    a = Angle(a.ox / l, a.oy / l, a.oz / l, a.weight);
#endif
    vf::assume(a.ox != 0 && a.oy != 0 && a.oz != 0);
    Angle b = a.to_octant(oct + 1);
    vf::check(b.ox == sx(oct) * fabs(a.ox), "x component");
    vf::check(b.oy == sy(oct) * fabs(a.oy), "y component");
    vf::check(b.oz == sz(oct) * fabs(a.oz), "z component");
    vf::check(b.weight == a.weight, "weight");
}
VF_HARNESS(upwind)
{
    Direction &d = vf::object<Direction>("d");
    d.ox = vf::real("ox");
    d.oy = vf::real("oy");
    d.oz = vf::real("oz");
    vf::assume(d.ox != 0 && d.oy != 0 && d.oz != 0);
    vf::check(d.upwind_surface(Normal::X_NORM) == (d.ox > 0 ? Surface::WEST : Surface::EAST), "x");
    vf::check(d.upwind_surface(Normal::Y_NORM) == (d.oy > 0 ? Surface::SOUTH : Surface::NORTH), "y");
    vf::check(d.upwind_surface(Normal::Z_NORM) == (d.oz > 0 ? Surface::BOTTOM : Surface::TOP), "z");
}
VF_HARNESS(direction_reflect)
{
    Direction d = vf::object<Direction>("d");
#ifdef VF_SYM
    d.ox = vf::real("ox");
    d.oy = vf::real("oy");
    d.oz = vf::real("oz");
#else
    d = Direction(vf::within("alpha", 0.1, 6.2), vf::within("theta", 0.1, 3.0));
#endif
    Direction e = d;
    long i = vf::nat("surface", 0, 5);
    vf::assume(i < 6);
    Surface s = (Surface)i;
    bool x = s == Surface::EAST || s == Surface::WEST, y = s == Surface::NORTH || s == Surface::SOUTH, z = s == Surface::TOP || s == Surface::BOTTOM;
    e.reflect(s);
    vf::check(e.ox == (x ? -d.ox : d.ox) && e.oy == (y ? -d.oy : d.oy) && e.oz == (z ? -d.oz : d.oz), "one component negated");
}
// changing one angle of the first octant keeps the octants mirror images
VF_HARNESS(modified_angle)
{
    AngularQuadrature &q = quadrature();
    long oct, k, a = angle(q, oct, k);
    long j = vf::nat("j", 0, 19);
    vf::assume(j < q.ndir_oct_ && j != k);
    Angle n = vf::object<Angle>("n");
#ifdef VF_SYM
    n.ox = vf::positive("ox");
    n.oy = vf::positive("oy");
    n.oz = vf::positive("oz");
    n.weight = vf::positive("w");
    n.alpha = vf::real("alpha"), n.theta = vf::real("theta"), n.rsintheta = vf::real("rsintheta");
#else
    n = Angle(vf::within("alpha", 0.1, 1.4), vf::within("theta", 0.1, 1.4), vf::positive("w"));
#endif
    Angle other = q.angles_[oct * q.ndir_oct_ + j];
    q.modify_angle(k, n);
    const Angle &m = q.angles_[a], &o = q.angles_[oct * q.ndir_oct_ + j];
    vf::check(vf::eq(m.ox, sx(oct) * n.ox) && vf::eq(m.oy, sy(oct) * n.oy) && vf::eq(m.oz, sz(oct) * n.oz), "direction in every octant");
    vf::check(m.weight == n.weight, "weight in every octant");
    vf::check(o.ox == other.ox && o.oy == other.oy && o.oz == other.oz && o.weight == other.weight, "other angles unchanged");
}
