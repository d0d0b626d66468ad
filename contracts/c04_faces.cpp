// C04: the storage of boundary values and the exchange of outgoing for incoming flux
// sources: core/constants.cpp core/boundary_condition.cpp core/angular_quadrature.cpp core/geometry/angle.cpp
#include "util/blitz_typedefs.hpp"
#include "core/boundary_condition.hpp"
#include "core/constants.hpp"
#include "vf.hpp"
#ifndef VF_SYM
#include "pugixml.hpp"
#endif
#include <memory>
using namespace mocc;

// conditions for ng groups and na angles, and outgoing values of one group, as their constructor leaves them
struct Sides {
    long ng, na, n;
    BoundaryCondition *in, *out;
    AngularQuadrature *q;
#ifdef VF_SYM
    static BoundaryCondition *make(const char *name, const char *data, const char *off, const char *sz, long ng, long na, AngularQuadrature *q)
    {
        BoundaryCondition &b = vf::object<BoundaryCondition>(name);
        b.n_group_ = ng;
        b.n_angle_ = na;
        long per = b.bc_per_group_;
        vf::assume(per >= 0 && per <= 1000000000);
        vf::assume(per * ng <= 2000000000);
        vf::arr1(b.data_, data, per * ng);
        vf::arr2(b.offset_, off, na, 3, 0, 0);
        vf::vec(b.size_, sz, na);
        *(AngularQuadrature **)&b.factor_ = nullptr;
        // the reference member follows the vector of sizes
        *(AngularQuadrature **)((char *)&b.size_ + sizeof(b.size_)) = q;
        b.factor_ = vf::real("factor");
        return &b;
    }
    Sides(long = -2, Boundary = Boundary::INVALID, Boundary = Boundary::INVALID, Boundary = Boundary::INVALID)
    {
        ng = vf::nat("ng", 1, 3);
        na = vf::nat("na", 1, 30);
        vf::assume(ng <= 1000000 && na <= 1000000);
        q = &vf::object<AngularQuadrature>("quad");
        n = vf::nat("ndir_oct", 1, 20);
        vf::assume(n <= 1000000);
        q->ndir_oct_ = n;
        vf::assume(na == 4 * n || na == 8 * n);
        vf::vec(q->angles_, "angles", 8 * n);
        in  = make("in", "in_data", "in_off", "in_size", ng, na, q);
        out = make("out", "out_data", "out_off", "out_size", 1, na, q);
    }
#else
    std::unique_ptr<AngularQuadrature> qq;
    std::unique_ptr<BoundaryCondition> bi, bo;
    Sides(long which = -2, Boundary kx = Boundary::INVALID, Boundary ky = Boundary::INVALID, Boundary kz = Boundary::INVALID)
    {
        pugi::xml_document doc;
        std::string s = "<ang_quad type=\"ls\" order=\"" + std::to_string(2 * vf::range("half_order", 1, 3)) + "\"/>";
        doc.load_string(s.c_str());
        qq.reset(new AngularQuadrature(doc.child("ang_quad")));
        q  = qq.get();
        n  = q->ndir_oct();
        na = vf::boolean("half") && which != 2 && which != -1 ? 4 * n : 8 * n;
        ng = vf::range("ng", 1, 3);
        BC_Type_t t;
        for (auto &b : t) b = (Boundary)vf::range("bc", 0, 5);
        if (which >= 0)
            for (auto &b : t) {
                long k = vf::range("kind", 0, 2);
                b = k == 0 ? Boundary::VACUUM : k == 1 ? Boundary::REFLECT : Boundary::PRESCRIBED;
            }
        if (which == -1) {
            t[(int)Surface::EAST] = t[(int)Surface::WEST] = kx;
            t[(int)Surface::NORTH] = t[(int)Surface::SOUTH] = ky;
            t[(int)Surface::TOP] = t[(int)Surface::BOTTOM] = kz;
        }
        std::vector<BC_Size_t> size, first;
        for (long k = 0; k < n; k++) {
            BC_Size_t b;
            for (int f = 0; f < 3; f++) b[f] = which >= 0 && f != which ? 0 : f == 2 && na == 4 * n ? 0 : (int)vf::range("size", which == -1 ? 2 : which >= 0 ? 1 : 0, 3);
            first.push_back(b);
        }
        for (long a = 0; a < na; a++) size.push_back(first[a % n]);
        bi.reset(new BoundaryCondition(ng, *q, t, size, na == 8 * n ? 3 : 2));
        bo.reset(new BoundaryCondition(1, *q, t, size, na == 8 * n ? 3 : 2));
        in = bi.get();
        out = bo.get();
        for (int i = 0; i < in->size(); i++) in->data_(i) = vf::real("in");
        for (int i = 0; i < out->size(); i++) out->data_(i) = vf::real("out");
    }
#endif
    // the faces of angle a lie one after another within the values of a group
    static void laid(const BoundaryCondition *b, long a)
    {
#ifdef VF_SYM
        const int *o = b->offset_.data_ + 3 * a;
        const BC_Size_t &s = b->size_[a];
        vf::assume(vf::all(s[0] >= 0, s[1] >= 0, s[2] >= 0, s[0] <= 100000000, s[1] <= 100000000, s[2] <= 100000000, o[0] >= 0, o[0] <= 1000000000));
        vf::assume(vf::all(o[1] == o[0] + s[0], o[2] == o[1] + s[1], o[2] + s[2] <= b->bc_per_group_));
#endif
    }
    // angle a comes before angle c
    static void ordered(const BoundaryCondition *b, long a, long c)
    {
#ifdef VF_SYM
        const int *o = b->offset_.data_, *s = b->size_[a].data();
        vf::assume(vf::implies(a < c, o[3 * a] + s[0] + s[1] + s[2] <= o[3 * c]));
#endif
    }
    static long start(const BoundaryCondition *b, long g, long a, long f) { return (long)b->bc_per_group_ * g + b->offset_((int)a, (int)f); }
};
VF_HARNESS(face)
{
    Sides t;
    long g = vf::nat("g", 0, 2), a = vf::nat("a", 0, 30), f = vf::range("f", 0, 2);
    vf::assume(g < t.ng && a < t.na);
    Sides::laid(t.in, a);
    const BoundaryCondition &c = *t.in;
    long s = c.size_[a][f];
    vf::assume(s > 0);
    long k = Sides::start(t.in, g, a, f);
    BVal_t b = t.in->get_face(g, a, (Normal)f);
    BVal_const_t d = c.get_face(g, a, (Normal)f);
    vf::check(b.first == s && d.first == s, "number of values");
    vf::check(b.second == &t.in->data_((int)k) && d.second == b.second, "first value");
    vf::check(k >= 0 && k + s <= t.ng * (long)c.bc_per_group_, "within the storage");
    long total = c.size_[a][0] + c.size_[a][1] + c.size_[a][2];
    BVal_t e = t.in->get_boundary(g, a);
    BVal_const_t h = c.get_boundary(g, a);
    vf::check(e.first == total && h.first == total, "number of values of the angle");
    vf::check(e.second == &t.in->data_((int)Sides::start(t.in, g, a, 0)) && h.second == e.second, "first value of the angle");
    vf::check(e.second <= b.second && b.second + s <= e.second + total, "the face is part of the angle");
}
VF_HARNESS(faces_disjoint)
{
    Sides t;
    long g1 = vf::nat("g1", 0, 2), a1 = vf::nat("a1", 0, 30), f1 = vf::range("f1", 0, 2);
    long g2 = vf::nat("g2", 0, 2), a2 = vf::nat("a2", 0, 30), f2 = vf::range("f2", 0, 2);
    vf::assume(g1 < t.ng && a1 < t.na && g2 < t.ng && a2 < t.na);
    Sides::laid(t.in, a1);
    Sides::laid(t.in, a2);
    Sides::ordered(t.in, a1, a2);
    Sides::ordered(t.in, a2, a1);
    vf::assume(g1 != g2 || a1 != a2 || f1 != f2);
    long k1 = Sides::start(t.in, g1, a1, f1), k2 = Sides::start(t.in, g2, a2, f2);
    vf::assume(t.in->size_[a1][f1] > 0 && t.in->size_[a2][f2] > 0);
    BVal_t x = t.in->get_face(g1, a1, (Normal)f1), y = t.in->get_face(g2, a2, (Normal)f2);
    vf::check(x.second == &t.in->data_((int)k1) && y.second == &t.in->data_((int)k2), "places");
    vf::check(k1 + x.first <= k2 || k2 + y.first <= k1, "different faces share no value");
}
VF_HARNESS(copy)
{
    Sides t;
    long g = vf::nat("g", 0, 2), a = vf::nat("a", 0, 30), f = vf::range("f", 0, 2);
    vf::assume(g < t.ng && a < t.na);
    Sides::laid(t.in, a);
    long s = t.in->size_[a][f];
    vf::assume(s > 0);
    double *d = vf::buffer<double>("dest", s + 1);
    double last = d[s];
    t.in->copy_face(g, a, (Normal)f, d);
    long i = vf::nat("i", 0, 2);
    vf::assume(i < s);
    vf::check(d[i] == t.in->data_((int)(Sides::start(t.in, g, a, f) + i)), "copied value");
    vf::check(d[s] == last, "no more than the face");
}
#ifdef VF_SYM
// the two contracts of the quadrature used here are discharged under C05
static long the_angle, mirror[3];
VF_CONTRACT(reflect, "mocc::AngularQuadrature::reflect(unsigned int, mocc::Normal) const")
extern "C" unsigned vfc_reflect(const AngularQuadrature *, unsigned a, Normal n)
{
    vf::check((long)a == the_angle, "reflect: the outgoing angle");
    return (unsigned)mirror[(int)n];
}
VF_CONTRACT(upwind, "mocc::Direction::upwind_surface(mocc::Normal) const")
extern "C" Surface vfc_upwind(const Direction *d, Normal n)
{
    if (n == Normal::X_NORM) return (Surface)vf::itei(d->ox > 0, (long)Surface::WEST, (long)Surface::EAST);
    if (n == Normal::Y_NORM) return (Surface)vf::itei(d->oy > 0, (long)Surface::SOUTH, (long)Surface::NORTH);
    return (Surface)vf::itei(d->oz > 0, (long)Surface::BOTTOM, (long)Surface::TOP);
}
#endif
// which >= 0: the angle has values on that face only; otherwise on all faces, whose conditions are given
static void updated(long which, Boundary kx, Boundary ky, Boundary kz)
{
    Sides t(which, kx, ky, kz);
    long g = vf::nat("g", 0, 2), a = vf::nat("a", 0, 30);
    vf::assume(g < t.ng && a < t.na);
    BoundaryCondition &in = *t.in, &out = *t.out;
    long r[3], s[3];
    Sides::laid(&in, a);
    Sides::laid(&out, a);
    for (long f = 0; f < 3; f++) {
        s[f] = in.size_[a][f];
        if (which >= 0) vf::assume(f == which ? s[f] > 0 : s[f] == 0);
    }
    if (which < 0) vf::assume(s[0] > 1 && s[1] > 1 && s[2] > 1);
#ifdef VF_SYM
    the_angle = a;
    for (long f = 0; f < 3; f++) {
        r[f] = mirror[f] = vf::nat("mirror", 0, 30);
        vf::assume(r[f] < 8 * t.n && r[f] != a);
        // downwards angles have no place in the conditions of a plane, which has no z faces
        vf::assume(vf::implies(s[f] > 0, r[f] < t.na));
    }
    vf::assume(r[0] < t.na && r[1] < t.na);
    r[2] = vf::itei(s[2] > 0, r[2], a);
    vf::assume(vf::all(r[0] != r[1], r[0] != r[2], r[1] != r[2]));
    for (long f = 0; f < 3; f++) {
        Sides::laid(&in, r[f]);
        vf::assume(vf::all(in.size_[r[f]][f] == s[f], out.size_[r[f]][f] == s[f], out.size_[a][f] == s[f]));
        for (long h = 0; h < 3; h++)
            if (h != f) Sides::ordered(&in, r[f], r[h]);
    }
#else
    for (long f = 0; f < 3; f++) r[f] = s[f] ? (long)t.q->reflect(a, (Normal)f) : 0;
#endif
    long k[3];
    for (long f = 0; f < 3; f++) k[f] = Sides::start(&in, g, r[f], f);
    bool ok = true;
    Boundary kind[3];
    for (long f = 0; f < 3; f++) {
        const Angle &d = t.q->angles_[r[f]];
        long up = f == 0 ? vf::itei(d.ox > 0, (long)Surface::WEST, (long)Surface::EAST) : f == 1 ? vf::itei(d.oy > 0, (long)Surface::SOUTH, (long)Surface::NORTH) : vf::itei(d.oz > 0, (long)Surface::BOTTOM, (long)Surface::TOP);
        kind[f] = in.bc_[up];
        ok = vf::both(ok, vf::any(s[f] == 0, kind[f] == Boundary::VACUUM, kind[f] == Boundary::REFLECT, kind[f] == Boundary::PRESCRIBED));
    }
    if (which < 0) ok = vf::all(kind[0] == kx, kind[1] == ky, kind[2] == kz);
    vf::assume(ok);
    const double *old = vf::snapshot(in.data_.data(), (long)in.bc_per_group_ * t.ng);
    const double *src = vf::snapshot(out.data_.data(), out.bc_per_group_);
    long p = vf::nat("p", 0, 100);
    vf::assume(p < (long)in.bc_per_group_ * t.ng);
    in.update(g, a, out);
    double v = in.data_((int)p);
    bool other = true;
    for (long f = 0; f < 3; f++) {
        bool here = vf::both(p >= k[f], p < k[f] + s[f]);
        other = vf::both(other, !here);
        vf::check(vf::implies(vf::both(here, kind[f] == Boundary::VACUUM), v == 0), "nothing enters through a vacuum");
        vf::check(vf::implies(vf::both(here, kind[f] == Boundary::PRESCRIBED), v == old[p]), "a prescribed flux stays");
        if (p >= k[f] && p < k[f] + s[f] && kind[f] == Boundary::REFLECT) vf::check(v == src[Sides::start(&out, 0, a, f) + p - k[f]], "reflected flux");
    }
    vf::check(vf::implies(other, v == old[p]), "all other values stay");
    long j = vf::nat("j", 0, 100);
    vf::assume(j < out.bc_per_group_);
    vf::check(out.data_((int)j) == src[j], "the outgoing values stay");
}
VF_HARNESS(update_x) { updated(0, Boundary::INVALID, Boundary::INVALID, Boundary::INVALID); }
VF_HARNESS(update_y) { updated(1, Boundary::INVALID, Boundary::INVALID, Boundary::INVALID); }
VF_HARNESS(update_z) { updated(2, Boundary::INVALID, Boundary::INVALID, Boundary::INVALID); }
VF_HARNESS(update_rrr) { updated(-1, Boundary::REFLECT, Boundary::REFLECT, Boundary::REFLECT); }
VF_HARNESS(update_vrp) { updated(-1, Boundary::VACUUM, Boundary::REFLECT, Boundary::PRESCRIBED); }
VF_HARNESS(update_rpv) { updated(-1, Boundary::REFLECT, Boundary::PRESCRIBED, Boundary::VACUUM); }
VF_HARNESS(update_pvr) { updated(-1, Boundary::PRESCRIBED, Boundary::VACUUM, Boundary::REFLECT); }
VF_HARNESS(unsupported)
{
    Sides t;
    long g = vf::nat("g", 0, 2), a = vf::nat("a", 0, 30), f = vf::range("f", 0, 2);
    vf::assume(g < t.ng && a < t.na);
    for (long i = 0; i < 3; i++)
        if (f == i) {
            f = i;
            break;
        }
    BoundaryCondition &in = *t.in, &out = *t.out;
    Sides::laid(&in, a);
    Sides::laid(&out, a);
    vf::assume(in.size_[a][f] > 0);
#ifdef VF_SYM
    the_angle = a;
    for (long h = 0; h < 3; h++) {
        mirror[h] = h == f ? vf::nat("mirror", 0, 30) : a;
        if (h != f) vf::assume(in.size_[a][h] == 0);
    }
    vf::assume(mirror[f] < t.na);
    Sides::laid(&in, mirror[f]);
    long r = mirror[f];
    vf::assume(in.size_[r][f] == in.size_[a][f]);
    vf::assume(out.size_[a][f] == in.size_[a][f]);
    vf::assume(out.size_[r][f] == in.size_[a][f]);
#else
    long r = t.q->reflect(a, (Normal)f);
#endif
    const Angle &d = t.q->angles_[r];
    long up = f == 0 ? vf::itei(d.ox > 0, (long)Surface::WEST, (long)Surface::EAST) : f == 1 ? vf::itei(d.oy > 0, (long)Surface::SOUTH, (long)Surface::NORTH) : vf::itei(d.oz > 0, (long)Surface::BOTTOM, (long)Surface::TOP);
    Boundary kind = in.bc_[up];
    vf::assume(kind == Boundary::PERIODIC || kind == Boundary::PARALLEL || kind == Boundary::INVALID);
    vf::check(vf::throws([&]() { in.update(g, a, out); }), "a condition that cannot be exchanged is rejected");
}
VF_HARNESS(spectrum)
{
    Sides t;
    BoundaryCondition &in = *t.in;
    long per = in.bc_per_group_, g = vf::nat("g", 0, 2), p = vf::nat("p", 0, 30);
    vf::assume(per > 0 && g < t.ng && p < per);
    double *s = vf::buffer<double>("spectrum", t.ng);
    ArrayB1 &sp = vf::object<ArrayB1>("sp");
#ifdef VF_SYM
    vf::arr1(sp, "sp_data", t.ng);
#else
    new (&sp) ArrayB1(t.ng);
    for (long i = 0; i < t.ng; i++) sp((int)i) = s[i];
#endif
    vf::hint1("initialize_spectrum", [&](long i) { return vf::implies(g < i, in.data_((int)(g * per + p)) == sp((int)g)); });
    in.initialize_spectrum(sp);
    vf::check(in.data_((int)(g * per + p)) == sp((int)g), "every value of a group");
}

// the constructor lays the faces out as assumed above
VF_HARNESS(layout)
{
    long na = vf::nat("na", 1, 30), ng = vf::nat("ng", 1, 3);
    AngularQuadrature &q = vf::object<AngularQuadrature>("quad");
#ifdef VF_SYM
    long n = vf::nat("ndir_oct", 1, 20);
    vf::assume(n <= 1000000 && ng <= 1000);
    q.ndir_oct_ = n;
    vf::vec(q.angles_, "angles", 8 * n);
    vf::assume(na == 8 * n);
    vf::assume(3000 * na * ng < 2000000000);
#else
    pugi::xml_document doc;
    doc.load_string(na % 2 ? "<ang_quad type=\"ls\" order=\"4\"/>" : "<ang_quad type=\"ls\" order=\"2\"/>");
    new (&q) AngularQuadrature(doc.child("ang_quad"));
    na = q.ndir();
#endif
    std::vector<BC_Size_t> size;
    int *raw = vf::buffer<int>("raw", 3 * na, 0, 3);
#ifdef VF_SYM
    size._M_impl._M_start = (BC_Size_t *)raw;
    size._M_impl._M_finish = size._M_impl._M_end_of_storage = (BC_Size_t *)raw + na;
#else
    for (long a = 0; a < na; a++) size.push_back(BC_Size_t{{raw[3 * a], raw[3 * a + 1], raw[3 * a + 2]}});
#endif
    vf::assume(vf::forall(0, na, [&](long i) { return vf::all(raw[3 * i] >= 0, raw[3 * i] <= 1000, raw[3 * i + 1] >= 0, raw[3 * i + 1] <= 1000, raw[3 * i + 2] >= 0, raw[3 * i + 2] <= 1000); }));
    BC_Type_t t;
    for (auto &b : t) b = Boundary::VACUUM;
    auto upto = [&](long k) { return vf::sumi(0, k, [&](long i) { return (long)raw[3 * i] + raw[3 * i + 1] + raw[3 * i + 2]; }); };
    alignas(BoundaryCondition) static char slot[sizeof(BoundaryCondition)];
    BoundaryCondition &b = *(BoundaryCondition *)slot;
    long a = vf::nat("a", 0, 30);
    vf::assume(a < na);
    vf::hint1("BoundaryCondition", [&](long k) { return b.bc_per_group_ == upto(k); });
    vf::hint1("BoundaryCondition", [&](long k) { return vf::all(upto(k) >= 0, upto(k) <= 3000 * k); });
    vf::hint_int1("BoundaryCondition", [&](long k, long v) { return v == upto(k); });
    vf::hint1("BoundaryCondition", [&](long k) { return vf::implies(a < k, vf::all(b.offset_.data_[3 * a] == upto(a), b.offset_.data_[3 * a + 1] == upto(a) + raw[3 * a], b.offset_.data_[3 * a + 2] == upto(a) + raw[3 * a] + raw[3 * a + 1])); });
    new (slot) BoundaryCondition((int)ng, q, t, std::move(size), 3);
    vf::check(b.n_group_ == ng && b.n_angle_ == na, "counts");
    vf::check(b.bc_per_group_ == upto(na), "values per group");
    vf::check((long)b.data_.size() == ng * upto(na), "size of the storage");
    vf::check(b.offset_((int)a, 0) == upto(a), "first face");
    vf::check(b.offset_((int)a, 1) == upto(a) + raw[3 * a], "second face");
    vf::check(b.offset_((int)a, 2) == upto(a) + raw[3 * a] + raw[3 * a + 1], "third face");
    vf::check(b.size_[a][0] == raw[3 * a] && b.size_[a][1] == raw[3 * a + 1] && b.size_[a][2] == raw[3 * a + 2], "sizes");
    vf::check(b.factor_ == 1.0, "factor");
#ifndef VF_SYM
    b.~BoundaryCondition();
#endif
}
