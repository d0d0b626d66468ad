// C04, bounded: boundary values of real quadratures, every assignment of conditions to the faces
#include "core/boundary_condition.hpp"
#include "core/constants.hpp"
#include "vf.hpp"
#ifndef VF_SYM
#include "pugixml.hpp"
#include <memory>
using namespace mocc;
struct Bc {
    std::unique_ptr<AngularQuadrature> q;
    BC_Type_t type;
    std::vector<BC_Size_t> size;
    int ng, na;
    std::unique_ptr<BoundaryCondition> in, out;
    // size of the conditions by angle: mirror-image angles have faces of the same size
    Bc(bool supported)
    {
        pugi::xml_document doc;
        int order = 2 * (int)vf::range("half_order", 1, 3);
        std::string s = "<ang_quad type=\"ls\" order=\"" + std::to_string(order) + "\"/>";
        doc.load_string(s.c_str());
        q.reset(new AngularQuadrature(doc.child("ang_quad")));
        for (auto &t : type) {
            int k = (int)vf::range("bc", 0, supported ? 2 : 4);
            t = k == 0 ? Boundary::VACUUM : k == 1 ? Boundary::REFLECT : k == 2 ? Boundary::PRESCRIBED : k == 3 ? Boundary::PERIODIC : Boundary::PARALLEL;
        }
        ng = (int)vf::range("ng", 1, 3);
        bool half = vf::boolean("half"), uniform = vf::boolean("uniform");
        int n = q->ndir_oct(), dim = half ? 2 : 3;
        na = half ? 4 * n : 8 * n;
        std::vector<BC_Size_t> first;
        for (int k = 0; k < n; k++) {
            BC_Size_t b;
            for (int f = 0; f < 3; f++) b[f] = half && f == 2 ? 0 : (int)vf::range("n", 0, 3);
            first.push_back(uniform && k ? first[0] : b);
        }
        for (int a = 0; a < na; a++) size.push_back(first[a % n]);
        if (uniform && !half) {
            in.reset(new BoundaryCondition(ng, *q, type, first[0], dim));
            out.reset(new BoundaryCondition(1, *q, type, first[0], dim));
        } else {
            in.reset(new BoundaryCondition(ng, *q, type, size, dim));
            out.reset(new BoundaryCondition(1, *q, type, size, dim));
        }
    }
    // a value that tells every place apart
    static double mark(int g, int a, int f, int i, double base) { return base + 1000 * (a + 1) + 100 * f + i + 0.1 * g; }
    void fill()
    {
        for (int a = 0; a < na; a++)
            for (int f = 0; f < 3; f++) {
                for (int g = 0; g < ng; g++) {
                    BVal_t b = in->get_face(g, a, (Normal)f);
                    for (int i = 0; i < b.first; i++) b.second[i] = mark(g, a, f, i, 5e6);
                }
                BVal_t b = out->get_face(0, a, (Normal)f);
                for (int i = 0; i < b.first; i++) b.second[i] = mark(0, a, f, i, 1e6);
            }
    }
    // the angle that leaves where angle a enters across normal f
    int source(int a, int f) const
    {
        for (int b = 0; b < na; b++) {
            const Angle &p = (*q)[a], &r = (*q)[b];
            double s[3] = {f == 0 ? -1.0 : 1.0, f == 1 ? -1.0 : 1.0, f == 2 ? -1.0 : 1.0};
            if (fabs(r.ox - s[0] * p.ox) + fabs(r.oy - s[1] * p.oy) + fabs(r.oz - s[2] * p.oz) < 1e-12) return b;
        }
        return -1;
    }
    Boundary enters(int a, int f) const
    {
        const Angle &p = (*q)[a];
        Surface s = f == 0 ? (p.ox > 0 ? Surface::WEST : Surface::EAST) : f == 1 ? (p.oy > 0 ? Surface::SOUTH : Surface::NORTH) : (p.oz > 0 ? Surface::BOTTOM : Surface::TOP);
        return type[(int)s];
    }
    void verify(int g0, int only)
    {
        for (int g = 0; g < ng; g++)
            for (int a = 0; a < na; a++)
                for (int f = 0; f < 3; f++) {
                    BVal_t b = in->get_face(g, a, (Normal)f);
                    int from = source(a, f);
                    for (int i = 0; i < b.first; i++) {
                        double want = mark(g, a, f, i, 5e6);
                        if (g == g0 && (only < 0 || from == only)) {
                            if (enters(a, f) == Boundary::VACUUM) want = 0;
                            if (enters(a, f) == Boundary::REFLECT) want = mark(0, from, f, i, 1e6);
                        }
                        vf::check(b.second[i] == want, "incoming flux after the update");
                    }
                }
        for (int a = 0; a < na; a++)
            for (int f = 0; f < 3; f++) {
                BVal_const_t b = ((const BoundaryCondition &)*out).get_face(0, a, (Normal)f);
                for (int i = 0; i < b.first; i++) vf::check(b.second[i] == mark(0, a, f, i, 1e6), "the outgoing flux is only read");
            }
    }
};
VF_HARNESS(storage)
{
    Bc t(false);
    const BoundaryCondition &c = *t.in;
    std::vector<int> hit(c.size(), 0);
    double *base = t.in->get_boundary(0, 0).second;
    for (int g = 0; g < t.ng; g++)
        for (int a = 0; a < t.na; a++) {
            int total = 0;
            for (int f = 0; f < 3; f++) {
                BVal_t b = t.in->get_face(g, a, (Normal)f);
                vf::check(b.first == t.size[a][f] && c.get_face(g, a, (Normal)f).first == b.first && c.get_face(g, a, (Normal)f).second == b.second, "size of the face");
                vf::check(b.second == t.in->get_boundary(g, a).second + total, "faces of an angle follow one another");
                total += b.first;
                for (int i = 0; i < b.first; i++) {
                    long k = b.second + i - base;
                    vf::check(k >= 0 && k < c.size() && !hit[k], "no place belongs to two faces");
                    hit[k] = 1;
                }
                std::vector<double> copy(b.first + 1, -7.0);
                for (int i = 0; i < b.first; i++) b.second[i] = Bc::mark(g, a, f, i, 0);
                t.in->copy_face(g, a, (Normal)f, copy.data());
                for (int i = 0; i < b.first; i++) vf::check(copy[i] == b.second[i], "copy of a face");
                vf::check(copy[b.first] == -7.0, "copies no more than the face");
            }
            vf::check(t.in->get_boundary(g, a).first == total && c.get_boundary(g, a).first == total && c.get_boundary(g, a).second == t.in->get_boundary(g, a).second, "size of the angle");
        }
    for (int h : hit) vf::check(h, "every place belongs to a face");
}
VF_HARNESS(update_all)
{
    Bc t(true);
    t.fill();
    int g = (int)vf::range("g", 0, t.ng - 1);
    t.in->update(g, *t.out);
    t.verify(g, -1);
}
VF_HARNESS(update_angle)
{
    Bc t(true);
    t.fill();
    int g = (int)vf::range("g", 0, t.ng - 1), a = (int)vf::range("a", 0, t.na - 1);
    t.in->update(g, a, *t.out);
    t.verify(g, a);
}
VF_HARNESS(unsupported)
{
    Bc t(false);
    bool bad = false;
    for (int a = 0; a < t.na; a++)
        for (int f = 0; f < 3; f++) bad = bad || (t.size[a][f] > 0 && (t.enters(a, f) == Boundary::PERIODIC || t.enters(a, f) == Boundary::PARALLEL));
    t.fill();
    vf::check(vf::throws([&]() { t.in->update(0, *t.out); }) == bad, "conditions that cannot be exchanged are rejected");
}
VF_HARNESS(initial_scalar)
{
    Bc t(false);
    double v = vf::positive("v");
    t.fill();
    t.in->initialize_scalar(v);
    for (int g = 0; g < t.ng; g++)
        for (int a = 0; a < t.na; a++)
            for (int f = 0; f < 3; f++) {
                BVal_t b = t.in->get_face(g, a, (Normal)f);
                Boundary e = t.enters(a, f);
                double want = e == Boundary::VACUUM ? 0.0 : e == Boundary::PRESCRIBED ? (t.na == t.q->ndir() ? 1.0 : 2.0) / FPI : v;
                for (int i = 0; i < b.first; i++) vf::check(vf::eq(b.second[i], want), "initial incoming flux");
            }
}
VF_HARNESS(initial_spectrum)
{
    Bc t(false);
    ArrayB1 s(t.ng);
    double *d = vf::buffer<double>("s", t.ng, 0.1, 2);
    for (int g = 0; g < t.ng; g++) s(g) = d[g];
    vf::assume(t.in->size() > 0);
    t.fill();
    t.in->initialize_spectrum(s);
    for (int g = 0; g < t.ng; g++)
        for (int a = 0; a < t.na; a++)
            for (int f = 0; f < 3; f++) {
                BVal_t b = t.in->get_face(g, a, (Normal)f);
                for (int i = 0; i < b.first; i++) vf::check(b.second[i] == d[g], "initial spectrum");
            }
}
VF_HARNESS(copied)
{
    Bc t(true);
    t.fill();
    BoundaryCondition c(*t.in);
    vf::check(c.size() == t.in->size(), "size of a copy");
    c.initialize_scalar(3.0);
    for (int g = 0; g < t.ng; g++)
        for (int a = 0; a < t.na; a++)
            for (int f = 0; f < 3; f++) {
                BVal_t b = t.in->get_face(g, a, (Normal)f), d = c.get_face(g, a, (Normal)f);
                vf::check(b.first == d.first, "size of a copied face");
                for (int i = 0; i < b.first; i++) {
                    vf::check(b.second[i] == Bc::mark(g, a, f, i, 5e6), "a copy has its own storage");
                    d.second[i] = Bc::mark(g, a, f, i, 5e6);
                }
            }
    c.update(0, *t.out);
    t.in->update(0, *t.out);
    for (int a = 0; a < t.na; a++)
        for (int f = 0; f < 3; f++) {
            BVal_t b = t.in->get_face(0, a, (Normal)f), d = c.get_face(0, a, (Normal)f);
            for (int i = 0; i < b.first; i++) vf::check(b.second[i] == d.second[i], "a copy behaves alike");
        }
}
#endif
