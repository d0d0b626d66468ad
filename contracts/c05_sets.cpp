// C05, bounded: quadratures as built from input, every type and order
#include "core/angular_quadrature.hpp"
#include "core/constants.hpp"
#include "vf.hpp"
#ifndef VF_SYM
#include "pugixml.hpp"
#include <sstream>
using namespace mocc;
static AngularQuadrature make(const std::string &s)
{
    pugi::xml_document doc;
    doc.load_string(s.c_str());
    return AngularQuadrature(doc.child("ang_quad"));
}
static std::string product(const char *type, long na, long np)
{
    std::stringstream s;
    s << "<ang_quad type=\"" << type << "\" n_azimuthal=\"" << na << "\" n_polar=\"" << np << "\"/>";
    return s.str();
}
static bool near(double a, double b) { return fabs(a - b) <= 1e-12 * (1 + fabs(b)); }
static bool opposite(const Angle &a, const Angle &b, int x, int y, int z)
{
    return near(b.ox, x * a.ox) && near(b.oy, y * a.oy) && near(b.oz, z * a.oz) && near(a.weight, b.weight);
}
static void sound(const AngularQuadrature &q, long n)
{
    vf::check(q.ndir_oct() == n && q.ndir() == 8 * n && q.end() - q.begin() == 8 * n, "number of angles");
    const int sx[] = {1, -1, -1, 1, 1, -1, -1, 1}, sy[] = {1, 1, -1, -1, 1, 1, -1, -1}, sz[] = {1, 1, 1, 1, -1, -1, -1, -1};
    double w = 0;
    for (int a = 0; a < 8 * n; a++) {
        const Angle &p = q[a];
        int o = a / n;
        w += p.weight;
        vf::check(p.weight > 0, "weights are positive");
        vf::check(p.ox * sx[o] > 0 && p.oy * sy[o] > 0 && p.oz * sz[o] > 0, "angles lie in their octant");
        vf::check(near(p.ox * p.ox + p.oy * p.oy + p.oz * p.oz, 1), "directions have unit length");
        vf::check(near(p.ox, sin(p.theta) * cos(p.alpha)) && near(p.oy, sin(p.theta) * sin(p.alpha)) && near(p.oz, cos(p.theta)), "angles and cosines agree");
        vf::check(near(p.rsintheta * sin(p.theta), 1), "reciprocal sine");
        vf::check(&*(q.octant(o + 1) + (a - o * n)) == &p, "octant iterator");
        vf::check(opposite(q[a - o * n], p, sx[o], sy[o], sz[o]), "octants mirror the first one");
        int rx = q.reflect(a, Normal::X_NORM), ry = q.reflect(a, Normal::Y_NORM), rz = q.reflect(a, Normal::Z_NORM);
        vf::check(rx >= 0 && rx < 8 * n && ry >= 0 && ry < 8 * n && rz >= 0 && rz < 8 * n, "reflection stays in the set");
        vf::check(opposite(p, q[rx], -1, 1, 1) && opposite(p, q[ry], 1, -1, 1) && opposite(p, q[rz], 1, 1, -1), "reflected direction");
        vf::check((int)q.reflect(rx, Normal::X_NORM) == a && (int)q.reflect(ry, Normal::Y_NORM) == a && (int)q.reflect(rz, Normal::Z_NORM) == a, "reflecting twice");
        vf::check((int)q.reflect(a, Surface::EAST) == rx && (int)q.reflect(a, Surface::WEST) == rx && (int)q.reflect(a, Surface::NORTH) == ry && (int)q.reflect(a, Surface::SOUTH) == ry &&
                      (int)q.reflect(a, Surface::TOP) == rz && (int)q.reflect(a, Surface::BOTTOM) == rz,
                  "reflection by surface");
        int v = q.reverse(a, 3);
        vf::check(v >= 0 && v < 8 * n && opposite(p, q[v], -1, -1, -1) && (int)q.reverse(v, 3) == a, "reversal in three dimensions");
        if (o < 4) {
            int u = q.reverse(a, 2);
            vf::check(u >= 0 && u < 4 * n && opposite(p, q[u], -1, -1, 1) && (int)q.reverse(u) == a, "reversal in the plane");
        }
    }
    vf::check(near(w, 8), "weights sum to the number of octants");
}
static double moment(const AngularQuadrature &q, int x, int y, int z)
{
    double s = 0;
    for (int k = 0; k < q.ndir_oct(); k++) s += q[k].weight * pow(q[k].ox, x) * pow(q[k].oy, y) * pow(q[k].oz, z);
    return s;
}
VF_HARNESS(level_symmetric)
{
    long n = vf::range("half_order", 1, 8);
    std::stringstream s;
    s << "<ang_quad type=\"" << (vf::boolean("long") ? "level-symmetric" : "ls") << "\" order=\"" << 2 * n << "\"/>";
    AngularQuadrature q = make(s.str());
    sound(q, n * (n + 1) / 2);
    for (int p = 1; p <= 6; p++) vf::check(near(moment(q, p, 0, 0), moment(q, 0, p, 0)) && near(moment(q, p, 0, 0), moment(q, 0, 0, p)), "no axis is preferred");
    vf::check(near(moment(q, 2, 1, 0), moment(q, 1, 0, 2)) && near(moment(q, 2, 1, 0), moment(q, 1, 2, 0)), "no ordering of the axes is preferred");
    vf::check(fabs(moment(q, 2, 0, 0) - 1.0 / 3) < 1e-10, "second moment");
    // exact to table precision up to S8 only: the cosines of the higher orders belong to another set than their weights
    vf::check(n < 2 || fabs(moment(q, 4, 0, 0) - 1.0 / 5) < 3e-3, "fourth moment");
}
VF_HARNESS(level_symmetric_rejects)
{
    long o = vf::range("order", 1, 30);
    std::stringstream s;
    s << "<ang_quad type=\"ls\" order=\"" << o << "\"/>";
    vf::check(vf::throws([&]() { make(s.str()); }) == (o % 2 == 1 || o > 16), "orders that are odd or too large are rejected");
}
VF_HARNESS(chebyshev_gauss)
{
    long na = vf::range("na", 1, 12), np = vf::range("np", 1, 6);
    AngularQuadrature q = make(product(vf::boolean("long") ? "chebyshev-gauss" : "cg", na, np));
    sound(q, na * np);
    for (int p = 0; p <= 4 * np - 2; p += 2) vf::check(fabs(moment(q, 0, 0, p) - 1.0 / (p + 1)) < 1e-11, "even polar moments");
    vf::check(fabs(moment(q, 2, 0, 0) - 1.0 / 3) < 1e-11 && fabs(moment(q, 0, 2, 0) - 1.0 / 3) < 1e-11, "second moments");
    for (int k = 0; k < na * np; k++) vf::check(near(q[k].alpha, (k / np + 0.5) * HPI / na), "azimuthal angles");
}
VF_HARNESS(chebyshev_yamamoto)
{
    long na = vf::range("na", 1, 12), np = vf::range("np", 1, 5);
    std::string s = product(vf::boolean("long") ? "chebyshev-yamamoto" : "cy", na, np);
    if (np != 3) {
        vf::check(vf::throws([&]() { make(s); }), "only three polar angles are tabulated");
        return;
    }
    AngularQuadrature q = make(s);
    sound(q, na * np);
    vf::check(near(moment(q, 2, 0, 0), moment(q, 0, 2, 0)), "no azimuth is preferred");
    for (int k = 0; k < na * np; k++) vf::check(near(q[k].alpha, (k / np + 0.5) * HPI / na), "azimuthal angles");
}
static const char *rejected[] = {"<ang_quad type=\"cg\" n_azimuthal=\"0\" n_polar=\"2\"/>", "<ang_quad type=\"cg\" n_azimuthal=\"2\"/>", "<ang_quad type=\"cy\" n_polar=\"3\"/>",
                                 "<ang_quad type=\"cg\" n_azimuthal=\"2\" n_polar=\"-1\"/>", "<ang_quad type=\"nonsense\"/>", "<ang_quad type=\"ls\" order=\"3\"/>", "<quad type=\"ls\" order=\"4\"/>",
                                 "<ang_quad type=\"user\"><angle ox=\"0.6\" oy=\"0.0\" oz=\"0.7\" weight=\"1.0\"/></ang_quad>",
                                 "<ang_quad type=\"user\"><angle alpha=\"2.0\" theta=\"0.7\" weight=\"1.0\"/></ang_quad>",
                                 "<ang_quad type=\"user\"><angle alpha=\"1.0\" theta=\"0.7\" weight=\"0.9\"/></ang_quad>"};
VF_HARNESS(bad_input)
{
    long i = vf::range("which", 0, (long)(sizeof(rejected) / sizeof(*rejected)) - 1);
    vf::check(vf::throws([&]() { make(rejected[i]); }), rejected[i]);
}
VF_HARNESS(user)
{
    long n = vf::range("n", 1, 7);
    double *w = vf::buffer<double>("w", n, 0.1, 1.0), *al = vf::buffer<double>("alpha", n, 0.05, 1.5), *th = vf::buffer<double>("theta", n, 0.05, 1.5), t = 0;
    for (long i = 0; i < n; i++) {
        vf::assume(w[i] > 0.01 && al[i] > 0.01 && th[i] > 0.01 && al[i] < 1.55 && th[i] < 1.55);
        t += w[i];
    }
    std::stringstream s;
    s.precision(17);
    s << "<ang_quad type=\"user\">";
    for (long i = 0; i < n; i++) s << "<angle alpha=\"" << al[i] << "\" theta=\"" << th[i] << "\" weight=\"" << w[i] / t << "\"/>";
    s << "</ang_quad>";
    AngularQuadrature q = make(s.str());
    sound(q, n);
    for (long i = 0; i < n; i++) vf::check(near(q[i].alpha, al[i]) && near(q[i].theta, th[i]) && near(q[i].weight, w[i] / t), "the angles given");
}
// what ray modularization does: azimuths are moved, then the weights follow
VF_HARNESS(moved_azimuths)
{
    long na = vf::range("na", 1, 8), np = vf::range("np", 1, 4);
    bool g = vf::boolean("gauss");
    if (!g) np = 3;
    AngularQuadrature q = make(product(g ? "cg" : "cy", na, np)), before = q;
    double *d = vf::buffer<double>("shift", na, -0.4, 0.4), h = HPI / na;
    std::vector<double> az;
    for (long i = 0; i < na; i++) {
        vf::assume(fabs(d[i]) < 0.45);
        az.push_back((i + 0.5 + d[i]) * h);
        for (long j = 0; j < np; j++) {
            Angle a = q[i * np + j];
            a.modify_alpha(az[i]);
            q.modify_angle(i * np + j, a);
        }
    }
    sound(q, na * np);
    q.update_weights();
    sound(q, na * np);
    for (long i = 0; i < na; i++) {
        double lo = i ? 0.5 * (az[i - 1] + az[i]) : 0.0, hi = i + 1 < na ? 0.5 * (az[i] + az[i + 1]) : HPI;
        for (long j = 0; j < np; j++) {
            const Angle &a = q[i * np + j], &b = before[i * np + j];
            vf::check(near(a.alpha, az[i]) && near(a.theta, b.theta), "updating the weights leaves the directions");
            vf::check(near(a.weight, b.weight * (hi - lo) / h), "weights follow the part of the circle covered");
        }
    }
    vf::check(q == q && (q == before) == !(q != before), "comparison");
    AngularQuadrature r = before;
    r = q;
    vf::check(r == q, "assignment");
}
#endif
