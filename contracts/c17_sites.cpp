// C17, bounded: banks over real cores, their totals, resizing with real random numbers, entropy
// trials *: 120 3000
#include "cores.hpp"
#include "vf.hpp"
#ifndef VF_SYM
#include <algorithm>
#include <cmath>
#include "sweepers/mc/fission_bank.hpp"
using namespace mocc;
using namespace mocc::mc;
struct Case {
    std::unique_ptr<vfc::Core> core;
    const CoreMesh *m;
    Case()
    {
        vfc::Options o;
        o.subplane = false;
        core.reset(new vfc::Core(vfc::spec(o)));
        m = core->mesh.get();
    }
    Point3 somewhere() const
    {
        auto u = [](double h) { return h * (vf::range("u", 1, 9999) / 10000.0); };
        return Point3(u(m->hx_core()), u(m->hy_core()), u(m->z(m->nz())));
    }
    long cell(const Point3 &p) const
    {
        double x = 0, y = 0, z = 0;
        long ix = 0, iy = 0, iz = 0;
        while (x + m->dx(ix) < p.x) x += m->dx(ix++);
        while (y + m->dy(iy) < p.y) y += m->dy(iy++);
        while (z + m->dz(iz) < p.z) z += m->dz(iz++);
        return (iz * m->ny() + iy) * m->nx() + ix;
    }
};
static bool same(const Particle &a, const Particle &b)
{
    return a.id == b.id && a.weight == b.weight && a.group == b.group && a.location_global.x == b.location_global.x && a.location_global.y == b.location_global.y && a.location_global.z == b.location_global.z && a.direction.ox == b.direction.ox && a.direction.oy == b.direction.oy && a.direction.oz == b.direction.oz && a.alive == b.alive && a.coincident == b.coincident;
}
static Particle site(const Case &c, unsigned id)
{
    return Particle(c.somewhere(), Direction::Isotropic(vf::within("r1", 0, 0.999), vf::within("r2", 0, 0.999)), (int)vf::range("group", 0, 6), id);
}
VF_HARNESS(history)
{
    Case c;
    FissionBank a(*c.m), b(*c.m);
    vf::check(a.size() == 0 && a.total_fission() == 0, "a new bank is empty");
    std::vector<Particle> ra, rb;
    double ta = 0, tb = 0;
    long n = vf::range("steps", 1, 25);
    RNG_LCG rng(2 * vf::range("seed", 0, 1000000) + 1);
    for (long k = 0; k < n; k++) {
        long what = vf::range("what", 0, 9);
        if (what < 5) {
            Particle p = site(c, k);
            if (vf::boolean("heavy")) p.weight = vf::positive("w") + 0.1;
            a.push_back(p);
            ra.push_back(p);
            ta += p.weight;
        } else if (what == 5) {
            a.swap(b);
            std::swap(ra, rb);
            std::swap(ta, tb);
        } else if (what == 6) {
            a.clear();
            ra.clear();
            ta = 0;
        } else if (!ra.empty()) {
            long m = what == 7 ? vf::range("grow", ra.size(), 3 * ra.size()) : vf::range("shrink", 1, ra.size());
            a.resize(m, rng);
            vf::check(a.size() == m, "the size asked for");
            std::vector<int> used(ra.size(), 0);
            // sites may be equal to one another: count copies by what they equal
            for (const auto &p : a) {
                bool found = false;
                for (size_t i = 0; i < ra.size() && !found; i++)
                    if (same(ra[i], p) && (m > (long)ra.size() || !used[i])) used[i]++, found = true;
                vf::check(found, "every site is one of the old ones, none more often when the bank shrinks");
            }
            if (m >= (long)ra.size())
                for (size_t i = 0; i < ra.size(); i++) vf::check(same(a[i], ra[i]), "old sites stay when the bank grows");
            ra.assign(a.begin(), a.end());
        }
        vf::check(a.size() == (int)ra.size() && b.size() == (int)rb.size(), "sizes");
        vf::check(vf::eq(a.total_fission(), ta) && vf::eq(b.total_fission(), tb), "totals");
        for (size_t i = 0; i < ra.size(); i++) vf::check(same(a[i], ra[i]), "sites");
        for (size_t i = 0; i < rb.size(); i++) vf::check(same(b[i], rb[i]), "sites of the other bank");
    }
}
VF_HARNESS(grow_evenly)
{
    // many draws: every site has to be drawn, and no site much more often than the others
    Case c;
    FissionBank a(*c.m);
    long n = vf::range("n", 1, 6);
    for (long i = 0; i < n; i++) {
        Particle p = site(c, i);
        a.push_back(p);
    }
    RNG_LCG rng(2 * vf::range("seed", 0, 1000000) + 1);
    a.resize(n + 400 * n, rng);
    std::vector<long> hit(n, 0);
    for (const auto &p : a) hit[p.id]++;
    for (long h : hit) vf::check(h > 250 && h < 600, "sites are drawn evenly");
    a.resize(n, rng);
    vf::check(a.size() == n, "back to the first size");
}
VF_HARNESS(shrink_evenly)
{
    Case c;
    RNG_LCG rng(2 * vf::range("seed", 0, 1000000) + 1);
    long n = vf::range("n", 2, 6);
    std::vector<long> hit(n, 0);
    for (long k = 0; k < 400; k++) {
        FissionBank a(*c.m);
        for (long i = 0; i < n; i++) {
            Particle p(Point3(0.1, 0.1, 0.1), Direction(), 0, i);
            a.push_back(p);
        }
        a.resize(n - 1, rng);
        for (const auto &p : a) hit[p.id]++;
    }
    for (long h : hit) vf::check(fabs(400.0 - h - 400.0 / n) < 110, "sites are removed evenly");
}
VF_HARNESS(entropy)
{
    Case c;
    FissionBank a(*c.m);
    long n = vf::range("n", 1, 30);
    bool one = vf::range("one", 0, 3) == 0;
    std::vector<double> pop(c.m->n_pin(), 0.0);
    Particle first = site(c, 0);
    for (long i = 0; i < n; i++) {
        Particle p = one ? first : site(c, i);
        a.push_back(p);
        pop[c.cell(p.location_global)] += 1;
    }
    double h = 0;
    for (double p : pop)
        if (p > 0) h -= p / n * log(p / n) / log(2.0);
    vf::check(fabs(a.shannon_entropy() - h) < 1e-9, "entropy of the populations of the cells");
    if (one) vf::check(a.shannon_entropy() == 0, "no entropy when all sites share a cell");
}
VF_HARNESS(outside)
{
    Case c;
    FissionBank a(*c.m);
    Particle p = site(c, 0);
    a.push_back(p);
    p.location_global.z = c.m->z(c.m->nz()) * (1 + vf::range("above", 1, 200) / 100.0);
    if (vf::boolean("corner")) p.location_global.x = p.location_global.y = 0.001;
    a.push_back(p);
    vf::check(vf::throws([&]() { a.shannon_entropy(); }), "a site above the core is reported");
}
VF_HARNESS(initial)
{
    Case c;
    XSMesh xs(*c.m, MeshTreatment::TRUE);
    long n = vf::range("n", 1, 40), seed = 2 * vf::range("seed", 0, 1000000) + 1;
    double lo[3], hi[3];
    std::string s = "<fission_box ";
    for (int i = 0; i < 3; i++) {
        lo[i] = vf::range("lo", 0, 40) / 100.0;
        hi[i] = lo[i] + vf::range("width", 1, 30) / 100.0;
        char b[200];
        snprintf(b, sizeof b, "%c_min=\"%.17g\" %c_max=\"%.17g\" ", "xyz"[i], lo[i], "xyz"[i], hi[i]);
        s += b;
    }
    if (vf::boolean("reject")) s += "fissile_rejection=\"false\" ";
    pugi::xml_document doc;
    doc.load_string((s + "/>").c_str());
    RNG_LCG r1(seed), r2(seed);
    FissionBank a(doc.child("fission_box"), n, *c.m, xs, r1), b(doc.child("fission_box"), n, *c.m, xs, r2);
    vf::check(a.size() == n && b.size() == n, "number of sites");
    vf::check(a.total_fission() == 0, "no fission yet");
    for (long i = 0; i < n; i++) {
        const Particle &p = a[i];
        vf::check(same(p, b[i]), "the seed determines the sites");
        vf::check(p.location_global.x >= lo[0] && p.location_global.x <= hi[0] && p.location_global.y >= lo[1] && p.location_global.y <= hi[1] && p.location_global.z >= lo[2] && p.location_global.z <= hi[2], "inside the box");
        vf::check(p.group >= 0 && p.group < (int)xs.n_group(), "group");
        vf::check(p.weight == 1 && (long)p.id == i && p.alive, "one neutron each, numbered");
        vf::check(fabs(p.direction.ox * p.direction.ox + p.direction.oy * p.direction.oy + p.direction.oz * p.direction.oz - 1) < 1e-9, "unit direction");
    }
    pugi::xml_document bad;
    bad.load_string("<fission_box x_min=\"0\" x_max=\"1\" y_min=\"0\" y_max=\"1\" z_min=\"0\"/>");
    vf::check(vf::throws([&]() { FissionBank z(bad.child("fission_box"), n, *c.m, xs, r1); }), "a missing bound is rejected");
    bad.load_string("<fission_box x_min=\"0\" x_max=\"1\" y_min=\"2\" y_max=\"1\" z_min=\"0\" z_max=\"1\"/>");
    vf::check(vf::throws([&]() { FissionBank z(bad.child("fission_box"), n, *c.m, xs, r1); }), "an empty box is rejected");
}
#endif
