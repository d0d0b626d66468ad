// C06, bounded: areas, lookups, distances and traces of random pins against the definition of the pins
// trials *: 3000 100000
#include "vf.hpp"
#ifndef VF_SYM
#include <algorithm>
#include <memory>
#include <sstream>
#include "pugixml.hpp"
#include "core/pin_mesh.hpp"
using namespace mocc;
namespace {
const double pi = 3.14159265358979323846;
double frac(const char *n) { return vf::range(n, 0, 1000000) / 1e6; }
// Either kind of pin, with its own description of where the regions are
struct Ref {
    bool cyl;
    double p, h;
    long nx = 0, ny = 0, azi = 0;
    std::vector<double> radii;
    std::unique_ptr<PinMesh> pm;
    explicit Ref(bool c) : cyl(c)
    {
        // pitches as they are written in inputs: a few decimals
        p = vf::range("pitch", 500, 40000) / 10000.0;
        if (vf::boolean("usual")) p = 0.3 + vf::range("pitch3", 0, 2700) / 1000.0;
        h = 0.5 * p;
        std::ostringstream s;
        s.precision(17);
        s << "<mesh id=\"1\" pitch=\"" << p << "\" type=\"" << (cyl ? "cyl" : "rect") << "\">";
        if (cyl) {
            static const long as[] = {2, 4, 6, 8};
            azi     = as[vf::range("azi", 0, 3)];
            long nr = vf::range("rings", 1, 3);
            double r = 0;
            std::ostringstream rs, ss;
            rs.precision(17);
            for (long i = 0; i < nr; i++) {
                double in = r;
                r += (h * 0.999 - r) * (0.1 + 0.8 * frac("r"));
                long m = vf::range("sub", 1, 3);
                rs << (i ? " " : "") << r;
                ss << (i ? " " : "") << m;
                for (long k = 1; k <= m; k++) radii.push_back(std::sqrt(in * in + (r * r - in * in) * k / m));
            }
            s << "<radii>" << rs.str() << "</radii><sub_radii>" << ss.str() << "</sub_radii><sub_azi>" << azi << "</sub_azi>";
        } else {
            nx = vf::range("nx", 1, 5), ny = vf::range("ny", 1, 5);
            s << "<sub_x>" << nx << "</sub_x><sub_y>" << ny << "</sub_y>";
        }
        s << "</mesh>";
        pugi::xml_document d;
        d.load_string(s.str().c_str());
        pm.reset(PinMeshFactory(d.child("mesh")));
    }
    long n() const { return cyl ? (long)(radii.size() + 1) * azi : nx * ny; }
    // distance to the closest internal boundary (through the point, not along a direction)
    double gap(double x, double y) const
    {
        double g = 1e9;
        if (cyl) {
            for (double r : radii) g = std::min(g, std::abs(std::hypot(x, y) - r));
            for (long i = 0; i < azi; i++) {
                double c = std::cos(2 * pi * i / azi), s = std::sin(2 * pi * i / azi);
                g = std::min(g, x * c + y * s >= 0 ? std::abs(x * s - y * c) : std::hypot(x, y));
            }
        } else {
            for (long i = 1; i < nx; i++) g = std::min(g, std::abs(x - (p * i / nx - h)));
            for (long i = 1; i < ny; i++) g = std::min(g, std::abs(y - (p * i / ny - h)));
        }
        return g;
    }
    long at(double x, double y) const
    {
        if (cyl) {
            long ring = 0;
            while (ring < (long)radii.size() && std::hypot(x, y) > radii[ring]) ring++;
            double a = std::atan2(y, x);
            if (a < 0) a += 2 * pi;
            return ring * azi + std::min<long>(azi - 1, a / (2 * pi / azi));
        }
        long ix = std::floor((x + h) / (p / nx)), iy = std::floor((y + h) / (p / ny));
        return std::max(0l, std::min(ny - 1, iy)) * nx + std::max(0l, std::min(nx - 1, ix));
    }
    // all distances at which the line from (x,y) along (u,v) meets an internal boundary inside of the pin
    std::vector<double> meets(double x, double y, double u, double v) const
    {
        std::vector<double> t;
        if (cyl) {
            double a = u * u + v * v, k = x * u + y * v;
            for (double r : radii) {
                double d = k * k - a * (x * x + y * y - r * r);
                if (d < 0) continue;
                t.push_back((-k - std::sqrt(d)) / a);
                t.push_back((-k + std::sqrt(d)) / a);
            }
            for (long i = 0; i < azi / 2; i++) {
                double c = std::cos(2 * pi * i / azi), s = std::sin(2 * pi * i / azi), den = u * s - v * c;
                if (std::abs(den) > 1e-9) t.push_back(-(x * s - y * c) / den);
            }
        } else {
            for (long i = 1; i < nx; i++)
                if (std::abs(u) > 1e-9) t.push_back((p * i / nx - h - x) / u);
            for (long i = 1; i < ny; i++)
                if (std::abs(v) > 1e-9) t.push_back((p * i / ny - h - y) / v);
        }
        std::sort(t.begin(), t.end());
        return t;
    }
    // area between the positive x axis and angle a, counter-clockwise, of the square
    double sweep(double a) const
    {
        double s = 0;
        while (a > pi / 4 * 2 - 1e-12) s += h * h, a -= pi / 2;
        if (a <= pi / 4) return s + 0.5 * h * h * std::tan(a);
        return s + h * h - 0.5 * h * h * std::tan(pi / 2 - a);
    }
    double area(long i) const
    {
        if (!cyl) return p / nx * (p / ny);
        long ring = i / azi, k = i % azi;
        double in = ring ? radii[ring - 1] : 0.0;
        if (ring < (long)radii.size()) return pi * (radii[ring] * radii[ring] - in * in) / azi;
        return sweep(2 * pi * (k + 1) / azi) - sweep(2 * pi * k / azi) - pi * in * in / azi;
    }
};
bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (1e-3 + std::abs(a) + std::abs(b)); }
Direction any_direction()
{
    double th = pi * (0.05 + 0.9 * frac("theta"));
    if (vf::boolean("flat")) th = 0.5 * pi;
    return Direction(2 * pi * frac("alpha"), th);
}
void areas(bool cyl)
{
    Ref r(cyl);
    const PinMesh &m = *r.pm;
    vf::check(m.n_reg() == r.n() && (long)m.areas().size() == r.n(), "one area per region");
    vf::check(near(m.area(), r.p * r.p), "area of the pin");
    double sum = 0;
    for (long i = 0; i < r.n(); i++) {
        vf::check(m.areas()[i] > 0, "areas are positive");
        vf::check(std::abs(m.areas()[i] - r.area(i)) <= 1e-9 * r.p * r.p, "area of a region");
        sum += m.areas()[i];
    }
    vf::check(near(sum, r.p * r.p), "areas sum to the pin");
}
void lookup(bool cyl)
{
    Ref r(cyl);
    const PinMesh &m = *r.pm;
    for (int k = 0; k < 20; k++) {
        double x = r.p * (frac("x") - 0.5), y = r.p * (frac("y") - 0.5);
        switch (vf::range("special", 0, 9)) {
        case 0: x = -r.h; break;
        case 1: x = r.h; break;
        case 2: y = -r.h; break;
        case 3: y = r.h; break;
        case 4: x = 0.0; break;
        case 5: y = 0.0; break;
        case 6: y = -1e-300; break;
        case 7: if (vf::boolean("sw")) x = -r.h, y = -r.h; else x = r.h, y = r.h;
        }
        Point2 p(x, y);
        long got = m.find_reg(p);
        vf::check(got >= 0 && got < r.n(), "a point inside has a region");
        if (r.gap(x, y) > 1e-9)
            vf::check(got == r.at(x, y), "the region containing the point");
        else {
            // on a boundary: one of the regions touching the point
            bool any = false;
            double e = 1e-7 * r.p;
            for (int i = 0; i < 64 && !any; i++) any = r.at(x + e * std::cos(0.1 * i), y + e * std::sin(0.1 * i)) == got;
            vf::check(any, "a region touching the point");
        }
        if (r.gap(x, y) > 1e-9 && std::abs(x) < r.h * (1 - 1e-9) && std::abs(y) < r.h * (1 - 1e-9))
            vf::check(m.find_reg(p, any_direction()) == got, "a direction makes no difference inside of a region");
        double out = r.h * (1 + 1e-6 + frac("o"));
        Point2 q = vf::boolean("outx") ? Point2(vf::boolean("w") ? -out : out, y) : Point2(x, vf::boolean("s") ? -out : out);
        vf::check(m.find_reg(q) == -1, "a point outside is rejected");
        Direction away(q.x / std::hypot(q.x, q.y) * 0.8, q.y / std::hypot(q.x, q.y) * 0.8, 0.6);
        vf::check(m.find_reg(q, away) == -1, "a point outside moving away is rejected");
        int c = -1;
        auto d = m.distance_to_surface(q, away, c);
        vf::check(d.first == 0.0 && d.second, "no distance from outside");
    }
}
// points exactly on a boundary between regions
void on_boundary(bool cyl)
{
    Ref r(cyl);
    const PinMesh &m = *r.pm;
    for (int k = 0; k < 20; k++) {
        double x, y;
        if (cyl) {
            double rad = r.h * frac("rad");
            double a   = 2 * pi * frac("phi");
            bool line  = vf::boolean("line");
            if (line) {
                long i = vf::range("sector", 0, r.azi - 1);
                a      = 2 * pi * i / r.azi;
                x      = rad * std::cos(a), y = rad * std::sin(a);
                if (i == 0) y = vf::boolean("minus") ? -0.0 : 0.0;
                if (4 * i == r.azi || 4 * i == 3 * r.azi) x = 0.0;
                if (2 * i == r.azi) y = vf::boolean("minus") ? -0.0 : 0.0;
                if (r.azi == 8 && i % 2) y = y > 0 ? std::abs(x) : -std::abs(x);
            } else {
                rad = r.radii[vf::range("ring", 0, r.radii.size() - 1)];
                x = rad * std::cos(a), y = rad * std::sin(a);
            }
        } else {
            x = r.p * (frac("x") - 0.5), y = r.p * (frac("y") - 0.5);
            if (r.nx > 1 && vf::boolean("onx")) x = vf::range("ix", 1, r.nx - 1) * (r.p / r.nx) - r.h;
            else if (r.ny > 1) y = vf::range("iy", 1, r.ny - 1) * (r.p / r.ny) - r.h;
        }
        if (std::abs(x) > 0.999 * r.h || std::abs(y) > 0.999 * r.h || std::hypot(x, y) < 1e-3 * r.h) continue;
        Direction d = any_direction();
        double e = 1e-6 * r.p, X = x + e * d.ox, Y = y + e * d.oy;
        // not along the boundary, and no second boundary close by
        if (r.gap(X, Y) < 1e-2 * e) continue;
        auto t = r.meets(X, Y, d.ox, d.oy);
        bool clear = true;
        for (double v : t) clear = clear && (std::abs(v + e) < 1e-9 * r.p || std::abs(v + e) > 3 * e);
        if (!clear) continue;
        vf::check(m.find_reg(Point2(x, y), d) == r.at(X, Y), "the region the direction points into");
    }
}
void flight(bool cyl)
{
    Ref r(cyl);
    const PinMesh &m = *r.pm;
    double x = r.p * (frac("x") - 0.5), y = r.p * (frac("y") - 0.5);
    Direction d = any_direction();
    if (r.gap(x, y) < 1e-6 * r.p || std::abs(x) > 0.999 * r.h || std::abs(y) > 0.999 * r.h) return;
    std::vector<double> t;
    double out = 1e9;
    for (double e : {-r.h, r.h}) {
        if (std::abs(d.ox) > 1e-9 && (e - x) / d.ox > 0) out = std::min(out, (e - x) / d.ox);
        if (std::abs(d.oy) > 1e-9 && (e - y) / d.oy > 0) out = std::min(out, (e - y) / d.oy);
    }
    for (double v : r.meets(x, y, d.ox, d.oy)) {
        if (v > 0) t.push_back(v);
        // grazing two boundaries at once is decided by rounding
        if (t.size() > 1 && t.back() - t[t.size() - 2] < 1e-5 * r.p) return;
    }
    double done = 0;
    int on = -1;
    for (size_t i = 0; i <= t.size(); i++) {
        double now = done;
        if (now > out * (1 - 1e-6)) break;
        double X = x + now * d.ox, Y = y + now * d.oy;
        // a long way to a small ring leaves more rounding than the lookup allows for
        for (double q : r.radii)
            if (std::abs(std::hypot(X, Y) - q) < 1e-12) {
                double f = q / std::hypot(X, Y);
                X *= f, Y *= f;
            }
        auto got = m.distance_to_surface(Point2(X, Y), d, on);
        vf::check(!got.second, "the point is inside");
        if (i == t.size()) {
            vf::check(got.first == std::numeric_limits<real_t>::max(), "nothing left to meet");
            break;
        }
        vf::check(std::abs(now + got.first - t[i]) <= 1e-8 * (r.p + t[i] * t[i] / r.p), "distance to the first boundary met");
        double end = std::min(t[i], out), mid = now + (end - now) * (0.1 + 0.8 * frac("m"));
        // (close to the center an angle is too uncertain to tell on which side of a sector line the point is)
        if (std::abs(X) < r.h * 0.9999 && std::abs(Y) < r.h * 0.9999 && (!cyl || std::hypot(X, Y) > 0.05 * r.p))
            vf::check(m.find_reg(Point2(X, Y), d) == r.at(x + mid * d.ox, y + mid * d.oy), "region up to the next boundary");
        done = t[i];
    }
}
void trace(bool cyl)
{
    Ref r(cyl);
    const PinMesh &m = *r.pm;
    // a line crossing the pin, upwards, from one side to another
    double a = pi * (0.02 + 0.96 * frac("a")), u = std::cos(a), v = std::sin(a);
    double x = r.p * (frac("x") - 0.5), y = r.p * (frac("y") - 0.5), t0 = -1e9, t1 = 1e9;
    for (double e : {-r.h, r.h}) {
        double tx = std::abs(u) > 1e-12 ? (e - x) / u : e * 1e9, ty = (e - y) / v;
        if (tx > 0) t1 = std::min(t1, tx); else t0 = std::max(t0, tx);
        if (ty > 0) t1 = std::min(t1, ty); else t0 = std::max(t0, ty);
    }
    if (t1 - t0 < 1e-3 * r.p || std::abs(x) > 0.999 * r.h || std::abs(y) > 0.999 * r.h) return;
    Point2 p1(x + t0 * u, y + t0 * v), p2(x + t1 * u, y + t1 * v);
    std::vector<double> t(1, t0);
    for (double w : r.meets(x, y, u, v)) {
        if (w > t0 && w < t1) t.push_back(w);
        if (std::abs(w - t0) < 1e-6 * r.p || std::abs(w - t1) < 1e-6 * r.p) return;
        if (t.size() > 1 && w > t0 && w < t1 && w - t[t.size() - 2] < 1e-6 * r.p) return;
    }
    t.push_back(t1);
    VecF s;
    VecI reg;
    long first = vf::range("first", 0, 1000);
    s.push_back(7.0), reg.push_back(3);
    long n = m.trace(p1, p2, first, s, reg);
    vf::check(n == (long)t.size() - 1, "number of segments");
    vf::check((long)s.size() == n + 1 && (long)reg.size() == n + 1 && s[0] == 7.0 && reg[0] == 3, "segments are appended");
    for (long i = 0; i < n; i++) {
        vf::check(std::abs(s[i + 1] - (t[i + 1] - t[i])) <= 1e-9 * r.p, "length of a segment");
        double w = 0.5 * (t[i] + t[i + 1]);
        vf::check(reg[i + 1] == first + r.at(x + w * u, y + w * v), "region of a segment");
    }
}
}
VF_HARNESS(cyl_center)
{
    Ref r(true);
    for (int k = 0; k < 20; k++) {
        Direction d = any_direction();
        if (r.gap(d.ox, d.oy) < 1e-6) continue;
        double x = 0.0, y = 0.0;
        if (vf::boolean("minusx")) x = -x;
        if (vf::boolean("minusy")) y = -y;
        vf::check(r.pm->find_reg(Point2(x, y), d) == r.at(1e-6 * d.ox, 1e-6 * d.oy), "from the center, the region ahead");
    }
}
VF_HARNESS(rect_areas) { areas(false); }
VF_HARNESS(cyl_areas) { areas(true); }
VF_HARNESS(rect_lookup) { lookup(false); }
VF_HARNESS(cyl_lookup) { lookup(true); }
VF_HARNESS(rect_on_boundary) { on_boundary(false); }
VF_HARNESS(cyl_on_boundary) { on_boundary(true); }
VF_HARNESS(rect_flight) { flight(false); }
VF_HARNESS(cyl_flight) { flight(true); }
VF_HARNESS(rect_trace) { trace(false); }
VF_HARNESS(cyl_trace) { trace(true); }
#endif
