// C06: distances to lines and circles, crossings of segments with them
// sources: core/geometry/line.cpp core/geometry/circle.cpp
// trials *: 1000 20000
#include "pins.hpp"
// where the ray meets the (unbounded) line
VF_HARNESS(line_distance)
{
#ifdef VF_SYM
    Line &l = vf::object<Line>("line");
#else
    Line l(Point2(0, 0), Point2(1, 0));
#endif
    l.p1.x = coord("x1"), l.p1.y = coord("y1"), l.p2.x = coord("x2"), l.p2.y = coord("y2");
    Point2 p(coord("x"), coord("y"));
    Direction dir = direction();
    bool on = vf::boolean("coincident");
    double d = l.Line::distance_to_surface(p, dir, on);
    // how far the point is on the left of the line, and how fast that shrinks on the way
    double side = (l.p2.x - l.p1.x) * (p.y - l.p1.y) - (l.p2.y - l.p1.y) * (p.x - l.p1.x);
    double slope = (l.p2.x - l.p1.x) * dir.oy - (l.p2.y - l.p1.y) * dir.ox;
    double tiny = REAL_FUZZ;
#ifndef VF_SYM
    vf::assume(mag(mag(side) - tiny) > 1e-14 && mag(mag(slope) - tiny) > 1e-14);
#endif
    bool meets = vf::all(!on, mag(slope) >= tiny, mag(side) > tiny, side * slope < 0.0);
    vf::check(vf::implies(!meets, d == far), "nothing ahead");
    vf::check(vf::implies(meets, vf::both(d > 0.0, vf::eq(side + d * slope, 0.0))), "point on the line ahead");
}
// Roots of a t^2 + 2 k t + c with a > 0; s is the root of k^2 - a c and d the distance that the code computes
namespace {
double value(double a, double k, double c, double t) { return a * t * t + 2.0 * k * t + c; }
bool root_of(double a, double k, double c, double s) { return vf::all(s >= 0.0, s * s == k * k - a * c); }
// a root at d, and none before
bool first(double a, double k, double c, double t, double d) { return vf::all(d >= 0.0, value(a, k, c, d) == 0.0, vf::implies(t < d, value(a, k, c, t) != 0.0)); }
bool none(double a, double k, double c, double t) { return value(a, k, c, t) != 0.0; }
bool pos(double a, double t) { return vf::both(a > 0.0, t > 0.0); }
bool no_root(double a, double k, double c, double t) { return vf::implies(vf::both(pos(a, t), k * k - a * c < 0.0), none(a, k, c, t)); }
bool behind(double a, double k, double c, double s, double t) { return vf::implies(vf::all(pos(a, t), root_of(a, k, c, s), c > 0.0, (-k - s) / a < 0.0), none(a, k, c, t)); }
bool entering(double a, double k, double c, double s, double t) { return vf::implies(vf::all(pos(a, t), root_of(a, k, c, s), c > 0.0, (-k - s) / a >= 0.0), first(a, k, c, t, (-k - s) / a)); }
bool leaving(double a, double k, double c, double s, double t) { return vf::implies(vf::all(pos(a, t), root_of(a, k, c, s), c < 0.0), first(a, k, c, t, (-k + s) / a)); }
bool outward(double a, double k, double t) { return vf::implies(vf::both(pos(a, t), k >= 0.0), none(a, k, 0.0, t)); }
bool inward(double a, double k, double s, double t) { return vf::implies(vf::all(pos(a, t), root_of(a, k, 0.0, s), k < 0.0), first(a, k, 0.0, t, (-k + s) / a)); }
}
#ifdef VF_SYM
VF_HARNESS(quadratic)
{
    double a = vf::real("a"), k = vf::real("k"), c = vf::real("c"), s = vf::real("s"), t = vf::real("t");
    vf::check(no_root(a, k, c, t), "no root");
    vf::check(behind(a, k, c, s, t), "roots behind");
    vf::check(entering(a, k, c, s, t), "first root from outside");
    vf::check(leaving(a, k, c, s, t), "first root from inside");
    vf::check(outward(a, k, t), "starting on the circle, outward");
    vf::check(inward(a, k, s, t), "starting on the circle, inward");
}
#endif
// where the ray first meets the circle
namespace {
void circle(bool on)
{
#ifdef VF_SYM
    Circle &s = vf::object<Circle>("circle");
    s.c.x = vf::real("cx"), s.c.y = vf::real("cy"), s.r = vf::real("r");
#else
    Circle s(Point2(coord("cx"), coord("cy")), vf::range("r", 1, 3000) / 1000.0);
#endif
    vf::assume(s.r > 0.0);
    Point2 p(coord("x"), coord("y"));
    Direction dir = direction();
#ifndef VF_SYM
    if (on) {
        double a = vf::range("at", 0, 6283) / 1000.0;
        p = Point2(s.c.x + s.r * cos(a), s.c.y + s.r * sin(a));
    }
#endif
    double a = dir.ox * dir.ox + dir.oy * dir.oy;
    vf::assume(a > 0.0);
    double x = p.x - s.c.x, y = p.y - s.c.y;
    double k = x * dir.ox + y * dir.oy, c = x * x + y * y - s.r * s.r;
    if (on)
        vf::assume(vf::eq(c, 0.0));
    else
        vf::assume(mag(c) >= REAL_FUZZ);
    double d = s.Circle::distance_to_surface(p, dir, on);
    auto out = [&](double t) { return value(a, k, on ? 0.0 : c, t); };      // zero on the circle
    double t = vf::real("t", 0, 10);
    vf::assume(t > 0.0);
#ifdef VF_SYM
    double c0 = on ? 0.0 : c, det = k * k - a * c0, root = sqrt(det), d1 = (-k - root) / a, d2 = (-k + root) / a;
    bool none = false;
    double want = d2;
    // each fact is proved for all numbers in quadratic
    if (on) {
        none = k >= 0.0;
        if (none)
            vf::assume(outward(a, k, t));
        else
            vf::assume(inward(a, k, root, t));
    } else if (det < 0.0) {
        none = true;
        vf::assume(no_root(a, k, c, t));
    } else if (c < 0.0)
        vf::assume(leaving(a, k, c, root, t));
    else {
        none = d1 < 0.0, want = d1;
        if (none)
            vf::assume(behind(a, k, c, root, t));
        else
            vf::assume(entering(a, k, c, root, t));
    }
    if (none) {
        vf::check(d == far, "no distance");
        vf::check(out(t) != 0.0, "nothing ahead");
    } else {
        vf::check(d == want, "distance");
        vf::check(vf::both(want >= 0.0, out(want) == 0.0), "point on the circle");
        vf::check(vf::implies(t < want, out(t) != 0.0), "first meeting");
    }
#else
    double det = k * k - a * (on ? 0.0 : c);
    vf::assume(mag(det) > 1e-9 && (!on || mag(k) > 1e-6));
    double t1 = (-k - sqrt(det)) / a, t2 = (-k + sqrt(det)) / a;
    bool none = det < 0.0 || (on ? k > 0.0 : t2 < 0.0);
    vf::check((d == far) == none, "nothing ahead");
    if (!none) vf::check(mag(d - (on || t1 < 0.0 ? t2 : t1)) < 1e-6 * (1.0 + mag(d)) / mag(a), "first meeting");
#endif
}
}
VF_HARNESS(circle_distance) { circle(false); }
VF_HARNESS(circle_leaving) { circle(true); }
// crossing of two segments
VF_HARNESS(crossing)
{
#ifdef VF_SYM
    Line &l = vf::object<Line>("l"), &m = vf::object<Line>("m");
#else
    Line l(Point2(0, 0), Point2(1, 0)), m(Point2(0, 0), Point2(1, 0));
#endif
    l.p1 = Point2(coord("x1"), coord("y1")), l.p2 = Point2(coord("x2"), coord("y2"));
    m.p1 = Point2(coord("x3"), coord("y3")), m.p2 = Point2(coord("x4"), coord("y4"));
    double u = l.p2.x - l.p1.x, v = l.p2.y - l.p1.y, w = m.p2.x - m.p1.x, z = m.p2.y - m.p1.y;
    double det = u * z - v * w;
    vf::assume(det != 0.0);
    double s = vf::real("s", 0, 1), t = vf::real("t", 0, 1);
    Point2 p;
    int n = Intersect(l, m, p);
    vf::check(n == 0 || n == 1, "at most one point");
#ifdef VF_SYM
    if (n == 1) {
        vf::check(p.ok, "point given");
        vf::check((p.x - l.p1.x) * v == (p.y - l.p1.y) * u, "on the first segment's line");
        vf::check((p.x - m.p1.x) * z == (p.y - m.p1.y) * w, "on the second segment's line");
        double du = (p.x - l.p1.x) * u + (p.y - l.p1.y) * v, dw = (p.x - m.p1.x) * w + (p.y - m.p1.y) * z;
        vf::check(vf::both(du >= 0.0, du <= u * u + v * v), "within the first segment");
        vf::check(vf::both(dw >= 0.0, dw <= w * w + z * z), "within the second segment");
    } else {
        vf::assume(vf::all(s >= 0.0, s <= 1.0, t >= 0.0, t <= 1.0));
        vf::check(vf::any(l.p1.x + s * u != m.p1.x + t * w, l.p1.y + s * v != m.p1.y + t * z), "no common point");
    }
#else
    vf::assume(mag(det) > 1e-6);
    double c = w * (l.p1.y - m.p1.y) - z * (l.p1.x - m.p1.x), d = u * (l.p1.y - m.p1.y) - v * (l.p1.x - m.p1.x);
    s = c / det, t = d / det;
    auto edge = [](double q) { return mag(q) < 1e-9 || mag(q - 1) < 1e-9; };
    vf::assume(!edge(s) && !edge(t));
    vf::check((n == 1) == (s >= 0 && s <= 1 && t >= 0 && t <= 1), "segments cross");
    if (n == 1) vf::check(vf::eq(p.x, l.p1.x + s * u) && vf::eq(p.y, l.p1.y + s * v) && mag(p.x - m.p1.x - t * w) < 1e-6 && mag(p.y - m.p1.y - t * z) < 1e-6, "common point");
#endif
}
// crossing of a segment that starts and ends outside of a circle with it
VF_HARNESS(circle_crossing)
{
#ifdef VF_SYM
    Line &l = vf::object<Line>("l");
    Circle &o = vf::object<Circle>("o");
#else
    Line l(Point2(0, 0), Point2(1, 0));
    Circle o(Point2(0, 0), 1.0);
#endif
    l.p1 = Point2(coord("x1"), coord("y1")), l.p2 = Point2(coord("x2"), coord("y2"));
    o.c = Point2(coord("cx"), coord("cy"));
    o.r = vf::positive("r", 2);
    double u = l.p2.x - l.p1.x, v = l.p2.y - l.p1.y, x = l.p1.x - o.c.x, y = l.p1.y - o.c.y;
    double a = u * u + v * v, b = x * u + y * v, c = x * x + y * y - o.r * o.r, det = b * b - a * c;
    vf::assume(vf::all(a > 0.0, c > 0.0, a + 2.0 * b + c > 0.0, det != 0.0));
#ifndef VF_SYM
    vf::assume(mag(det) > 1e-9 && c > 1e-9 && a + 2.0 * b + c > 1e-9);
#endif
    Point2 p, q;
    int n = Intersect(l, o, p, q);
    double s = sqrt(det), t1 = (-b - s) * (1.0 / a), t2 = (-b + s) * (1.0 / a);
    auto at = [&](double t) { return a * t * t + 2.0 * b * t + c; };      // zero on the circle
#ifdef VF_SYM
    double t = vf::real("t", 0, 1);
    auto fact = [](double a, double b, double c, double s, double t, double t1, double t2) {
        double det = b * b - a * c, v = a * t * t + 2.0 * b * t + c;
        bool ends = vf::all(a > 0.0, c > 0.0, a + 2.0 * b + c > 0.0, det != 0.0);
        bool real = vf::all(s >= 0.0, s * s == det, t1 * a == -b - s, t2 * a == -b + s), in = vf::both(t > 0.0, t < 1.0);
        return vf::all(vf::implies(vf::all(ends, in, vf::any(det < 0.0, b > 0.0)), v != 0.0),
                       vf::implies(vf::all(ends, real), vf::all(a * t1 * t1 + 2.0 * b * t1 + c == 0.0, a * t2 * t2 + 2.0 * b * t2 + c == 0.0, t1 < t2,
                                                               vf::implies(vf::any(t1 <= 0.0, t2 <= 0.0), vf::both(t1 < 0.0, t2 < 0.0)), vf::implies(vf::any(t1 >= 1.0, t2 >= 1.0), vf::both(t1 > 1.0, t2 > 1.0)),
                                                               vf::implies(v == 0.0, vf::any(t == t1, t == t2)))));
    };
    vf::check(fact(vf::real("A"), vf::real("B"), vf::real("C"), vf::real("S"), vf::real("T"), vf::real("T1"), vf::real("T2")), "roots of a quadratic between its ends");
    vf::assume(fact(a, b, c, s, t, t1, t2)); // that fact
    vf::assume(vf::both(t > 0.0, t < 1.0));
    vf::check(n == 0 || n == 2, "none or two points");
    if (n == 0)
        vf::check(at(t) != 0.0, "does not meet the circle");
    else {
        vf::check(vf::all(p.ok, q.ok, t1 > 0.0, t2 < 1.0, t1 < t2), "within the segment");
        vf::check(vf::both(at(t1) == 0.0, at(t2) == 0.0), "on the circle");
        vf::check(vf::all(p.x == l.p1.x + u * t1, p.y == l.p1.y + v * t1, q.x == l.p1.x + u * t2, q.y == l.p1.y + v * t2), "points along the segment");
    }
#else
    bool two = det > 0.0 && t1 > 0.0 && t1 < 1.0;
    vf::check(n == (two ? 2 : 0), "none or two points");
    if (two) vf::check(vf::eq(p.x, l.p1.x + u * t1) && vf::eq(p.y, l.p1.y + v * t1) && vf::eq(q.x, l.p1.x + u * t2) && vf::eq(q.y, l.p1.y + v * t2), "points along the segment");
#endif
}
