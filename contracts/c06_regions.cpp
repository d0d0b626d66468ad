// C06: region lookup and nearest boundary of a pin
// sources: core/pin_mesh_rect.cpp core/pin_mesh_cyl.cpp
// trials *: 1000 20000
#include "pins.hpp"
VF_HARNESS(rect_region)
{
    Rect t;
    const PinMesh_Rect &pin = t.pin;
    Point2 p(place("x", pin.hx_), place("y", pin.hy_));
    int r = pin.PinMesh_Rect::find_reg(p);
    bool in = vf::both(mag(p.x) <= 0.5 * pin.pitch_x_, mag(p.y) <= 0.5 * pin.pitch_y_);
    vf::check((r >= 0) == in, "only points of the pin have a region");
    if (r >= 0) {
        long nx = pin.nx_, ny = pin.ny_, i = vf::imod(r, nx), j = vf::idiv(r, nx);
        vf::check(vf::all(i >= 0, i < nx, j >= 0, j < ny), "region of this pin");
        vf::check(vf::all(p.x >= pin.hx_[i], p.x <= pin.hx_[i + 1]), "column contains the point");
        vf::check(vf::all(p.y >= pin.hy_[j], p.y <= pin.hy_[j + 1]), "row contains the point");
    } else
        vf::check(r == -1, "rejection");
}
// on a division the direction of travel decides
VF_HARNESS(rect_region_ahead)
{
    Rect t;
    const PinMesh_Rect &pin = t.pin;
    Point2 p(place("x", pin.hx_), place("y", pin.hy_));
    Direction dir = direction();
    vf::assume(vf::all(mag(p.x) <= 0.5 * pin.pitch_x_, mag(p.y) <= 0.5 * pin.pitch_y_, dir.ox != 0.0, dir.oy != 0.0));
    int r = pin.PinMesh_Rect::find_reg(p, dir);
    double hx = 0.5 * pin.pitch_x_, hy = 0.5 * pin.pitch_y_;
    bool leaves = vf::any(vf::both(dir.ox > 0.0, p.x == hx), vf::both(dir.ox < 0.0, p.x == -hx), vf::both(dir.oy > 0.0, p.y == hy), vf::both(dir.oy < 0.0, p.y == -hy));
    bool edge = vf::any(vf::both(dir.ox > 0.0, p.x > hx - 1e-9), vf::both(dir.ox < 0.0, p.x < -hx + 1e-9), vf::both(dir.oy > 0.0, p.y > hy - 1e-9), vf::both(dir.oy < 0.0, p.y < -hy + 1e-9));
    vf::check(vf::implies(leaves, r == -1), "leaving the pin");
    vf::check(vf::implies(!edge, r >= 0), "staying in the pin");
    if (r >= 0) {
        long nx = pin.nx_, ny = pin.ny_, i = vf::imod(r, nx), j = vf::idiv(r, nx);
        vf::check(vf::all(i >= 0, i < nx, j >= 0, j < ny), "region of this pin");
        vf::check(vf::both(p.x >= pin.hx_[i] - 1e-9, p.x <= pin.hx_[i + 1] + 1e-9), "column contains the point");
        vf::check(vf::both(p.y >= pin.hy_[j] - 1e-9, p.y <= pin.hy_[j + 1] + 1e-9), "row contains the point");
        // on a division, or clearly off it: strictly on the side that the direction points to
        auto clear = [](double x, double a, double b) { return vf::both(vf::any(x == a, mag(x - a) > 1e-9), vf::any(x == b, mag(x - b) > 1e-9)); };
        vf::assume(vf::both(clear(p.x, pin.hx_[i], pin.hx_[i + 1]), clear(p.y, pin.hy_[j], pin.hy_[j + 1])));
        vf::check(vf::both(vf::implies(dir.ox > 0.0, p.x < pin.hx_[i + 1]), vf::implies(dir.ox < 0.0, p.x > pin.hx_[i])), "column ahead");
        vf::check(vf::both(vf::implies(dir.oy > 0.0, p.y < pin.hy_[j + 1]), vf::implies(dir.oy < 0.0, p.y > pin.hy_[j])), "row ahead");
    }
}
#ifdef VF_SYM
// distance to one boundary: proved above
static const double *to_line_, *to_circle_, *on_circle_;
static const Line *lines_;
static const Circle *circles_;
VF_CONTRACT(line, "mocc::Line::distance_to_surface(mocc::Point2, mocc::Direction, bool) const")
extern "C" double vfc_line(const Line *l, Point2 *, Direction *, bool on)
{
    return vf::ite(on, far, to_line_[l - lines_]);
}
VF_CONTRACT(circle, "mocc::Circle::distance_to_surface(mocc::Point2, mocc::Direction, bool) const")
extern "C" double vfc_circle(const Circle *c, Point2 *, Direction *, bool on)
{
    return vf::ite(on, on_circle_[c - circles_], to_circle_[c - circles_]);
}
template <class T> void fill(std::vector<T> &v, T *p, long n)
{
    v._M_impl._M_start = p;
    v._M_impl._M_finish = v._M_impl._M_end_of_storage = p + n;
}
#endif
// the nearest of the divisions
VF_HARNESS(rect_nearest)
{
    Rect t;
    PinMesh_Rect &pin = t.pin;
    Point2 p(coord("x"), coord("y"));
    Direction dir = direction();
#ifdef VF_SYM
    long n = vf::nat("lines", 0, 5);
    vf::assume(n <= 1000000);
    Line *l = vf::buffer<Line>("l", n);
    fill(pin.lines_, l, n);
    lines_ = l;
    const double *d = to_line_ = vf::buffer<double>("d", n);
    vf::assume(vf::forall(0, n, [&](long j) { return vf::both(d[j] > 0.0, d[j] <= far); }));
#else
    long n = pin.lines_.size();
    const std::vector<Line> &l = pin.lines_;
#endif
    int id = vf::nat("id", 0, 50), was = id;
    auto dist = [&](long j) {
#ifdef VF_SYM
        return vf::ite(l[j].surf_id == was, far, d[j]);
#else
        return l[j].distance_to_surface(p, dir, l[j].surf_id == was);
#endif
    };
    long k = vf::nat("k", 0, 8);
    bool in = mag(p.x) <= 0.5 * pin.pitch_x_ && mag(p.y) <= 0.5 * pin.pitch_y_, any = vf::boolean("any");
    if (any) { // k is the nearest one
        vf::assume(k < n);
        double dk = dist(k);
        vf::assume(vf::both(dk < far, vf::forall(0, n, [&](long j) { return vf::any(j == k, dk < dist(j)); })));
        vf::hacc1("distance_to_surface", [&](long a, double v) { return vf::ite(k < a, v - dk, vf::ite(v > dk, 0.0, 1.0)) == 0.0; });
        vf::hint_int1("distance_to_surface", [&](long a, long v) { return vf::implies(k < a, v == l[k].surf_id); });
    } else {
        vf::assume(vf::forall(0, n, [&](long j) { return dist(j) == far; }));
        vf::hacc1("distance_to_surface", [&](long a, double v) { return v == far; });
        vf::hint_int1("distance_to_surface", [&](long a, long v) { return v == was; });
    }
    auto r = pin.PinMesh_Rect::distance_to_surface(p, dir, id);
    vf::check(r.second == !in, "outside of the pin");
    if (!in)
        vf::check(r.first == 0.0 && id == was, "no distance outside");
    else if (any)
        vf::check(r.first == dist(k) && id == l[k].surf_id, "nearest division");
    else
        vf::check(r.first == far && id == was, "no division ahead");
}
// the nearest of the rings and sector lines
VF_HARNESS(cyl_nearest)
{
    Cyl t;
    PinMesh_Cyl &pin = t.pin;
    Point2 p(coord("x"), coord("y"));
    Direction dir = direction();
#ifdef VF_SYM
    long nc = vf::nat("circles", 0, 5), nl = vf::nat("lines", 0, 5);
    vf::assume(nc <= 1000000 && nl <= 1000000);
    Line *l = vf::buffer<Line>("l", nl);
    Circle *c = vf::buffer<Circle>("c", nc);
    fill(pin.lines_, l, nl);
    fill(pin.circles_, c, nc);
    lines_ = l, circles_ = c;
    const double *dl = to_line_ = vf::buffer<double>("dl", nl), *dc = to_circle_ = vf::buffer<double>("dc", nc), *oc = on_circle_ = vf::buffer<double>("oc", nc);
    vf::assume(vf::forall(0, nl, [&](long j) { return vf::both(dl[j] > 0.0, dl[j] <= far); }));
    vf::assume(vf::forall(0, nc, [&](long j) { return vf::all(dc[j] >= 0.0, dc[j] <= far, oc[j] >= 0.0, oc[j] <= far); }));
#else
    long nl = pin.lines_.size(), nc = pin.circles_.size();
    const std::vector<Line> &l = pin.lines_;
    const std::vector<Circle> &c = pin.circles_;
#endif
    int id = vf::nat("id", 0, 50), was = id;
    auto line = [&](long j) {
#ifdef VF_SYM
        return vf::ite(l[j].surf_id == was, far, dl[j]);
#else
        return l[j].distance_to_surface(p, dir, l[j].surf_id == was);
#endif
    };
    auto circle = [&](long j) {
#ifdef VF_SYM
        return vf::ite(c[j].surf_id == was, oc[j], dc[j]);
#else
        return c[j].distance_to_surface(p, dir, c[j].surf_id == was);
#endif
    };
    long k = vf::nat("k", 0, 8), which = vf::range("which", 0, 2);
    bool in = mag(p.x) <= 0.5 * pin.pitch_x_ && mag(p.y) <= 0.5 * pin.pitch_y_;
    double dk = far;
    long sk = was;
    if (which == 0) {
        vf::assume(k < nc);
        dk = circle(k), sk = c[k].surf_id;
    } else if (which == 1) {
        vf::assume(k < nl);
        dk = line(k), sk = l[k].surf_id;
    }
    vf::assume(which == 2 || dk < far);
    vf::assume(vf::forall(0, nc, [&](long j) { return vf::any(vf::both(which == 0, j == k), dk < circle(j), vf::both(which == 2, circle(j) == far)); }));
    vf::assume(vf::forall(0, nl, [&](long j) { return vf::any(vf::both(which == 1, j == k), dk < line(j), vf::both(which == 2, line(j) == far)); }));
    // found in the first loop, in the second one, or not yet
    vf::hacc1("distance_to_surface", [&](long a, double v) { return vf::ite(k < a, v - dk, vf::ite(v > dk, 0.0, 1.0)) == 0.0; });
    vf::hint_int1("distance_to_surface", [&](long a, long v) { return vf::implies(k < a, v == sk); });
    vf::hacc1("distance_to_surface", [&](long a, double v) { return v == dk; });
    vf::hint_int1("distance_to_surface", [&](long a, long v) { return v == sk; });
    vf::hacc1("distance_to_surface", [&](long a, double v) { return v > dk; });
    auto r = pin.PinMesh_Cyl::distance_to_surface(p, dir, id);
    vf::check(r.second == !in, "outside of the pin");
    if (!in)
        vf::check(r.first == 0.0 && id == was, "no distance outside");
    else
        vf::check(r.first == dk && id == sk, "nearest boundary");
}
#ifdef VF_SYM
// angle of a point, from the positive x axis around to the full circle (both ends can round to the end)
static double alpha_;
VF_CONTRACT(alpha, "mocc::Point2::alpha() const")
extern "C" double vfc_alpha(const Point2 *) { return alpha_; }
#endif
VF_HARNESS(cyl_region)
{
    Cyl t;
    const PinMesh_Cyl &pin = t.pin;
    long rings = t.rings, azi = t.azi;
    Point2 p(coord("x"), coord("y"));
#ifdef VF_SYM
    double a = alpha_ = vf::within("alpha", 0.0, TWOPI);
#else
    double a = p.alpha();
#endif
    double d = sqrt(p.x * p.x + p.y * p.y);
    const VecF &r = pin.radii_;
    vf::hint1("find_reg", [&](long n) { return vf::any(n == 0, d >= r[vf::itei(n > 0, n - 1, 0)]); });
    int reg = pin.PinMesh_Cyl::find_reg(p);
    bool in = vf::both(mag(p.x) <= 0.5 * pin.pitch_x_, mag(p.y) <= 0.5 * pin.pitch_y_);
    vf::check((reg >= 0) == in, "only points of the pin have a region");
    if (reg >= 0) {
        long i = vf::idiv(reg, azi), j = vf::imod(reg, azi);
        double sep = TWOPI / azi;
        vf::check(vf::all(i >= 0, i <= rings, j >= 0, j < azi), "region of this pin");
        vf::check(vf::any(i == rings, d < r[vf::itei(i < rings, i, 0)]), "inside of the outer ring");
        vf::check(vf::any(i == 0, d >= r[vf::itei(i > 0, i - 1, 0)]), "outside of the inner ring");
        vf::check(vf::both(a >= j * sep, a <= (j + 1) * sep), "sector contains the angle");
    } else
        vf::check(reg == -1, "rejection");
}
#ifdef VF_SYM
// equality up to a number of units in the last place, for numbers of ordinary size
VF_CONTRACT(fp_equiv_ulp, "mocc::fp_equiv_ulp(double, double)")
extern "C" bool vfc_fp_equiv_ulp(double a, double b)
{
    bool r = vf::boolean("equiv_ulp");
    vf::assume(vf::all(vf::implies(a == b, r), vf::implies(r, mag(a - b) <= 1e-9)));
    return r;
}
#endif
// on a ring or sector line the direction of travel decides
VF_HARNESS(cyl_region_ahead)
{
    Cyl t;
    const PinMesh_Cyl &pin = t.pin;
    long rings = t.rings, azi = t.azi;
    Point2 p(coord("x"), coord("y"));
    Direction dir = direction();
#ifdef VF_SYM
    double a = alpha_ = vf::within("alpha", 0.0, TWOPI);
    dir.alpha = vf::within("dir_alpha", 0.0, TWOPI);
#else
    double a = p.alpha();
#endif
    double d = sqrt(p.x * p.x + p.y * p.y), sep = TWOPI / azi;
    const VecF &r = pin.radii_;
    // ring m: inside of it, or on it
    long m = vf::nat("ring", 0, 9), s = vf::nat("sector", 0, 7);
    bool on_ring = vf::boolean("on_ring"), on_line = vf::boolean("on_line");
    vf::assume(d > 1e-9);
#ifdef VF_SYM
    vf::assume(m <= rings && s < azi);
    vf::assume(vf::forall(0, rings - 1, [&](long j) { return r[j] + 4e-9 < r[j + 1]; }));
    if (on_ring)
        vf::assume(m < rings && d == r[m]);
    else
        vf::assume(vf::both(vf::any(m == rings, d < r[vf::itei(m < rings, m, 0)] - 1e-9), vf::any(m == 0, d > r[vf::itei(m > 0, m - 1, 0)] + 1e-9)));
    if (on_line)
        vf::assume(a == s * sep);
    else
        vf::assume(a > s * sep + 1e-9 && a < (s + 1) * sep - 1e-9);
#else
    on_ring = on_line = false;
    for (m = 0; m < rings && d > r[m]; m++) {}
    s = a / sep;
    vf::assume(mag(a - s * sep) > 1e-9 && mag(a - (s + 1) * sep) > 1e-9);
#endif
    vf::assume(mag(p.x) <= 0.5 * pin.pitch_x_ && mag(p.y) <= 0.5 * pin.pitch_y_);
    int reg = pin.PinMesh_Cyl::find_reg(p, dir);
    bool outward = p.x * dir.ox + p.y * dir.oy > 0.0, ccw = p.x * dir.oy - p.y * dir.ox > 0.0;
    long i = on_ring && outward ? m + 1 : m, j = !on_line || ccw ? s : vf::itei(s == 0, azi - 1, s - 1);
    vf::check(reg == i * azi + j, "region ahead");
}
