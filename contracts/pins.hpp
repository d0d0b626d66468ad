// Pins as the constructors leave them: symbolically any that satisfy the description, natively real ones
#pragma once
#include <limits>
#include "core/pin_mesh_cyl.hpp"
#include "core/pin_mesh_rect.hpp"
#include "fuzzy.hpp"
#include "stdc.hpp"
#ifndef VF_SYM
#include <memory>
#include <sstream>
#include "pugixml.hpp"
#endif
using namespace mocc;
namespace {
const double far = std::numeric_limits<double>::max();
using vfz::mag;
double coord(const char *n)
{
#ifdef VF_SYM
    return vf::real(n);
#else
    return vf::range(n, -3000, 3000) / 1000.0;
#endif
}
Direction direction()
{
#ifdef VF_SYM
    Direction &d = vf::object<Direction>("dir");
    d.ox = vf::real("ox"), d.oy = vf::real("oy"), d.oz = vf::real("oz");
    vf::assume(d.ox * d.ox + d.oy * d.oy + d.oz * d.oz == 1.0);
    return d;
#else
    double a = vf::range("az", 0, 6283) / 1000.0, t = vf::range("pol", 1, 3140) / 1000.0;
    return Direction(a, t);
#endif
}
}
// A rectangular pin: divisions in order from one side to the other, region r at column r % nx and row r / nx
namespace {
struct Rect {
#ifdef VF_SYM
    PinMesh_Rect &pin;
    Rect() : pin(vf::object<PinMesh_Rect>("pin"))
    {
        long nx = vf::nat("nx", 1, 5), ny = vf::nat("ny", 1, 5);
        vf::assume(nx <= 10000 && ny <= 10000);
        pin.nx_ = nx, pin.ny_ = ny, pin.n_reg_ = nx * ny;
        pin.pitch_x_ = vf::positive("px"), pin.pitch_y_ = vf::positive("py");
        vf::vec(pin.hx_, "hx", nx + 1);
        vf::vec(pin.hy_, "hy", ny + 1);
        ordered(pin.hx_, nx, pin.pitch_x_);
        ordered(pin.hy_, ny, pin.pitch_y_);
    }
    static void ordered(const VecF &h, long n, double pitch)
    {
        vf::assume(vf::forall(0, n, [&](long j) { return h[j] + 4e-9 < h[j + 1]; }));
        vf::assume(vf::both(h[0] == -(0.5 * pitch), h[n] == 0.5 * pitch));
    }
#else
    std::unique_ptr<PinMesh_Rect> keep;
    PinMesh_Rect &pin;
    static PinMesh_Rect *make()
    {
        std::ostringstream s;
        s << "<mesh id=\"1\" type=\"rect\" pitch=\"" << vf::range("pitch", 500, 40000) / 10000.0 << "\"><sub_x>" << vf::range("nx", 1, 5) << "</sub_x><sub_y>" << vf::range("ny", 1, 5) << "</sub_y></mesh>";
        pugi::xml_document d;
        d.load_string(s.str().c_str());
        return new PinMesh_Rect(d.child("mesh"));
    }
    Rect() : keep(make()), pin(*keep) {}
#endif
};
// a coordinate anywhere, or (natively) often on a division
double place(const char *n, const VecF &h)
{
#ifndef VF_SYM
    if (vf::boolean("on")) return h[vf::range(n, 0, h.size() - 1)];
#endif
    return coord(n);
}
}
namespace {
struct Cyl {
#ifdef VF_SYM
    PinMesh_Cyl &pin;
    long rings, azi;
    Cyl() : pin(vf::object<PinMesh_Cyl>("pin"))
    {
        rings = vf::nat("rings", 1, 5), azi = vf::nat("azi", 1, 8);
        vf::assume(rings <= 1000000 && azi <= 8);
        azi = azi <= 2 ? 2 : azi <= 4 ? 4 : azi <= 6 ? 6 : 8;
        pin.n_reg_ = (rings + 1) * azi;
        pin.pitch_x_ = vf::positive("px"), pin.pitch_y_ = vf::positive("py");
        vf::vec(pin.radii_, "radii", rings);
        const VecF &r = pin.radii_;
        vf::assume(vf::both(r[0] > 0.0, vf::forall(0, rings - 1, [&](long j) { return r[j] < r[j + 1]; })));
        vf::vec(pin.sub_azi_, "sub_azi", 1);
        pin.sub_azi_[0] = azi;
    }
#else
    std::unique_ptr<PinMesh_Cyl> keep;
    PinMesh_Cyl &pin;
    long rings, azi;
    static PinMesh_Cyl *make()
    {
        long p = vf::range("pitch", 500, 40000), n = vf::range("nr", 1, 3);
        std::ostringstream s, r, k;
        for (long i = 0; i < n; i++) r << (i ? " " : "") << p / 20000.0 * (0.95 * (i + 1) / n), k << (i ? " " : "") << vf::range("sub", 1, 3);
        s << "<mesh id=\"1\" type=\"cyl\" pitch=\"" << p / 10000.0 << "\"><radii>" << r.str() << "</radii><sub_radii>" << k.str() << "</sub_radii><sub_azi>" << 2 * vf::range("azi", 1, 4) << "</sub_azi></mesh>";
        pugi::xml_document d;
        d.load_string(s.str().c_str());
        return new PinMesh_Cyl(d.child("mesh"));
    }
    Cyl() : keep(make()), pin(*keep), rings(pin.radii_.size()), azi(pin.sub_azi_[0]) {}
#endif
};
}
