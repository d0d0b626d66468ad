// Random reactor cores for the native runs: an input of the documented format is generated, written out (the material
// library goes to a file of its own in the scratch directory the harness runs in) and handed to the real constructors.
#pragma once
#ifndef VF_SYM
#include <unistd.h>
#include <array>
#include <deque>
#include <fstream>
#include <memory>
#include <sstream>
#include "pugixml.hpp"
#include "core/core_mesh.hpp"
#include "core/xs_mesh.hpp"
#include "util/timers.hpp"
#include "vf.hpp"
namespace vfc {
using namespace mocc;
struct Options {
    long max_lat = 2, max_pin = 3, max_nz = 3, max_ng = 4;
    bool cyl = true, rect = true, subplane = true;
    long all_bc = -1;      // 0 vacuum, 1 reflect, -1 any mixture
    long max_sub = 3;
    bool same_lattice_in_z = false;
    bool periodic_free = true;
};
struct MatSpec {
    std::vector<double> abs, nuf, fis, chi;
    std::vector<std::vector<double>> scat;      // [to][from]
    bool fissile;
};
struct MeshSpec {
    bool cyl;
    double px, py;
    long sx, sy;                       // rectangular divisions
    std::vector<double> radii;         // cylindrical
    std::vector<long> sub_radii;
    long azi;
    long n_xsreg, n_reg;
};
struct PinSpec {
    long mesh;
    std::vector<long> mats;            // 1-based material ids, one per xs region
};
struct LatSpec {
    long nx, ny;
    std::vector<long> pins;            // row 0 at the bottom
};
struct Spec {
    long ng, nx_lat, ny_lat, nz;
    std::vector<MatSpec> mats;
    std::vector<MeshSpec> meshes;
    std::vector<PinSpec> pins;
    std::vector<LatSpec> lats;
    std::vector<std::vector<long>> asy;        // [assembly][z], bottom up
    std::vector<double> dz;                     // bottom up
    std::vector<long> subplane;                 // bottom up
    std::vector<std::vector<double>> wx, wy;    // pitches per lattice column / row
    std::vector<std::string> bc;                // east north west south top bottom
    std::string lib, core;
    std::string extra;
    long asy_at(long ix, long iy) const { return iy * nx_lat + ix; }
    long npx() const { long n = 0; for (auto &w : wx) n += w.size(); return n; }
    long npy() const { long n = 0; for (auto &w : wy) n += w.size(); return n; }
    // pin at pin position (x,y) of plane z
    long pin_at(long x, long y, long z) const
    {
        long ix = 0, iy = 0;
        while (x >= (long)wx[ix].size()) x -= wx[ix++].size();
        while (y >= (long)wy[iy].size()) y -= wy[iy++].size();
        const LatSpec &l = lats[asy[asy_at(ix, iy)][z]];
        return l.pins[y * l.nx + x];
    }
    std::vector<double> xs() const
    {
        std::vector<double> v{0.0};
        for (auto &w : wx) for (double d : w) v.push_back(v.back() + d);
        return v;
    }
    std::vector<double> ys() const
    {
        std::vector<double> v{0.0};
        for (auto &w : wy) for (double d : w) v.push_back(v.back() + d);
        return v;
    }
};
inline double val(const char *n, double lo, double hi)
{
    double v = lo + (hi - lo) * vf::range(n, 0, 1000) / 1000.0;
    return v;
}
inline std::string num(double v)
{
    std::ostringstream o;
    o.precision(17);
    o << v;
    return o.str();
}
inline MatSpec material(long ng, bool fissile)
{
    MatSpec m;
    m.fissile = fissile;
    double chis = 0;
    for (long g = 0; g < ng; g++) {
        m.abs.push_back(val("abs", 0.01, 0.4));
        double f = fissile ? val("fis", 0.001, 0.2) : 0.0;
        m.fis.push_back(f);
        m.nuf.push_back(f * val("nu", 2.0, 3.0));
        double c = fissile ? (g == ng - 1 && ng > 2 ? 0.0 : val("chi", 0.1, 1.0)) : 0.0;
        m.chi.push_back(c);
        chis += c;
    }
    if (fissile) for (auto &c : m.chi) c /= chis;
    m.scat.assign(ng, std::vector<double>(ng, 0.0));
    for (long to = 0; to < ng; to++)
        for (long from = 0; from < ng; from++)
            if (to == from) m.scat[to][from] = val("self", 0.05, 0.5);
            else if (vf::range("transfer", 0, 2) > 0) m.scat[to][from] = val("scat", 0.001, 0.2);
    return m;
}
inline std::string lib_text(const Spec &s)
{
    std::ostringstream o;
    o.precision(17);
    o << "generated library\n " << s.ng << " " << s.mats.size() << "\n";
    for (long g = 0; g < s.ng; g++) o << " " << 1.0e7 / (g + 1.0);
    o << "\n";
    long im = 0;
    for (auto &m : s.mats) {
        o << "XSMACRO mat" << im++ << " 0\n";
        for (long g = 0; g < s.ng; g++) o << " " << m.abs[g] << " " << m.nuf[g] << " " << m.fis[g] << " " << m.chi[g] << "\n";
        for (long to = 0; to < s.ng; to++) {
            for (long from = 0; from < s.ng; from++) o << " " << m.scat[to][from];
            o << "\n";
        }
    }
    return o.str();
}
inline std::string mesh_xml(const MeshSpec &m, long id)
{
    std::ostringstream o;
    o.precision(17);
    if (m.cyl) {
        o << "<mesh id=\"" << id << "\" type=\"cyl\" pitch=\"" << m.px << "\"><radii>";
        for (size_t i = 0; i < m.radii.size(); i++) o << (i ? " " : "") << m.radii[i];
        o << "</radii><sub_radii>";
        for (size_t i = 0; i < m.sub_radii.size(); i++) o << (i ? " " : "") << m.sub_radii[i];
        o << "</sub_radii><sub_azi>" << m.azi << "</sub_azi></mesh>\n";
    } else {
        o << "<mesh id=\"" << id << "\" type=\"rect\" pitch=\"" << m.px << "\"><sub_x>" << m.sx
          << "</sub_x><sub_y>" << m.sy << "</sub_y></mesh>\n";
    }
    return o.str();
}
inline MeshSpec pin_mesh(double px, double py, const Options &op)
{
    MeshSpec m;
    m.px = px;
    m.py = py;
    bool cyl = op.cyl && px == py && (!op.rect || vf::range("cyl", 0, 2) > 0);
    m.cyl = cyl;
    if (cyl) {
        long nr = vf::range("nrad", 1, 3);
        double r = 0;
        for (long i = 0; i < nr; i++) {
            r += val("ring", 0.05, 0.95) * (0.47 * px - r);
            if (r > 0.02) m.radii.push_back(r);
        }
        if (m.radii.empty()) m.radii.push_back(0.3 * px);
        m.n_reg = 0;
        m.azi = 4;
        for (size_t i = 0; i < m.radii.size(); i++) {
            m.sub_radii.push_back(vf::range("subrad", 1, 2));
            m.n_reg += m.sub_radii.back();
        }
        long a  = vf::range("azi", 0, 2);
        m.azi   = a == 0 ? 2 : a == 1 ? 4 : 8;
        m.n_xsreg = m.radii.size() + 1;
        m.n_reg = (m.n_reg + 1) * m.azi;
        m.sx = m.sy = 0;
    } else {
        m.sx = vf::range("subx", 1, op.max_sub);
        m.sy = vf::range("suby", 1, op.max_sub);
        m.n_xsreg = m.n_reg = m.sx * m.sy;
        m.azi = 0;
    }
    return m;
}
inline Spec spec(const Options &op = Options())
{
    Spec s;
    s.ng     = vf::range("ng", 1, op.max_ng);
    s.nx_lat = vf::range("nxlat", 1, op.max_lat);
    s.ny_lat = vf::range("nylat", 1, op.max_lat);
    s.nz     = vf::range("nz", 1, op.max_nz);
    s.mats.push_back(material(s.ng, true));
    s.mats.push_back(material(s.ng, true));
    s.mats.push_back(material(s.ng, false));
    double base = val("pitch", 0.8, 1.4);
    auto pitch = [&]() { return base; };      // pin cells are square in this input format, so one pitch serves a whole core
    for (long i = 0; i < s.nx_lat; i++) {
        long n = vf::range("npx", 1, op.max_pin);
        s.wx.push_back({});
        for (long k = 0; k < n; k++) s.wx[i].push_back(pitch());
    }
    for (long i = 0; i < s.ny_lat; i++) {
        long n = vf::range("npy", 1, op.max_pin);
        s.wy.push_back({});
        for (long k = 0; k < n; k++) s.wy[i].push_back(pitch());
    }
    // planes and macroplanes
    for (long z = 0; z < s.nz;) {
        long n = op.subplane ? vf::range("sub", 1, 2) : 1;
        n      = std::min(n, s.nz - z);
        s.subplane.push_back(n);
        z += n;
    }
    for (long z = 0; z < s.nz; z++) s.dz.push_back(val("dz", 0.5, 3.0));
    bool fuel_seen = false;
    auto lattice = [&](long ix, long iy) {
        LatSpec l;
        l.nx = s.wx[ix].size();
        l.ny = s.wy[iy].size();
        for (long y = 0; y < l.ny; y++)
            for (long x = 0; x < l.nx; x++) {
                double px = s.wx[ix][x], py = s.wy[iy][y];
                long id = -1;
                if (s.pins.size() > 0 && vf::range("reuse", 0, 1)) {
                    for (size_t k = 0; k < s.pins.size(); k++)
                        if (s.meshes[s.pins[k].mesh].px == px && s.meshes[s.pins[k].mesh].py == py) id = k;
                }
                if (id < 0) {
                    PinSpec p;
                    long mid = -1;
                    if (vf::range("reusemesh", 0, 1))
                        for (size_t k = 0; k < s.meshes.size(); k++)
                            if (s.meshes[k].px == px && s.meshes[k].py == py) mid = k;
                    if (mid < 0) {
                        mid = s.meshes.size();
                        s.meshes.push_back(pin_mesh(px, py, op));
                    }
                    p.mesh = mid;
                    for (long k = 0; k < s.meshes[mid].n_xsreg; k++) p.mats.push_back(vf::range("mat", 1, 3));
                    if (!fuel_seen) p.mats[0] = 1;
                    fuel_seen = true;
                    id        = s.pins.size();
                    s.pins.push_back(p);
                }
                l.pins.push_back(id);
            }
        return l;
    };
    s.asy.assign(s.nx_lat * s.ny_lat, std::vector<long>(s.nz, 0));
    for (long iy = 0; iy < s.ny_lat; iy++)
        for (long ix = 0; ix < s.nx_lat; ix++) {
            auto &a = s.asy[s.asy_at(ix, iy)];
            long z = 0, prev = -1;
            for (long n : s.subplane) {
                if (prev < 0 || (!op.same_lattice_in_z && vf::range("newlat", 0, 2) == 0)) {
                    prev = s.lats.size();
                    s.lats.push_back(lattice(ix, iy));
                }
                for (long k = 0; k < n; k++) a[z++] = prev;
            }
        }
    for (int i = 0; i < 6; i++) s.bc.push_back((op.all_bc >= 0 ? op.all_bc : vf::range("bc", 0, 1)) ? "reflect" : "vacuum");
    return s;
}
inline std::string core_text(const Spec &s, const std::string &libfile)
{
    std::ostringstream o;
    o.precision(17);
    long id = 1;
    for (auto &m : s.meshes) o << mesh_xml(m, id++);
    id = 1;
    for (auto &p : s.pins) {
        o << "<pin id=\"" << id++ << "\" mesh=\"" << p.mesh + 1 << "\">";
        for (long m : p.mats) o << " " << m;
        o << "</pin>\n";
    }
    id = 1;
    for (auto &l : s.lats) {
        o << "<lattice id=\"" << id++ << "\" nx=\"" << l.nx << "\" ny=\"" << l.ny << "\">\n";
        for (long y = l.ny - 1; y >= 0; y--) {
            for (long x = 0; x < l.nx; x++) o << " " << l.pins[y * l.nx + x] + 1;
            o << "\n";
        }
        o << "</lattice>\n";
    }
    id = 1;
    for (auto &a : s.asy) {
        o << "<assembly id=\"" << id++ << "\" np=\"" << s.nz << "\"><hz>";
        for (long z = s.nz - 1; z >= 0; z--) o << s.dz[z] << " ";
        o << "</hz><lattices>\n";
        long z = s.nz;
        for (size_t k = s.subplane.size(); k-- > 0;) {
            o << " {";
            for (long i = 0; i < s.subplane[k]; i++) o << " " << a[--z] + 1;
            o << " }";
        }
        o << "\n</lattices></assembly>\n";
    }
    o << "<core nx=\"" << s.nx_lat << "\" ny=\"" << s.ny_lat << "\" east=\"" << s.bc[0] << "\" north=\"" << s.bc[1] << "\" west=\""
      << s.bc[2] << "\" south=\"" << s.bc[3] << "\" top=\"" << s.bc[4] << "\" bottom=\"" << s.bc[5] << "\">\n";
    for (long iy = s.ny_lat - 1; iy >= 0; iy--) {
        for (long ix = 0; ix < s.nx_lat; ix++) o << " " << s.asy_at(ix, iy) + 1;
        o << "\n";
    }
    o << "</core>\n<material_lib path=\"" << libfile << "\">";
    for (size_t i = 0; i < s.mats.size(); i++) o << "<material id=\"" << i + 1 << "\" name=\"mat" << i << "\" />";
    o << "</material_lib>\n" << s.extra;
    return o.str();
}
// timers are global and refuse to be created twice: set the ones of earlier objects aside (they may still be referred to)
inline void fresh_timers()
{
    static std::deque<Timer> old;
    old.push_back(std::move(RootTimer));
    RootTimer = Timer("MOCC");
    if (old.size() > 64) old.pop_front();
}
// a core mesh built from a spec by the real parser and constructors
struct Core {
    Spec s;
    pugi::xml_document doc;
    std::unique_ptr<CoreMesh> mesh;
    explicit Core(const Spec &sp) : s(sp)
    {
        fresh_timers();
        std::string f = "vflib-" + std::to_string((long)getpid()) + ".xsl";
        {
            std::ofstream o(f);
            o << lib_text(s);
        }
        std::string t = core_text(s, f);
        doc.load_string(t.c_str());
        try {
            mesh.reset(new CoreMesh(doc));
        } catch (...) {
            unlink(f.c_str());
            throw;
        }
        unlink(f.c_str());
    }
};
}
#endif
