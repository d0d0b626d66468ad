// C18, bounded: rays through random cores against a tracing by position
// trials *: 400 15000
#include "cores.hpp"
#ifndef VF_SYM
#include "core/angular_quadrature.hpp"
#include "moc/ray_data.hpp"
using namespace mocc;
namespace {
const double pi = 3.14159265358979323846;
// where the regions of one plane are, from the input alone
struct Plane_ {
    const vfc::Spec &s;
    long z, nx, ny, n;
    std::vector<double> xs, ys;
    std::vector<long> first;
    std::vector<double> area;
    Plane_(const vfc::Spec &sp, long z) : s(sp), z(z), nx(sp.npx()), ny(sp.npy()), n(0), xs(sp.xs()), ys(sp.ys()), first(nx * ny)
    {
        for (long ly = 0, y0 = 0; ly < s.ny_lat; y0 += s.wy[ly++].size())
            for (long lx = 0, x0 = 0; lx < s.nx_lat; x0 += s.wx[lx++].size())
                for (size_t y = 0; y < s.wy[ly].size(); y++)
                    for (size_t x = 0; x < s.wx[lx].size(); x++) {
                        long at   = (y0 + y) * nx + x0 + x;
                        first[at] = n;
                        n += mesh(at).n_reg;
                        for (long i = 0; i < mesh(at).n_reg; i++) area.push_back(area_of(mesh(at), i));
                    }
    }
    const vfc::MeshSpec &mesh(long at) const { return s.meshes[s.pins[s.pin_at(at % nx, at / nx, z)].mesh]; }
    static std::vector<double> rings(const vfc::MeshSpec &m)
    {
        std::vector<double> r;
        double in = 0;
        for (size_t i = 0; i < m.radii.size(); i++) {
            for (long k = 1; k <= m.sub_radii[i]; k++)
                r.push_back(std::sqrt(in * in + (m.radii[i] * m.radii[i] - in * in) * k / m.sub_radii[i]));
            in = m.radii[i];
        }
        return r;
    }
    static double area_of(const vfc::MeshSpec &m, long i)
    {
        if (!m.cyl) return m.px / m.sx * (m.py / m.sy);
        auto r = rings(m);
        long k = i / m.azi;
        double in = k ? r[k - 1] : 0.0;
        // (for two, four and eight sectors the outermost regions are equal)
        return (k < (long)r.size() ? pi * (r[k] * r[k] - in * in) : m.px * m.py - pi * in * in) / m.azi;
    }
    long column(double x) const
    {
        long i = 0;
        while (i + 1 < nx && x > xs[i + 1]) i++;
        return i;
    }
    long row(double y) const
    {
        long i = 0;
        while (i + 1 < ny && y > ys[i + 1]) i++;
        return i;
    }
    long at(double x, double y) const
    {
        long ix = column(x), iy = row(y), at = iy * nx + ix;
        const vfc::MeshSpec &m = mesh(at);
        if (m.cyl) {
            x -= 0.5 * (xs[ix] + xs[ix + 1]), y -= 0.5 * (ys[iy] + ys[iy + 1]);
            auto r = rings(m);
            long k = 0;
            while (k < (long)r.size() && std::hypot(x, y) > r[k]) k++;
            double a = std::atan2(y, x);
            if (a < 0) a += 2 * pi;
            return first[at] + k * m.azi + std::min(m.azi - 1, (long)(a / (2 * pi / m.azi)));
        }
        long kx = (x - xs[ix]) / (m.px / m.sx), ky = (y - ys[iy]) / (m.py / m.sy);
        return first[at] + std::max(0l, std::min(m.sy - 1, ky)) * m.sx + std::max(0l, std::min(m.sx - 1, kx));
    }
};
// rays touching a ring or running along a division belong to either side
bool touching(const Plane_ &p, double x, double y, double u, double v)
{
    for (long i = 0; i < p.nx * p.ny; i++) {
        const vfc::MeshSpec &m = p.mesh(i);
        if (!m.cyl) continue;
        double d = std::abs((0.5 * (p.xs[i % p.nx] + p.xs[i % p.nx + 1]) - x) * v - (0.5 * (p.ys[i / p.nx] + p.ys[i / p.nx + 1]) - y) * u);
        for (double r : p.rings(m))
            if (std::abs(d - r) < 1e-6) return true;
        if (d < 1e-6 && std::abs(std::abs(u) - std::abs(v)) < 1e-6) return true;
    }
    return false;
}
struct Case {
    vfc::Core core;
    const CoreMesh &m;
    pugi::xml_document doc;
    std::unique_ptr<AngularQuadrature> quad;
    double spacing;
    bool trig, by_pin, product;
    static vfc::Spec any()
    {
        vfc::Options o;
        o.max_ng = 1;
        return vfc::spec(o);
    }
    Case() : core(any()), m(*core.mesh)
    {
        std::ostringstream o;
        product = vf::range("product", 0, 3) == 0;
        if (product) o << "<ang_quad type=\"cg\" n_azimuthal=\"" << vf::range("na", 1, 6) << "\" n_polar=\"" << vf::range("np", 1, 2) << "\" />";
        else o << "<ang_quad type=\"ls\" order=\"" << 2 * vf::range("order", 1, 4) << "\" />";
        doc.load_string(o.str().c_str());
        quad.reset(new AngularQuadrature(doc.child("ang_quad")));
        spacing = vf::range("spacing", 6, 40) / 100.0;
        trig    = vf::boolean("trig");
        by_pin  = vf::boolean("by_pin");
    }
    std::unique_ptr<moc::RayData> rays(const char *correction) const
    {
        std::ostringstream o;
        o << "<rays spacing=\"" << spacing << "\" modularity=\"" << (by_pin ? "pin" : "core") << "\" modularization=\"" << (trig ? "trig" : "rational_fraction")
          << "\" volume_correction=\"" << correction << "\" />";
        pugi::xml_document d;
        d.load_string(o.str().c_str());
        std::unique_ptr<moc::RayData> r;
        try {
            r.reset(new moc::RayData(d.child("rays"), *quad, m));
        } catch (Exception &e) {
            // product sets are refused when the spacing is too coarse to keep their azimuthal angles apart
            vf::check(product && std::string(e.what()).find("azimuthal") != std::string::npos, "rays can be laid out");
            vf::assume(false);
        }
        return r;
    }
    // a plane of the core with the geometry of unique plane i
    long plane_of(long i) const
    {
        for (long z = 0; z < core.s.nz; z++)
            if ((long)m.unique_plane_id(z) == i) return z;
        vf::check(false, "every unique plane belongs to a plane of the core");
        return -1;
    }
};
bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (1.0 + std::abs(a) + std::abs(b)); }
// the line ray i of an angle is meant to follow
struct Track {
    double x1, y1, x2, y2, u, v, len;
    long end;
    Track(double hx, double hy, long Nx, long Ny, bool right, long i)
    {
        double sx = hx / Nx, sy = hy / Ny, n = std::hypot(sx, sy);
        u  = (right ? sx : -sx) / n;
        v  = sy / n;
        x1 = i < Ny ? (right ? 0.0 : hx) : (i - Ny + 0.5) * sx;
        y1 = i < Ny ? (i + 0.5) * sy : 0.0;
        double tx = ((right ? hx : 0.0) - x1) / u, ty = (hy - y1) / v;
        len = std::min(tx, ty);
        x2  = x1 + u * len;
        y2  = y1 + v * len;
        end = tx < ty ? (long)(y2 / sy) : (long)(x2 / sx) + Ny;
        vf::check(near(tx < ty ? y2 : x2, tx < ty ? (end + 0.5) * sy : (end - Ny + 0.5) * sx), "a ray ends where another one starts");
    }
};
}
VF_HARNESS(layout)
{
    Case c;
    auto r = c.rays("none");
    double hx = c.core.s.xs().back(), hy = c.core.s.ys().back();
    long nd = c.quad->ndir_oct();
    for (long a = 0; a < 4 * nd; a++) {
        long Nx = r->nx(a), Ny = r->ny(a);
        vf::check(Nx > 0 && Ny > 0 && (long)r->n_rays(a) == Nx + Ny, "rays per angle");
        vf::check(Nx == (long)r->nx(a % nd) && Ny == (long)r->ny(a % nd), "all octants alike");
        if (c.by_pin) vf::check(Nx % c.m.nx() == 0 && Ny % c.m.ny() == 0, "the same rays in every pin");
        const Angle &ang = r->ang_quad()[a];
        double al = std::atan2(hy / Ny, hx / Nx);
        vf::check(near(std::abs(ang.ox / std::sin(ang.theta)), std::cos(al)) && near(std::abs(ang.oy / std::sin(ang.theta)), std::sin(al)), "direction of the rays");
        vf::check(near(r->spacing(a), hx / Nx * std::sin(al)) && near(r->spacing(a), hy / Ny * std::cos(al)), "distance between rays");
        vf::check(r->spacing(a) <= c.spacing * (1 + 1e-6) || !c.trig || r->spacing(a) <= 1.5 * c.spacing, "no coarser than asked for");
    }
}
VF_HARNESS(segments)
{
    Case c;
    auto r    = c.rays("none");
    double hx = c.core.s.xs().back(), hy = c.core.s.ys().back();
    long nd = c.quad->ndir_oct(), most = 0, planes = 0;
    for (auto &angles : *r) {
        Plane_ p(c.core.s, c.plane_of(planes++));
        vf::check((long)angles.size() == 2 * nd, "rays of two octants");
        for (long a = 0; a < 2 * nd; a++) {
            long Nx = r->nx(a), Ny = r->ny(a);
            auto &rays = angles[a];
            vf::check((long)rays.size() == Nx + Ny, "rays of an angle");
            std::vector<int> ends(Nx + Ny, 0);
            for (long i = 0; i < Nx + Ny; i++) {
                auto &ray = rays[i];
                Track t(hx, hy, Nx, Ny, a < nd, i);
                most = std::max(most, (long)ray.nseg());
                vf::check(ray.bc(0) == i && ray.bc(1) == t.end, "boundary numbers of the ends");
                ends[ray.bc(1)]++;
                double at = 0;
                long prev  = -1;
                bool touch = touching(p, t.x1, t.y1, t.u, t.v);
                vf::check((long)ray.seg_len().size() == ray.nseg() && (long)ray.seg_index().size() == ray.nseg(), "segments");
                for (long k = 0; k < ray.nseg(); k++) {
                    double l = ray.seg_len(k);
                    vf::check(l > 0, "segments have a length");
                    if (l > 1e-6 && !touch) {
                        for (double f : {1e-4, 0.5, 1 - 1e-4})
                            vf::check((long)ray.seg_index(k) == p.at(t.x1 + t.u * (at + f * l), t.y1 + t.v * (at + f * l)), "region a segment is in");
                        vf::check(prev != (long)ray.seg_index(k), "the region changes from segment to segment");
                        prev = ray.seg_index(k);
                    } else
                        prev = -1;
                    at += l;
                }
                vf::check(near(at, t.len), "segments sum to the ray");
            }
            for (int e : ends) vf::check(e == 1, "every boundary point ends one ray");
        }
    }
    vf::check(planes == (long)c.m.n_unique_planes() && most == r->max_segments(), "longest ray");
}
VF_HARNESS(volumes_by_angle)
{
    Case c;
    auto raw = c.rays("none"), r = c.rays("flat");
    long nd = c.quad->ndir_oct(), planes = 0;
    for (auto &angles : *r) {
        Plane_ p(c.core.s, c.plane_of(planes));
        for (long a = 0; a < 2 * nd; a++) {
            std::vector<double> v(p.n, 0.0), f(p.n, -1.0);
            for (size_t i = 0; i < angles[a].size(); i++) {
                auto &x = angles[a][i];
                auto &y = (*raw)[planes][a][i];
                vf::check(x.nseg() == y.nseg() && x.seg_index() == y.seg_index(), "only lengths are corrected");
                for (long k = 0; k < x.nseg(); k++) {
                    long j = x.seg_index(k);
                    v[j] += x.seg_len(k) * r->spacing(a);
                    if (f[j] < 0) f[j] = x.seg_len(k) / y.seg_len(k);
                    vf::check(near(x.seg_len(k), f[j] * y.seg_len(k)), "one factor per region and angle");
                }
            }
            for (long j = 0; j < p.n; j++)
                if (v[j] > 0) vf::check(near(v[j], p.area[j]), "area of a region along an angle");
        }
        planes++;
    }
}
VF_HARNESS(volumes_by_integral)
{
    Case c;
    auto raw = c.rays("none"), r = c.rays("angle");
    long nd = c.quad->ndir_oct(), planes = 0;
    for (auto &angles : *r) {
        Plane_ p(c.core.s, c.plane_of(planes));
        std::vector<double> v(p.n, 0.0), f(p.n, -1.0);
        for (long a = 0; a < 2 * nd; a++)
            for (size_t i = 0; i < angles[a].size(); i++) {
                auto &x = angles[a][i];
                auto &y = (*raw)[planes][a][i];
                vf::check(x.nseg() == y.nseg() && x.seg_index() == y.seg_index(), "only lengths are corrected");
                for (long k = 0; k < x.nseg(); k++) {
                    long j = x.seg_index(k);
                    v[j] += x.seg_len(k) * r->spacing(a) * r->ang_quad()[a].weight * 0.5;
                    if (f[j] < 0) f[j] = x.seg_len(k) / y.seg_len(k);
                    vf::check(near(x.seg_len(k), f[j] * y.seg_len(k)), "one factor per region");
                }
            }
        for (long j = 0; j < p.n; j++)
            if (v[j] > 0) vf::check(near(v[j], p.area[j]), "area of a region over all angles");
        planes++;
    }
}
namespace {
// follow the recorded crossings in one direction of travel, from cell to cell
template <class R> void walk(const Plane_ &p, const Track &t, const R &ray, bool back)
{
    double u = back ? -t.u : t.u, v = back ? -t.v : t.v, x = back ? t.x2 : t.x1, y = back ? t.y2 : t.y1, at = 0;
    long ix = p.column(x + 1e-7 * u), iy = p.row(y + 1e-7 * v), k = 0, n = ray.nseg();
    for (auto &d : ray.cm_data()) {
        for (long j = 0; j < (long)(back ? d.nseg_bw : d.nseg_fw); j++, k++) {
            vf::check(k < n, "no more segments than the ray has");
            double l = ray.seg_len(back ? n - 1 - k : k), m = at + 0.5 * l;
            vf::check(l < 1e-6 || (p.column(x + u * m) == ix && p.row(y + v * m) == iy), "segments of a crossing are in one cell, through corners");
            at += l;
        }
        double X = x + u * at, Y = y + v * at;
        switch ((Surface)(back ? d.bw : d.fw)) {
        case Surface::EAST: vf::check(u > 0 && ix < p.nx && near(X, p.xs[ix + 1]), "crossing east, through corners"); ix++; break;
        case Surface::WEST: vf::check(u < 0 && ix >= 0 && near(X, p.xs[ix]), "crossing west, through corners"); ix--; break;
        case Surface::NORTH: vf::check(v > 0 && iy < p.ny && near(Y, p.ys[iy + 1]), "crossing north, through corners"); iy++; break;
        case Surface::SOUTH: vf::check(v < 0 && iy >= 0 && near(Y, p.ys[iy]), "crossing south, through corners"); iy--; break;
        default: vf::check(k == n, "only a ray that has ended crosses nothing"); break;
        }
    }
    vf::check(k == n, "all segments lie in cells, through corners");
}
}
VF_HARNESS(coarse_crossings)
{
    Case c;
    auto r    = c.rays("none");
    double hx = c.core.s.xs().back(), hy = c.core.s.ys().back();
    long nd = c.quad->ndir_oct();
    Plane_ p(c.core.s, c.plane_of(0));
    for (long a = 0; a < 2 * nd; a++) {
        bool right = a < nd;
        for (size_t i = 0; i < (*r)[0][a].size(); i++) {
            auto &ray = (*r)[0][a][i];
            Track t(hx, hy, r->nx(a), r->ny(a), right, i);
            // rays through pin corners cross two faces there, in an order of their own, with no segment in between
            // (a ray starting or ending at a corner is given to either of the two cells)
            bool corner = false, at_end = false;
            for (double x : p.xs)
                for (double y : p.ys) {
                    corner = corner || std::abs((x - t.x1) * t.v - (y - t.y1) * t.u) < 1e-6;
                    at_end = at_end || std::hypot(x - t.x1, y - t.y1) < 1e-5 || std::hypot(x - t.x2, y - t.y2) < 1e-5;
                }
            if (at_end) continue;
            if (corner) {
                walk(p, t, ray, false);
                walk(p, t, ray, true);
                continue;
            }
            vf::check(ray.cm_cell_fw() == (size_t)c.m.coarse_cell(Position(p.column(t.x1 + 1e-7 * t.u), p.row(t.y1 + 1e-7 * t.v), 0)), "first cell forward");
            vf::check(ray.cm_cell_bw() == (size_t)c.m.coarse_cell(Position(p.column(t.x2 - 1e-7 * t.u), p.row(t.y2 - 1e-7 * t.v), 0)), "first cell backward");
            vf::check(ray.cm_surf_fw() == (size_t)c.m.coarse_surf(ray.cm_cell_fw(), (long)i < (long)r->ny(a) ? (right ? Surface::WEST : Surface::EAST) : Surface::SOUTH), "first face forward");
            vf::check(ray.cm_surf_bw() == (size_t)c.m.coarse_surf(ray.cm_cell_bw(), t.end < (long)r->ny(a) ? (right ? Surface::EAST : Surface::WEST) : Surface::NORTH), "first face backward");
            double at = 0;
            long k = 0, ix = p.column(t.x1 + 1e-7 * t.u), iy = p.row(t.y1 + 1e-7 * t.v);
            std::vector<std::pair<Surface, long>> fw;
            for (auto &d : ray.cm_data()) {
                long n = 0;
                for (; n < (long)d.nseg_fw; n++) {
                    double l = ray.seg_len(k++), m = at + 0.5 * l;
                    vf::check(l < 1e-9 || (p.column(t.x1 + t.u * m) == ix && p.row(t.y1 + t.v * m) == iy), "segments of a crossing are in one cell");
                    at += l;
                }
                double X = t.x1 + t.u * at, Y = t.y1 + t.v * at;
                switch ((Surface)d.fw) {
                case Surface::EAST: vf::check(right && near(X, p.xs[ix + 1]), "crossing east"); ix++; break;
                case Surface::WEST: vf::check(!right && near(X, p.xs[ix]), "crossing west"); ix--; break;
                case Surface::NORTH: vf::check(near(Y, p.ys[iy + 1]), "crossing north"); iy++; break;
                default: vf::check(false, "a face that can be crossed");
                }
                fw.push_back({(Surface)d.fw, n});
            }
            vf::check(k == ray.nseg(), "all segments lie in cells");
            // backward: the same cells in the opposite order, leaving by the opposite of the face entered
            long nc = fw.size();
            for (long j = 0; j < nc; j++) {
                auto &d = ray.cm_data()[j];
                vf::check((long)d.nseg_bw == fw[nc - 1 - j].second, "segments per crossing backward");
                Surface s = j + 1 < nc ? fw[nc - 2 - j].first
                                       : ((long)i < (long)r->ny(a) ? (right ? Surface::EAST : Surface::WEST) : Surface::NORTH);
                Surface o = s == Surface::EAST ? Surface::WEST : s == Surface::WEST ? Surface::EAST : Surface::SOUTH;
                vf::check((Surface)d.bw == o, "face left backward");
            }
        }
    }
}
#endif
