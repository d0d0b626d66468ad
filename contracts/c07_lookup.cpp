// C07, bounded: region numbers and point lookups of random cores against the input they were built from
// trials *: 1000 30000
#include "cores.hpp"
#include "moc.hpp"
#ifndef VF_SYM
using namespace mocc;
static bool near(double a, double b) { return std::abs(a - b) <= 1e-9 * (1.0 + std::abs(a) + std::abs(b)); }
struct Case {
    vfc::Core core;
    const vfc::Spec &s;
    const CoreMesh &m;
    long nx, ny, nz;
    std::vector<double> xs, ys, zs;
    std::vector<std::vector<long>> first;      // [plane][y * nx + x], within the plane
    std::vector<long> plane;                    // first region of each plane
    std::vector<long> order;                    // pin numbers: [number in the plane] -> y * nx + x
    long n;
    Case() : core(vfc::spec()), s(core.s), m(*core.mesh), nx(s.npx()), ny(s.npy()), nz(s.nz), xs(s.xs()), ys(s.ys()), n(0)
    {
        zs.push_back(0.0);
        for (double d : s.dz) zs.push_back(zs.back() + d);
        for (long z = 0; z < nz; z++) {
            plane.push_back(n);
            first.push_back(std::vector<long>(nx * ny));
            for (long ly = 0, y0 = 0; ly < s.ny_lat; y0 += s.wy[ly++].size())
                for (long lx = 0, x0 = 0; lx < s.nx_lat; x0 += s.wx[lx++].size())
                    for (size_t y = 0; y < s.wy[ly].size(); y++)
                        for (size_t x = 0; x < s.wx[lx].size(); x++) {
                            long at = (y0 + y) * nx + x0 + x;
                            if (z == 0) order.push_back(at);
                            first[z][at] = n - plane[z];
                            n += regions(at, z);
                        }
        }
    }
    long mesh_at(long at, long z) const { return s.pins[s.pin_at(at % nx, at / nx, z)].mesh; }
    long regions(long at, long z) const { return s.meshes[mesh_at(at, z)].n_reg; }
    const Pin &pin(long at, long z) const { return *m.pins().at((int)s.pin_at(at % nx, at / nx, z) + 1); }
    Point2 origin(long at) const { return Point2(0.5 * (xs[at % nx] + xs[at % nx + 1]), 0.5 * (ys[at / nx] + ys[at / nx + 1])); }
};
VF_HARNESS(numbering)
{
    Case c;
    const CoreMesh &m = c.m;
    vf::check((long)m.nx() == c.nx && (long)m.ny() == c.ny && (long)m.nz() == c.nz, "pins along each direction");
    vf::check((long)m.n_reg(MeshTreatment::TRUE) == c.n && (long)m.n_reg(MeshTreatment::PIN) == c.nx * c.ny * c.nz, "number of regions");
    vf::check((long)m.n_reg(MeshTreatment::PIN_PLANE) == c.nx * c.ny * (long)c.s.subplane.size(), "number of macroplane pins");
    vf::check((long)m.n_reg(MeshTreatment::PLANE) == vfm::Numbering(c.s).n, "number of regions of the macroplanes");
    VecF vol = m.volumes(MeshTreatment::TRUE);
    vf::check((long)vol.size() == c.n, "a volume for each region");
    long at = 0, ipin = 0;
    double total = 0;
    for (const auto p : m) {
        long z = ipin / (c.nx * c.ny), xy = c.order[ipin % (c.nx * c.ny)];
        vf::check(p == &c.pin(xy, z), "pins in the order of the numbering");
        if (ipin % (c.nx * c.ny) == 0) vf::check((long)m.first_reg_plane((int)z) == at && at == c.plane[z], "first region of the plane");
        vf::check(at == c.plane[z] + c.first[z][xy], "blocks follow one another");
        Position pos = m.pin_position((size_t)ipin);
        vf::check(pos.x == xy % c.nx && pos.y == xy / c.nx && pos.z == z, "position of the pin number");
        Point2 o = m.pin_origin((size_t)ipin), w = c.origin(xy);
        vf::check(near(o.x, w.x) && near(o.y, w.y), "origin of the pin");
        vf::check(p->n_reg() == c.regions(xy, z) && (long)p->mesh().areas().size() == c.regions(xy, z), "regions of the pin");
        double sum = 0;
        for (int i = 0; i < p->n_reg(); i++) {
            vf::check(near(vol[at + i], p->mesh().areas()[i] * c.s.dz[z]), "volume of the region");
            sum += vol[at + i];
        }
        vf::check(near(sum, (c.xs[xy % c.nx + 1] - c.xs[xy % c.nx]) * (c.ys[xy / c.nx + 1] - c.ys[xy / c.nx]) * c.s.dz[z]), "volume of the pin");
        total += sum;
        at += p->n_reg();
        ipin++;
    }
    vf::check(at == c.n && ipin == c.nx * c.ny * c.nz, "up to the number of regions");
    vf::check(near(total, c.xs.back() * c.ys.back() * c.zs.back()), "volume of the core");
    // planes taken to be alike have the same pin meshes everywhere
    for (long z = 0; z < c.nz; z++)
        for (long y = 0; y < c.nz; y++) {
            bool alike = true;
            for (long xy = 0; xy < c.nx * c.ny; xy++) alike = alike && c.mesh_at(xy, z) == c.mesh_at(xy, y);
            vf::check((m.unique_plane_id((int)z) == m.unique_plane_id((int)y)) == alike, "planes of the same geometry");
        }
    // macroplanes
    long z = 0;
    vf::check(m.macroplanes().size() == c.s.subplane.size(), "number of macroplanes");
    for (size_t k = 0; k < c.s.subplane.size(); k++) {
        const MacroPlane &mp = m.macroplanes()[k];
        vf::check(mp.iz_min == z && mp.iz_max == z + c.s.subplane[k] - 1 && near(mp.height, c.zs[z + c.s.subplane[k]] - c.zs[z]), "planes of the macroplane");
        for (long i = 0; i < c.nx * c.ny; i++) vf::check(*(mp.begin() + i) == &c.pin(c.order[i], z), "pins of the macroplane");
        for (long i = z; i < z + c.s.subplane[k]; i++) vf::check(m.macroplane_index((int)i) == (int)k, "macroplane of the plane");
        z += c.s.subplane[k];
    }
}
// the coordinate along one axis: somewhere inside a cell, or on an edge with a direction that tells the side
struct Coord {
    double v, dir;
    long cell;
    Coord(const std::vector<double> &e, bool edges, bool directed)
    {
        long n = (long)e.size() - 1, i = vf::range("cell", 0, 1000) % n;
        cell = i;
        dir  = directed ? (vf::boolean("up") ? 0.5 : -0.5) : 0.0;
        if (edges && vf::range("edge", 0, 2) == 0) {
            long k = i + vf::range("upper", 0, 1);
            v      = e[k];
            cell   = dir >= 0 ? std::min(k, n - 1) : std::max(k - 1, 0L);
        } else
            v = e[i] + (e[i + 1] - e[i]) * vf::range("within", 1, 999) / 1000.0;
    }
};
static void lookup(bool edges, bool directed)
{
    Case c;
    for (int k = 0; k < 20; k++) {
        Coord x(c.xs, edges, directed), y(c.ys, edges, directed), z(c.zs, edges && directed, directed);
        long at = y.cell * c.nx + x.cell;
        Point2 o = c.origin(at), local(x.v - o.x, y.v - o.y);
        const PinMesh &pm = c.pin(at, z.cell).mesh();
        // by plane
        if (!directed) {
            Point2 p(x.v, y.v);
            int reg = 7;
            PinMeshTuple t = c.m.get_pinmesh(p, c.m.unique_plane_id((int)z.cell), reg);
            vf::check(t.pm == &pm, "pin mesh at the point");
            if (!edges) vf::check(t.position.x == x.cell && t.position.y == y.cell, "position of the pin");
            vf::check(reg == 7 + c.first[z.cell][at], "first region of the pin in its plane");
            vf::check(near(p.x, o.x) && near(p.y, o.y), "origin of the pin");
            if (!edges) {
                int want = pm.find_reg(local);
                vf::check(want >= 0 && want < pm.n_reg(), "the pin has the point");
                // (points on a boundary between regions belong to either)
                bool clear = true;
                for (int q = 0; q < 4; q++) clear = clear && pm.find_reg(Point2(local.x + (q & 1 ? 1e-9 : -1e-9), local.y + (q & 2 ? 1e-9 : -1e-9))) == want;
                if (clear)
                    vf::check(c.m.region_at_point(Point3(x.v, y.v, z.v)) == c.plane[z.cell] + c.first[z.cell][at] + want, "region at the point");
            }
        } else {
            Direction d;
            d.ox = x.dir;
            d.oy = y.dir;
            d.oz = z.dir;
            auto i = c.m.get_location_info(Point3(x.v, y.v, z.v), d);
            vf::check(i.pm == &pm, "pin mesh towards the direction");
            vf::check(i.reg_offset == c.plane[z.cell] + c.first[z.cell][at], "first region of the pin");
            vf::check(i.pos.z == z.cell, "plane of the point");
            vf::check(i.pos.x == x.cell && i.pos.y == y.cell, "position of the pin");
            vf::check(near(i.local_point.x, local.x) && near(i.local_point.y, local.y), "point relative to the pin");
            vf::check(near(i.pin_boundary[0].x, c.xs[x.cell]) && near(i.pin_boundary[1].x, c.xs[x.cell + 1]) && near(i.pin_boundary[0].y, c.ys[y.cell]) &&
                          near(i.pin_boundary[1].y, c.ys[y.cell + 1]) && near(i.pin_boundary[0].z, c.zs[z.cell]) && near(i.pin_boundary[1].z, c.zs[z.cell + 1]),
                      "bounds of the pin");
            vf::check(c.m.plane_index(z.v, z.dir) == z.cell, "plane of the point");
        }
    }
}
VF_HARNESS(inside) { lookup(false, false); }
VF_HARNESS(inside_directed) { lookup(false, true); }
VF_HARNESS(on_edges) { lookup(true, false); }
VF_HARNESS(on_edges_directed) { lookup(true, true); }
#endif
