// C12, bounded: the coarse-mesh solver driven through its public interface on random cores
// trials *: 1000 30000
#include "core/cmfd.hpp"
#include "xsmesh.hpp"
#ifndef VF_SYM
using namespace mocc;
static double size_of(double v) { return v < 0 ? -v : v; }
static bool close(double a, double b, double scale) { return size_of(a - b) <= 1e-6 * (size_of(a) + size_of(b) + scale); }
// one group structure of macroplanes, cells and surfaces worked out from the input alone: surfaces are kept by axis as (low cell, high cell)
struct Face {
    long axis, lo, hi;      // cells on the low and high side, -1 outside
    double area;
};
struct Coarse {
    const vfc::Spec &s;
    long nx, ny, nz;
    std::vector<double> dx, dy, dz;
    std::vector<Face> faces;
    explicit Coarse(const vfc::Spec &sp) : s(sp), nx(sp.npx()), ny(sp.npy()), nz((long)sp.subplane.size())
    {
        for (auto &w : s.wx) for (double d : w) dx.push_back(d);
        for (auto &w : s.wy) for (double d : w) dy.push_back(d);
        long z = 0;
        for (long n : s.subplane) {
            dz.push_back(0.0);
            for (long k = 0; k < n; k++) dz.back() += s.dz[z++];
        }
        for (long z = 0; z < nz; z++)
            for (long y = 0; y < ny; y++)
                for (long x = 0; x <= nx; x++) faces.push_back({0, cell(x - 1, y, z), cell(x, y, z), dy[y] * dz[z]});
        for (long z = 0; z < nz; z++)
            for (long y = 0; y <= ny; y++)
                for (long x = 0; x < nx; x++) faces.push_back({1, cell(x, y - 1, z), cell(x, y, z), dx[x] * dz[z]});
        for (long z = 0; z <= nz; z++)
            for (long y = 0; y < ny; y++)
                for (long x = 0; x < nx; x++) faces.push_back({2, cell(x, y, z - 1), cell(x, y, z), dx[x] * dy[y]});
    }
    long n() const { return nx * ny * nz; }
    long cell(long x, long y, long z) const { return x < 0 || y < 0 || z < 0 || x >= nx || y >= ny || z >= nz ? -1 : (z * ny + y) * nx + x; }
    double volume(long i) const { return dx[i % nx] * dy[i / nx % ny] * dz[i / (nx * ny)]; }
    double width(long i, long axis) const { return axis == 0 ? dx[i % nx] : axis == 1 ? dy[i / nx % ny] : dz[i / (nx * ny)]; }
    bool reflective(const Face &f) const
    {
        // east north west south top bottom
        int w = f.axis == 0 ? (f.lo < 0 ? 2 : 0) : f.axis == 1 ? (f.lo < 0 ? 3 : 1) : (f.lo < 0 ? 5 : 4);
        return s.bc[w] == "reflect";
    }
    // first plane of a macroplane
    long first(long m) const
    {
        long z = 0;
        for (long k = 0; k < m; k++) z += s.subplane[k];
        return z;
    }
    // the surfaces of the fine mesh a face consists of
    std::vector<int> fine(const CoreMesh &cm, const Face &f) const
    {
        std::vector<int> v;
        long c = f.lo >= 0 ? f.lo : f.hi, m = c / (nx * ny), xy = c % (nx * ny);
        Surface side = f.axis == 0 ? (f.lo >= 0 ? Surface::EAST : Surface::WEST) : f.axis == 1 ? (f.lo >= 0 ? Surface::NORTH : Surface::SOUTH) : (f.lo >= 0 ? Surface::TOP : Surface::BOTTOM);
        long z0 = first(m), z1 = z0 + s.subplane[m] - 1;
        if (f.axis == 2) {
            z0 = f.lo >= 0 ? z1 : z0;
            z1 = z0;
        }
        for (long z = z0; z <= z1; z++) v.push_back(cm.coarse_surf((int)(z * nx * ny + xy), side));
        return v;
    }
};
struct Problem {
    vfc::Core core;
    Coarse c;
    SP_XSMeshHomogenized_t xs;
    pugi::xml_document opt;
    std::unique_ptr<CMFD> cmfd;
    long ng;
    std::vector<const XSMeshRegion *> at;      // data of each coarse cell
    Problem(const vfc::Options &op, const std::string &options) : core(vfc::spec(op)), c(core.s), xs(new XSMeshHomogenized(*core.mesh)), ng(core.s.ng)
    {
        opt.load_string(("<cmfd " + options + " />").c_str());
        cmfd.reset(new CMFD(opt.child("cmfd"), core.mesh.get(), xs));
        at.assign(c.n(), nullptr);
        long i = 0;
        for (long m = 0; m < c.nz; m++)
            for (long p = 0; p < c.nx * c.ny; p++) {
                Position pos = core.mesh->pin_position(p);
                at[c.cell(pos.x, pos.y, m)] = &(*xs)[(int)i++];
            }
        cmfd->coarse_data().set_has_radial_data(true);
        cmfd->coarse_data().set_has_axial_data(true);
    }
    double scat(long i, long to, long from) const { return at[i]->xsmacsc().as_vector()[to * ng + from]; }
    // what a cell gains from fission and scattering from other groups, per unit volume
    template <class F> double gain(F phi, double k, long i, long g) const
    {
        double f = 0, q = 0;
        for (long h = 0; h < ng; h++) {
            f += at[i]->xsmacnf((int)h) * phi(i, h);
            if (h != g) q += scat(i, g, h) * phi(i, h);
        }
        return q + at[i]->xsmacch((int)g) * f / k;
    }
    double loss(long i, long g) const { return at[i]->xsmactr((int)g) - scat(i, g, g); }
    double coupling(const Face &f, long g) const
    {
        auto d = [&](long i) { return i >= 0 ? 1.0 / (3.0 * at[i]->xsmactr((int)g)) / c.width(i, f.axis) : c.reflective(f) ? 0.0 : 0.25; };
        double a = d(f.lo), b = d(f.hi);
        return 2.0 * a * b / (a + b);
    }
    // hand a current on a coarse face to the solver, spread over the planes of its macroplane with the same average
    void give(const Face &f, long g, double j)
    {
        auto v = c.fine(*core.mesh, f);
        if (v.size() == 1) cmfd->coarse_data().current(v[0], (int)g) = j;
        else {
            double off = vf::range("off", -100, 100) / 100.0, total = 0, used = 0;
            long m = (f.lo >= 0 ? f.lo : f.hi) / (c.nx * c.ny), z = c.first(m);
            total = c.dz[m];
            for (size_t i = 0; i + 1 < v.size(); i++) {
                cmfd->coarse_data().current(v[i], (int)g) = j + off;
                used += core.s.dz[z + i] * (j + off);
            }
            cmfd->coarse_data().current(v.back(), (int)g) = (j * total - used) / core.s.dz[z + v.size() - 1];
        }
    }
};
// inverse of a small matrix
static std::vector<std::vector<double>> inverse(std::vector<std::vector<double>> a)
{
    size_t n = a.size();
    std::vector<std::vector<double>> b(n, std::vector<double>(n, 0.0));
    for (size_t i = 0; i < n; i++) b[i][i] = 1.0;
    for (size_t i = 0; i < n; i++) {
        size_t piv = i;
        for (size_t r = i; r < n; r++) if (size_of(a[r][i]) > size_of(a[piv][i])) piv = r;
        std::swap(a[i], a[piv]);
        std::swap(b[i], b[piv]);
        double d = a[i][i];
        for (size_t k = 0; k < n; k++) a[i][k] /= d, b[i][k] /= d;
        for (size_t r = 0; r < n; r++) {
            double m = a[r][i];
            if (r == i || m == 0) continue;
            for (size_t k = 0; k < n; k++) a[r][k] -= m * a[i][k], b[r][k] -= m * b[i][k];
        }
    }
    return b;
}
// a transport solution that balances neutrons in every cell is left as it is, with its eigenvalue and currents: the solution is
// that of a balance with couplings of its own
VF_HARNESS(balanced)
{
    vfc::Options op;
    op.max_ng = 3;
    op.max_sub = 2;
    op.max_pin = 2;
    Problem p(op, "max_iter=\"3\" k_tol=\"1e-10\" psi_tol=\"1e-10\" residual_reduction=\"1e-6\"");
    const Coarse &c = p.c;
    long ng = p.ng, nf = (long)c.faces.size(), n = c.n();
    CoarseData &d = p.cmfd->coarse_data();
    double k = 1.0;
    std::vector<std::vector<double>> phi(n, std::vector<double>(ng, 1.0)), j(nf, std::vector<double>(ng, 0.0)), t = j;
    std::vector<std::vector<std::vector<double>>> inv(ng);
    auto at = [&](long i, long g) { return phi[i][g]; };
    for (long g = 0; g < ng; g++) {
        std::vector<std::vector<double>> m(n, std::vector<double>(n, 0.0));
        for (long i = 0; i < n; i++) m[i][i] = c.volume(i) * p.loss(i, g);
        for (long f = 0; f < nf; f++) {
            const Face &s = c.faces[f];
            t[f][g] = p.coupling(s, g) * vf::range("coupling", 20, 170) / 100.0;
            double v = s.area * t[f][g];
            if (s.lo >= 0) m[s.lo][s.lo] += v;
            if (s.hi >= 0) m[s.hi][s.hi] += v;
            if (s.lo >= 0 && s.hi >= 0) m[s.lo][s.hi] -= v, m[s.hi][s.lo] -= v;
        }
        inv[g] = inverse(m);
    }
    bool done = false;
    for (long it = 0; it < 3000 && !done; it++) {
        auto old = phi;
        auto was = [&](long i, long g) { return old[i][g]; };
        double fis = 0, fis_old = 0, change = 0;
        for (long g = 0; g < ng; g++) {
            std::vector<double> q(n);
            // fission of the last iteration, scattering of the newest flux
            for (long i = 0; i < n; i++) {
                double fs = 0, sc = 0;
                for (long h = 0; h < ng; h++) {
                    fs += p.at[i]->xsmacnf((int)h) * was(i, h);
                    if (h != g) sc += p.scat(i, g, h) * phi[i][h];
                }
                q[i] = c.volume(i) * (p.at[i]->xsmacch((int)g) * fs / k + sc);
            }
            for (long i = 0; i < n; i++) {
                double v = 0;
                for (long l = 0; l < n; l++) v += inv[g][i][l] * q[l];
                phi[i][g] = v;
            }
        }
        for (long i = 0; i < n; i++)
            for (long g = 0; g < ng; g++) {
                fis += c.volume(i) * p.at[i]->xsmacnf((int)g) * phi[i][g];
                fis_old += c.volume(i) * p.at[i]->xsmacnf((int)g) * old[i][g];
                change = std::max(change, size_of(phi[i][g] / old[i][g] - 1.0));
            }
        k *= fis / fis_old;
        done = change < 1e-12;
    }
    vf::assume(done);
    double most = 0;
    for (long i = 0; i < n; i++) for (long g = 0; g < ng; g++) d.flux((int)i, (int)g) = phi[i][g], most = std::max(most, phi[i][g]);
    for (long f = 0; f < nf; f++)
        for (long g = 0; g < ng; g++) {
            const Face &s = c.faces[f];
            j[f][g] = -t[f][g] * ((s.hi >= 0 ? at(s.hi, g) : 0.0) - (s.lo >= 0 ? at(s.lo, g) : 0.0));
            p.give(s, g, j[f][g]);
        }
    double knew = k;
    p.cmfd->solve(knew);
    vf::check(close(knew, k, 0.0), "eigenvalue");
    for (long i = 0; i < n; i++)
        for (long g = 0; g < ng; g++) vf::check(close(d.flux((int)i, (int)g), phi[i][g], 0.0), "flux");
    for (long f = 0; f < nf; f++)
        for (long g = 0; g < ng; g++)
            for (int s : c.fine(*p.core.mesh, c.faces[f])) vf::check(close(d.current(s, (int)g), j[f][g], most), "current");
}
// from any currents near those of diffusion, the solution balances neutrons in every cell with the currents written back, which
// are those of the coefficients that reproduce the currents given
VF_HARNESS(solved)
{
    vfc::Options op;
    op.max_ng = 3;
    op.max_sub = 2;
    Problem p(op, "max_iter=\"4000\" k_tol=\"1e-9\" psi_tol=\"1e-9\" residual_reduction=\"1e-6\"");
    const Coarse &c = p.c;
    long ng = p.ng, nf = (long)c.faces.size();
    CoarseData &d = p.cmfd->coarse_data();
    bool radial = vf::range("radial", 0, 3) > 0, axial = vf::range("axial", 0, 3) > 0;
    d.set_has_radial_data(radial);
    d.set_has_axial_data(axial);
    std::vector<std::vector<double>> t(nf, std::vector<double>(ng)), h = t;
    std::vector<std::vector<double>> phi(c.n(), std::vector<double>(ng));
    for (long i = 0; i < c.n(); i++)
        for (long g = 0; g < ng; g++) d.flux((int)i, (int)g) = phi[i][g] = vf::range("phi", 50, 500) / 100.0;
    for (long f = 0; f < nf; f++)
        for (long g = 0; g < ng; g++) {
            const Face &s = c.faces[f];
            t[f][g] = p.coupling(s, g);
            h[f][g] = t[f][g] * vf::range("dhat", -60, 60) / 100.0;
            if ((s.lo < 0 || s.hi < 0) && c.reflective(s)) vf::check(t[f][g] == 0, "no diffusive leakage");
            double l = s.lo >= 0 ? phi[s.lo][g] : 0.0, r = s.hi >= 0 ? phi[s.hi][g] : 0.0;
            p.give(s, g, -t[f][g] * (r - l) + h[f][g] * (r + l));
            if (!(s.axis == 2 ? axial : radial)) h[f][g] = 0.0;
        }
    double k = vf::range("k", 50, 150) / 100.0;
    p.cmfd->solve(k);
    auto at = [&](long i, long g) { return d.flux((int)i, (int)g); };
    std::vector<std::vector<double>> net(c.n(), std::vector<double>(ng, 0.0));
    double top = 0;
    for (long i = 0; i < c.n(); i++) for (long g = 0; g < ng; g++) top = std::max(top, size_of(at(i, g)));
    vf::check(top > 0 && k > 0, "a positive solution");
    for (long f = 0; f < nf; f++)
        for (long g = 0; g < ng; g++) {
            const Face &s = c.faces[f];
            double l = s.lo >= 0 ? at(s.lo, g) : 0.0, r = s.hi >= 0 ? at(s.hi, g) : 0.0;
            double j = -t[f][g] * (r - l) + h[f][g] * (r + l);
            for (int q : c.fine(*p.core.mesh, s)) {
                vf::check(close(d.current(q, (int)g), j, 1e-3 * top), "currents of the same coefficients");
                if ((s.lo < 0 || s.hi < 0) && c.reflective(s)) vf::check(size_of(d.current(q, (int)g)) <= 1e-9 * top, "no leakage through a reflective face");
            }
            if (s.lo >= 0) net[s.lo][g] += s.area * j;
            if (s.hi >= 0) net[s.hi][g] -= s.area * j;
        }
    for (long i = 0; i < c.n(); i++)
        for (long g = 0; g < ng; g++) {
            double v = c.volume(i), out = net[i][g] + v * p.loss(i, g) * at(i, g), in = v * p.gain(at, k, i, g);
            vf::check(size_of(out - in) <= 1e-4 * v * top, "balance of the cell");
        }
}
#endif
