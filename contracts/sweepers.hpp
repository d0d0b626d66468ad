// Discrete-ordinates sweepers.  Natively a real sweeper on a real generated core; symbolically an arbitrary sweeper object
// that refers to an arbitrary mesh (references in the object lead to separate, arbitrary objects).
#pragma once
#include "core/mesh.hpp"
#include "sn/sn_sweeper_variant.hpp"
#include "sn/sn_sweeper_dd.hpp"
#include "cmdo/sn_sweeper_cdd.hpp"
#include "cmdo/sn_sweeper_cdd_mb.hpp"
#include "cores.hpp"
#include "vf.hpp"
namespace vfs {
using namespace mocc;
#ifndef VF_SYM
inline std::string sweeper_xml(long order, const char *more = "", long inner = 1)
{
    std::ostringstream o;
    o << "<sweeper type=\"sn\" n_inner=\"" << inner << "\" " << more << "><ang_quad type=\"ls\" order=\"" << order << "\" /></sweeper>";
    return o.str();
}
struct SnInput {
    vfc::Core core;
    pugi::xml_document doc;
    SnInput(const vfc::Spec &s, const char *more = "", long inner = 1)
        : core(s)
    {
        static const long orders[] = {2, 4, 6, 8};
        doc.load_string(sweeper_xml(orders[vf::range("order", 0, 2)], more, inner).c_str());
    }
    pugi::xml_node node() const { return doc.child("sweeper"); }
};
#endif
// the values one kernel call works on
struct Cell {
    double ox, ty, tz, oz, q, xstr, dx;
    double x0, y0, z0, x1, y1, z1, psi;
    int i, ia;
    double gx, gy;
};
template <class S> struct Kernel {
#ifdef VF_SYM
    S &s;
    Kernel() : s(vf::object<S>("sweeper")) {}
#else
    SnInput in;
    S s;
    Kernel() : in(vfc::spec()), s(in.node(), *in.core.mesh) {}
#endif
    typename S::ThreadState t;
    Cell c;
    // corrected = the scheme takes its radial weights from correction factors
    void setup(bool three_d)
    {
        Mesh &m = const_cast<CoreMesh &>(static_cast<const CoreMesh &>(s.mesh_));
        long nx = vf::nat("nx", 1, 4), ny = vf::nat("ny", 1, 4), nz = vf::nat("nz", 1, 4);
#ifdef VF_SYM
        m.nx_ = nx;
        m.ny_ = ny;
        m.nz_ = nz;
        vf::vec(m.dx_vec_, "dx", nx);
        vf::vec(m.dy_vec_, "dy", ny);
        vf::vec(m.dz_vec_, "dz", nz);
        s.plane_size_ = nx * ny;
#else
        nx = m.nx();
        ny = m.ny();
        nz = m.nz();
#endif
        long ix = vf::nat("ix", 0, 3), iy = vf::nat("iy", 0, 3), iz = vf::nat("iz", 0, 3);
        vf::assume(ix < nx && iy < ny && iz < nz);
        c.i    = (iz * ny + iy) * nx + ix;
        c.dx   = m.dx_vec_[ix];
        double dy = m.dy_vec_[iy], dz = m.dz_vec_[iz];
        vf::assume(c.dx > 0 && dy > 0 && dz > 0);
        double oy = vf::positive("oy", 1);
        c.ox = t.ox = vf::positive("ox", 1);
        c.oz = t.oz = vf::positive("oz", 1);
        t.oy = oy;
        t.ty = c.ty = oy / dy;
        t.tz = c.tz = c.oz / dz;
        c.q    = vf::real("q");
        c.xstr = vf::positive("xstr");
        c.x0 = c.x1 = vf::real("psi_x");
        c.y0 = c.y1 = vf::real("psi_y");
        c.z0 = c.z1 = vf::real("psi_z");
        c.gx = c.gy = 0.5;
    }
    void factors(bool three_d)
    {
        Mesh &m = const_cast<CoreMesh &>(static_cast<const CoreMesh &>(s.mesh_));
        long np = m.nx_ * m.ny_;
#ifdef VF_SYM
        long nmac = vf::nat("macroplanes", 1, 3), na = vf::nat("nang", 1, 3), ng = vf::nat("ngroup", 1, 3);
        CorrectionData &d = vf::object<CorrectionData>("corrections");
        s.corrections_._M_ptr = &d;
        vf::assume(na * ng * nmac >= 1);
        d.alpha_.data_ = vf::buffer<double>("alpha", ng * na * (nmac * np) * 2);
        set(d.alpha_, ng, na, nmac * np, 2);
        d.beta_.data_ = vf::buffer<double>("beta", ng * na * (nmac * np));
        set(d.beta_, ng, na, nmac * np);
        double ax, ay, b;
#else
        long nmac = in.core.mesh->macroplanes().size(), na = s.ang_quad().ndir() / 2, ng = s.n_group();
        std::shared_ptr<CorrectionData> d(new CorrectionData(*in.core.mesh, na, ng));
        s.set_corrections(d);
#endif
        long g = vf::nat("group", 0, 3), a = vf::nat("angle", 0, 40), mac = vf::nat("macroplane", 0, 3);
        vf::assume(g < ng && a < na && mac < nmac);
        if (!three_d) vf::assume(c.i < np);
        s.group_     = g;
        t.iang_2d    = a;
        t.macroplane = mac;
        c.ia         = three_d ? mac * np + vf::imod(c.i, np) : c.i;
#ifdef VF_SYM
        double *al = d.alpha_.data_, *be = d.beta_.data_;
        long at = ((g * na + a) * (nmac * np) + c.ia);
        ax = al[at * 2];
        ay = al[at * 2 + 1];
        b  = be[at];
#else
        // every other factor differs, so that taking a neighbour's is noticed
        for (int gg = 0; gg < ng; gg++)
            for (int aa = 0; aa < na; aa++)
                for (int r = 0; r < nmac * np; r++) {
                    double h = 0.3 + 0.4 * ((gg * 31 + aa * 7 + r * 13) % 17) / 17.0;
                    d->alpha(r, aa, gg, Normal::X_NORM) = h;
                    d->alpha(r, aa, gg, Normal::Y_NORM) = h * 0.9 + 0.02;
                    d->beta(r, aa, gg) = 0.7 + 0.3 * h;
                }
        double ax = d->alpha(c.ia, a, g, Normal::X_NORM), ay = d->alpha(c.ia, a, g, Normal::Y_NORM), b = d->beta(c.ia, a, g);
#endif
        vf::assume(ax > 0 && ay > 0 && b > 0);
        c.gx = ax * b;
        c.gy = ay * b;
    }
#ifdef VF_SYM
    template <int N> static void set(blitz::Array<double, N> &a, long n0, long n1, long n2, long n3 = 1)
    {
        long n[4] = {n0, n1, n2, n3};
        long st   = 1;
        for (int k = N - 1; k >= 0; k--) {
            a.length_[k] = n[k];
            a.stride_[k] = st;
            st *= n[k];
            a.storage_.ordering_[N - 1 - k]  = k;
            a.storage_.ascendingFlag_[k] = true;
            a.storage_.base_[k]          = 0;
        }
        a.zeroOffset_ = 0;
    }
#endif
    void run()
    {
        double x = c.x0, y = c.y0, z = c.z0;
        c.psi = s.evaluate(x, y, z, c.q, c.xstr, c.i, t);
        c.x1 = x, c.y1 = y, c.z1 = z;
    }
    void run_2d()
    {
        double x = c.x0, y = c.y0;
        c.psi = s.evaluate_2d(x, y, c.q, c.xstr, c.i, t);
        c.x1 = x, c.y1 = y;
    }
    double tx() const { return c.ox / c.dx; }
    void balance_3d()
    {
        vf::check(vf::eq(tx() * (c.x1 - c.x0) + c.ty * (c.y1 - c.y0) + c.tz * (c.z1 - c.z0) + c.xstr * c.psi, c.q), "cell balance");
    }
    void balance_2d()
    {
        vf::check(vf::eq(tx() * (c.x1 - c.x0) + c.ty * (c.y1 - c.y0) + c.xstr * c.psi, c.q), "cell balance");
    }
    void radial_closure()
    {
        vf::check(vf::eq(c.psi, c.gx * (c.x0 + c.x1)), "x closure");
        vf::check(vf::eq(c.psi, c.gy * (c.y0 + c.y1)), "y closure");
    }
};
}
