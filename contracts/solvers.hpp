// Solvers on generated cores, through the real input format, and the same iterations written out over the public
// interfaces of sweepers and sources (native runs only)
#pragma once
#ifndef VF_SYM
#include <cmath>
#include "core/cmfd.hpp"
#include "core/source.hpp"
#include "core/transport_sweeper.hpp"
#include "solvers/solver_factory.hpp"
#include "sweepers/transport_sweeper_factory.hpp"
#include "util/h5file.hpp"
#include "cores.hpp"
namespace vfv {
using namespace mocc;
inline vfc::Options options()
{
    vfc::Options op;
    op.max_ng  = 3;
    op.max_pin = 2;
    return op;
}
struct Problem {
    vfc::Core core;
    pugi::xml_document doc;
    long most, least;
    double k_tol, psi_tol, flux_tol;
    explicit Problem(const char *kind, const std::string &more = "", const std::string &inside = "", const vfc::Options &op = options(), const std::string &child = "") : core(vfc::spec(op))
    {
        static const double tol[] = {1e-1, 1e-2, 1e-3, 1e-5};
        most     = vf::range("max_iter", 1, 12);
        least    = vf::range("min_iter", 0, most);
        k_tol    = tol[vf::range("k_tol", 0, 3)];
        psi_tol  = tol[vf::range("psi_tol", 0, 3)];
        flux_tol = tol[vf::range("flux_tol", 0, 3)] * 10;
        bool moc = vf::boolean("moc");
        std::ostringstream o;
        o << "<solver type=\"" << kind << "\" max_iter=\"" << most << "\" ";
        if (std::string(kind) == "eigenvalue") {
            o << "k_tol=\"" << k_tol << "\" psi_tol=\"" << psi_tol << "\" ";
            if (vf::boolean("has_min")) o << "min_iter=\"" << least << "\" ";
            else least = 0;
        } else {
            o << "flux_tol=\"" << flux_tol << "\" ";
        }
        // the tolerances are read in single precision
        k_tol = (float)k_tol, psi_tol = (float)psi_tol, flux_tol = (float)flux_tol;
        o << more << "><source scattering=\"P0\" " << inside << "/><sweeper type=\"" << (moc ? "moc" : "sn") << "\" n_inner=\"" << (child.empty() ? vf::range("inner", 1, 2) : 5)
          << "\"><ang_quad type=\"ls\" order=\"" << (moc ? 2 : 4) << "\" />";
        if (moc) o << "<rays spacing=\"" << vf::range("spacing", 10, 30) / 100.0 << "\" />";
        o << "</sweeper>" << child << "</solver>";
        doc.load_string(o.str().c_str());
    }
    pugi::xml_node node() const { return doc.child("solver"); }
};
// the iteration, written out
struct Walk {
    UP_Sweeper_t s;
    UP_Source_t src;
    ArrayB1 f, f0;
    long fissile;
    std::unique_ptr<CMFD> coarse;
    explicit Walk(const Problem &p)
    {
        vfc::fresh_timers();
        s   = TransportSweeperFactory(p.node(), *p.core.mesh);
        src = s->create_source(p.node().child("source"));
        s->assign_source(src.get());
        s->initialize();
        f.resize(s->n_reg());
        f0.resize(s->n_reg());
        fissile = 0;
        for (const auto &x : s->xs_mesh()) {
            bool any = false;
            for (int g = 0; g < s->n_group(); g++) any = any || x.xsmacnf(g) > 0.0;
            if (any) fissile += x.reg().size();
        }
        if (p.node().attribute("cmfd").as_bool(false)) {
            coarse.reset(new CMFD(p.node().child("cmfd"), p.core.mesh.get(), s->get_homogenized_xsmesh()));
            s->set_coarse_data(coarse->get_data());
        }
    }
    // fission production per region for an eigenvalue of one
    void fission(ArrayB1 &a) const
    {
        a = 0.0;
        for (const auto &x : s->xs_mesh())
            for (int r : x.reg())
                for (int g = 0; g < s->n_group(); g++) a(r) += x.xsmacnf(g) * s->flux()(r, g);
    }
    double total(const ArrayB1 &a) const
    {
        double t = 0.0;
        for (int r = 0; r < s->n_reg(); r++) t += a(r) * s->volumes()[r];
        return t;
    }
    void step(const ArrayB1 *fs)
    {
        s->store_old_flux();
        for (int g = 0; g < s->n_group(); g++) {
            src->initialize_group(g);
            src->in_scatter(g);
            if (fs) src->fission(*fs, g);
            s->sweep(g);
        }
    }
    double eigen_step(double &k)
    {
        if (coarse) {
            // the coarse mesh gets the homogenized flux, and gives back its own flux and eigenvalue
            coarse->coarse_data().flux = s->get_pin_flux(MeshTreatment::PIN_PLANE);
            coarse->solve(k);
            s->set_pin_flux(coarse->flux(), MeshTreatment::PIN_PLANE);
        }
        fission(f0);
        double t0 = total(f0);
        ArrayB1 q(s->n_reg());
        q = f0 / k;
        step(&q);
        fission(f);
        return k * total(f) / t0;
    }
    // root mean square change of the sources, scaled to a mean of one over the regions that have any
    double change() const
    {
        double a = 0, b = 0, e = 0;
        long na = 0, nb = 0;
        for (int r = 0; r < s->n_reg(); r++) {
            a += f(r), b += f0(r);
            na += f(r) > 0, nb += f0(r) > 0;
        }
        for (int r = 0; r < s->n_reg(); r++) e += std::pow(f(r) * na / a - f0(r) * nb / b, 2);
        return std::sqrt(e / fissile);
    }
};
inline bool near(double a, double b, double tol = 1e-8) { return std::fabs(a - b) <= tol * (1e-3 + std::fabs(a) + std::fabs(b)); }
// an eigenvalue solve against the iteration written out
inline void eigenvalue(bool accelerated = false)
{
    // acceleration diverges in cores of a few cells that leak much, and in planes that are swept on their own
    vfc::Options op = options();
    if (accelerated) op.all_bc = 1, op.max_nz = 1;
    Problem p("eigenvalue", accelerated ? "cmfd=\"t\" " : "", "", op, accelerated ? "<cmfd k_tol=\"1e-7\" psi_tol=\"1e-6\" max_iter=\"30\" />" : "");
    Walk w(p);
    vfc::fresh_timers();
    SP_Solver_t s = SolverFactory(p.node(), *p.core.mesh);
    try {
        s->solve();
    } catch (Exception &) {
        // acceleration may diverge
        double k = 1.0;
        try {
            for (long i = 0; i < p.most && k == k; i++) k = w.eigen_step(k);
        } catch (Exception &) {
            return;
        }
        vf::check(k != k, "gives up only when the eigenvalue is not a number");
        return;
    }
    VecF ks, eks, eps;
    {
        H5Node h("eigen.h5", H5Access::WRITE);
        s->output(h);
    }
    {
        H5Node h("eigen.h5", H5Access::READ);
        h.read("convergence/k", ks);
        h.read("convergence/error_k", eks);
        h.read("convergence/error_psi", eps);
    }
    unlink("eigen.h5");
    vf::check(ks.size() >= 1 && (long)ks.size() <= p.most, "number of steps");
    vf::check(eks.size() == ks.size() && eps.size() == ks.size(), "one record per step");
    double k = 1.0;
    for (size_t i = 0; i < ks.size(); i++) {
        double last = k;
        k = w.eigen_step(last);
        // rounding is not kept apart in an iteration that diverges
        if (accelerated && !(last > 0.02 && last < 50 && k > 0.02 && k < 50)) return;
        vf::check(near(ks[i], k), "eigenvalue after each step");
        vf::check(std::fabs(eks[i] - std::fabs(k - last)) < 1e-9, "change of the eigenvalue");
        vf::check(std::fabs(eps[i] - w.change()) < 1e-9, "change of the fission source");
        bool close = eks[i] < p.k_tol && eps[i] < p.psi_tol;
        bool last_one = i + 1 == ks.size();
        if (!last_one) vf::check(!(close && (long)i + 1 > p.least), "goes on while a change is not below its tolerance");
        else if ((long)ks.size() < p.most) vf::check(close && (long)ks.size() >= p.least, "stops early only after the least number of steps with both changes below their tolerances");
    }
    const ArrayB2 &got = s->sweeper()->flux();
    bool same = true;
    for (int r = 0; r < w.s->n_reg(); r++)
        for (int g = 0; g < w.s->n_group(); g++) same = same && near(got(r, g), w.s->flux()(r, g), 1e-7);
    vf::check(same, "flux after the last step");
}
// a fixed-source solve against the iteration written out
inline void fixed()
{
    Problem p("fixed_source", "", "file=\"fixed-source.h5\" ");
    Walk *wp;
    ArrayB2 ext;
    {
        vfc::fresh_timers();
        UP_Sweeper_t t = TransportSweeperFactory(p.node(), *p.core.mesh);
        ext.resize(t->n_group(), t->n_reg());
        for (int g = 0; g < t->n_group(); g++)
            for (int r = 0; r < t->n_reg(); r++) ext(g, r) = vf::range("external", 0, 20) / 10.0;
        H5Node h("fixed-source.h5", H5Access::WRITE);
        h.write("/source", ext);
    }
    std::unique_ptr<Walk> w(wp = new Walk(p));
    w->src->add_external(p.node().child("source"));
    vfc::fresh_timers();
    SP_Solver_t s = SolverFactory(p.node(), *p.core.mesh);
    s->solve();
    unlink("fixed-source.h5");
    long n = 0;
    do w->step(nullptr);
    while (w->s->flux_residual() >= p.flux_tol && ++n < p.most);
    const ArrayB2 &got = s->sweeper()->flux();
    bool same = true;
    for (int r = 0; r < w->s->n_reg(); r++)
        for (int g = 0; g < w->s->n_group(); g++) same = same && near(got(r, g), w->s->flux()(r, g), 1e-7);
    vf::check(same, "flux when the residual falls below the tolerance or after the greatest number of steps");
}
}
#endif
