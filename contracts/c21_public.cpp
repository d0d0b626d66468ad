// C21, bounded: through the public interface only
// trials *: 60 1500
#include "moc.hpp"
#include "sweepers.hpp"
#ifndef VF_SYM
#include "core/source_isotropic.hpp"
using namespace mocc;
static vfc::Options options(int bc)
{
    vfc::Options op;
    op.max_ng  = 2;
    op.max_pin = 2;
    op.all_bc  = bc;
    return op;
}
struct Run {
    pugi::xml_document sd;
    UP_Source_t src;
    Run(TransportSweeper &s)
    {
        sd.load_string("<source scattering=\"P0\" />");
        src = s.create_source(sd.child("source"));
        s.assign_source(src.get());
        s.initialize();
    }
};
// a source that keeps a flux of one everywhere
VF_HARNESS(level)
{
    vfm::Moc c(vfc::spec(options(1)));
    moc::MoCSweeper &s = *c.s;
    Run r(s);
    for (int g = 0; g < s.n_group(); g++) {
        r.src->initialize_group(g);
        for (const auto &x : s.xs_mesh())
            for (int i : x.reg()) (*r.src)[i] = x.xsmacrm(g);
        s.sweep(g);
        for (int i = 0; i < s.n_reg(); i++) vf::check(std::fabs(s.flux()(i, g) - 1.0) < 1e-10, "a uniform flux stays uniform");
    }
}
// without anything entering from outside, the swept flux is linear in flux and source and below that of the level case
VF_HARNESS(linear)
{
    vfm::Moc c(vfc::spec(options(0)));
    moc::MoCSweeper &s = *c.s;
    Run r(s);
    int n = s.n_reg();
    double f = 2.0 + vf::range("factor", 0, 10);
    std::vector<double> flux(n), src(n), once(n);
    for (int i = 0; i < n; i++) flux[i] = 0.5 + vf::range("flux", 0, 10) * 0.1, src[i] = 0.1 + vf::range("src", 0, 20) * 0.1;
    for (int pass = 0; pass < 2; pass++) {
        double by = pass ? f : 1.0;
        r.src->initialize_group(0);
        for (int i = 0; i < n; i++) s.flux()(i, 0) = by * flux[i], (*r.src)[i] = by * src[i];
        s.sweep(0);
        for (int i = 0; i < n; i++) {
            double v = s.flux()(i, 0);
            vf::check(v > 0, "positive flux");
            if (pass == 0) once[i] = v;
            else vf::check(std::fabs(v - f * once[i]) < 1e-9 * f * once[i], "linear in flux and source");
        }
    }
}
#endif
