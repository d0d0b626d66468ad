// C11: group sources
// sources: core/source.cpp core/source_isotropic.cpp
// trials *: 60 1500
#include "core/source_isotropic.hpp"
#include "core/constants.hpp"
#include "xsmesh.hpp"
using namespace mocc;
struct Setup {
    vfx::XS x;
#ifndef VF_SYM
    std::unique_ptr<ArrayB2> fl;
    std::unique_ptr<SourceIsotropic> so;
    std::unique_ptr<ArrayB1> f1;
#endif
    ArrayB2 &flux;
    SourceIsotropic &s;
    ArrayB1 &fs;
    long g, r;
#ifdef VF_SYM
    Setup()
        : flux(vf::object<ArrayB2>("flux_array")), s(vf::object<SourceIsotropic>("source")), fs(vf::object<ArrayB1>("fs_array"))
    {
        long nreg = x.nreg;
        vf::arr2(flux, "flux", nreg, x.ng);
        *(const ArrayB2 **)((char *)&s + REF) = &flux;
        s.xs_mesh_ = &x.m;
        s.n_group_ = x.ng;
        s.n_reg_   = nreg;
        vector(s.source_1g_, vf::buffer<double>("src", nreg));
        vector(s.q_, vf::buffer<double>("q", nreg));
        common();
    }
    static const long REF = sizeof(Source) - 8;
    void vector(VectorX &v, double *p)
    {
        v.m_storage.m_data = p;
        v.m_storage.m_rows = x.nreg;
    }
#else
    Setup()
        : fl(new ArrayB2((int)x.nreg, (int)x.ng)), so(new SourceIsotropic((int)x.nreg, &x.m, *fl)), f1(new ArrayB1), flux(*fl), s(*so), fs(*f1)
    {
        double *p = vf::buffer<double>("flux", x.nreg * x.ng), *q = vf::buffer<double>("src", x.nreg);
        for (long i = 0; i < x.nreg; i++) {
            for (long j = 0; j < x.ng; j++) flux((int)i, (int)j) = p[i * x.ng + j];
            s.source_1g_[i] = q[i];
        }
        common();
    }
#endif
    void common()
    {
        g = vf::nat("group", 0, x.ng - 1), r = vf::nat("region", 0, x.nreg - 1);
        vf::assume(g < x.ng && r < x.nreg);
        s.has_external_ = false;
        *(unsigned char *)&s.state_ = 0;
        vf::arr1(fs, "fs", x.nreg);
        x.partition();
        x.owned(r);
        x.rows_ok(g);
    }
};
VF_HARNESS(start_group)
{
    Setup t;
    t.s.SourceIsotropic::initialize_group(t.g);
    vf::check(t.s[t.r] == 0.0, "nothing is left of the previous group");
    vf::check(t.s.get()[t.r] == 0.0, "read access");
}
VF_HARNESS(fission)
{
    Setup t;
    double old = t.s.source_1g_[t.r];
    long k = t.x.owner[t.r], j = t.x.pos[t.r];
    double add = t.x.reg[k].xsmacch_[t.g] * t.fs((int)t.r);
    auto is = [&](bool done) { return t.s.source_1g_[t.r] == old + vf::ite(done, add, 0.0); };
    vf::hint2("fission", [&](long a, long b) { return is(vf::any(k < a, vf::both(k == a, j < b))); });
    vf::hint1("fission", [&](long a) { return is(k < a); });
    t.s.SourceIsotropic::fission(t.fs, t.g);
    vf::check(vf::eq(t.s[t.r], old + add), "spectrum times fission source, once");
}
VF_HARNESS(in_scatter)
{
    Setup t;
    double old = t.s.source_1g_[t.r];
    long k = t.x.owner[t.r], j = t.x.pos[t.r], g = t.g;
    const ScatteringRow &row = t.x.reg[k].xsmacsc_.rows_[g];
    long lo = row.min_g, n = row.max_g - row.min_g + 1;
    auto term = [&](long i) { long f = lo + i; return vf::ite(f == g, 0.0, row.from[i] * t.flux((int)t.r, (int)f)); };
    auto part = [&](long i) { return vf::sum(0, i, term); };
    auto is = [&](double v) { return t.s.source_1g_[t.r] == old + v; };
    vf::hint3("in_scatter", [&](long a, long b, long c) {
        return is(vf::ite(k < a, part(n), vf::ite(k == a, part(b) + vf::ite(vf::both(j < c, lo + b != g), term(b), 0.0), 0.0)));
    });
    vf::hint2("in_scatter", [&](long a, long b) { return is(vf::ite(k < a, part(n), vf::ite(k == a, part(b), 0.0))); });
    vf::hint1("in_scatter", [&](long a) { return is(vf::ite(k < a, part(n), 0.0)); });
    t.s.SourceIsotropic::in_scatter(g);
    vf::check(vf::eq(t.s[t.r], old + part(n)), "transfers from every other group, once");
}
VF_HARNESS(auxiliary)
{
    Setup t;
    double old = t.s.source_1g_[t.r], add = t.fs((int)t.r);
    vf::hint1("auxiliary", [&](long a) { return t.s.source_1g_[t.r] == old + vf::ite(t.r < a, add, 0.0); });
    t.s.auxiliary(t.fs);
    vf::check(vf::eq(t.s[t.r], old + add), "added once");
}
VF_HARNESS(scale)
{
    Setup t;
    double old = t.s.source_1g_[t.r];
    VecF v;
    vf::vec(v, "factor", t.x.nreg);
    vf::hint1("scale", [&](long a) { return t.s.source_1g_[t.r] == vf::ite(t.r < a, old * v[t.r], old); });
    t.s.scale(v);
    vf::check(vf::eq(t.s[t.r], old * v[t.r]), "scaled once");
}
VF_HARNESS(self_scatter)
{
    Setup t;
    double old = t.s.source_1g_[t.r], qo = t.s.q_[t.r];
    long k = t.x.owner[t.r], j = t.x.pos[t.r], g = t.g;
    double want = (old + t.flux((int)t.r, (int)g) * t.x.scat(k, g, g)) * (1.0 / FPI);
    auto is = [&](bool done) { return t.s.q_[t.r] == vf::ite(done, want, qo); };
    vf::hint2("self_scatter", [&](long a, long b) { return is(vf::any(k < a, vf::both(k == a, j < b))); });
    vf::hint1("self_scatter", [&](long a) { return is(k < a); });
    t.s.SourceIsotropic::self_scatter(g);
    vf::check(vf::eq(t.s.SourceIsotropic::get_transport(0)[t.r], want), "source per unit angle");
    vf::check(t.s[t.r] == old, "the source without self-scatter is kept");
}
VF_HARNESS(self_scatter_normalized)
{
    Setup t;
    double old = t.s.source_1g_[t.r], qo = t.s.q_[t.r];
    long k = t.x.owner[t.r], j = t.x.pos[t.r], g = t.g;
    ArrayB1 &xs = vf::object<ArrayB1>("xs_array");
#ifndef VF_SYM
    new (&xs) ArrayB1;
#endif
    vf::arr1(xs, "xs", t.x.nreg, 0.1, 4.0);
    vf::assume(xs((int)t.r) > 0.05);
    double want = (old + t.flux((int)t.r, (int)g) * t.x.scat(k, g, g)) / (xs((int)t.r) * FPI);
    auto is = [&](bool done) { return t.s.q_[t.r] == vf::ite(done, want, qo); };
    vf::hint2("self_scatter", [&](long a, long b) { return is(vf::any(k < a, vf::both(k == a, j < b))); });
    vf::hint1("self_scatter", [&](long a) { return is(k < a); });
    t.s.SourceIsotropic::self_scatter(g, xs);
    vf::check(vf::eq(t.s.SourceIsotropic::get_transport(0)[t.r], want), "source over the cross section in use");
    vf::check(t.s[t.r] == old, "the source without self-scatter is kept");
}
VF_HARNESS(start_group_external)
{
    Setup t;
    t.s.has_external_ = true;
#ifdef VF_SYM
    vf::arr2(t.s.external_source_, "ext", t.x.ng, t.x.nreg);
#else
    t.s.external_source_.resize((int)t.x.ng, (int)t.x.nreg);
    double *e = vf::buffer<double>("ext", t.x.ng * t.x.nreg);
    for (long i = 0; i < t.x.ng * t.x.nreg; i++) t.s.external_source_((int)(i / t.x.nreg), (int)(i % t.x.nreg)) = e[i];
#endif
    double old = t.s.source_1g_[t.r], want = t.s.external_source_((int)t.g, (int)t.r);
    vf::hint1("initialize_group", [&](long a) { return t.s.source_1g_[t.r] == vf::ite(t.r < a, want, old); });
    t.s.SourceIsotropic::initialize_group(t.g);
    vf::check(t.s[t.r] == want, "the external source of the group and nothing else");
}
