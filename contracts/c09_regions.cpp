// C09: cross-section regions and their expansion onto flat regions
// sources: core/xs_mesh_region.cpp
// trials *: 80 2000
#include "xsmesh.hpp"
using namespace mocc;
static long region(vfx::XS &x)
{
    long k = vf::nat("k", 0, 3);
    vf::assume(k < x.nxs);
    vf::assume(x.reg[k].xsmacsc_.ng_ == x.ng);
    return k;
}
static long group(vfx::XS &x)
{
    long g = vf::nat("group", 0, x.ng - 1);
    vf::assume(g < x.ng);
    return g;
}
VF_HARNESS(reaction_cdf)
{
    vfx::XS x;
    long k = region(x), g = group(x);
    XSMeshRegion &r = x.reg[k];
    double tr = r.xsmactr_[g], out = r.xsmacsc_.out_[g], f = r.xsmacf_[g];
    vf::assume(tr > 0 && out >= 0 && f >= 0 && out + f <= tr);
    VecF c = r.reaction_cdf(g);
    vf::check(c.size() == 3, "three reactions");
    vf::check(vf::eq(c[(int)Reaction::SCATTER], out / tr), "scattering");
    vf::check(vf::eq(c[(int)Reaction::FISSION] - c[(int)Reaction::SCATTER], f / tr), "fission");
    vf::check(c[(int)Reaction::CAPTURE] == 1.0, "ends at one");
    vf::check(c[0] <= c[1] && c[1] <= c[2] && c[0] >= 0, "never decreasing");
}
VF_HARNESS(chi_cdf)
{
    vfx::XS x;
    long k = region(x), g = group(x);
    XSMeshRegion &r = x.reg[k];
    alignas(VecF) char slot[sizeof(VecF)];
    VecF &c   = *(VecF *)slot;
    auto upto = [&](long n) { return vf::sum(0, n, [&](long i) { return r.xsmacch_[i]; }); };
    vf::hint1("chi_cdf", [&](long i) { return vf::implies(g < i, c[g] == upto(g + 1)); });
    vf::hint1("chi_cdf", [&](long i) { return (long)c.size() == i; });
    vf::hacc1("chi_cdf", [&](long i, double v) { return v == upto(i); });
    new (slot) VecF(r.chi_cdf());
    vf::check((long)c.size() == x.ng, "length");
    vf::check(vf::eq(c[g], upto(g + 1)), "cumulative spectrum");
}
VF_HARNESS(update_removal)
{
    vfx::XS x;
    long k = region(x), g = group(x);
    XSMeshRegion &r = x.reg[k];
#ifdef VF_SYM
    vf::assume(vf::forall(0, x.ng, [&](long i) { const ScatteringRow &w = r.xsmacsc_.rows_[i]; return vf::all(w.min_g >= 0, w.min_g <= i, w.max_g >= i, w.max_g < x.ng); }));
#else
    r.xsmactr_[g] += vf::positive("more");
#endif
    double old = r.xsmacrm_[g], tr = r.xsmactr_[g];
    double want = tr - x.scat(k, g, g);
    vf::hint1("update_removal", [&](long a) { return r.xsmacrm_[g] == vf::ite(g < a, want, old); });
    r.update_removal();
    vf::check(vf::eq(r.xsmacrm_[g], want) && vf::eq(r.xsmacrm(g), want), "removal is transport less within-group scattering");
    vf::check(r.xsmactr_[g] == tr && r.xsmactr(g) == tr, "the others are left alone");
}
#ifdef VF_SYM
// assignment of scattering matrices: see C08
extern "C" ScatteringMatrix &vfc_assign(ScatteringMatrix *self, const ScatteringMatrix *other) { return *self; }
VF_CONTRACT(assign, "mocc::ScatteringMatrix::operator=(mocc::ScatteringMatrix const&)");
#endif
VF_HARNESS(update)
{
    vfx::XS x;
    long k = region(x), g = group(x), ng = x.ng;
    XSMeshRegion &r = x.reg[k];
    ScatteringMatrix &m = vf::object<ScatteringMatrix>("new_scat");
#ifdef VF_SYM
    m.ng_ = ng;
    ScatteringRow *w = vf::buffer<ScatteringRow>("new_rows", ng);
    vf_family_(w, 8, "new_from", 8, [](const void *e, long k) { const ScatteringRow *r = (const ScatteringRow *)e; return (long)r[k].max_g - r[k].min_g + 1; }, w);
    m.rows_._M_impl._M_start  = w;
    m.rows_._M_impl._M_finish = m.rows_._M_impl._M_end_of_storage = w + ng;
    vf::assume(vf::forall(0, ng, [&](long i) { return vf::all(w[i].min_g >= 0, w[i].min_g <= i, w[i].max_g >= i, w[i].max_g < ng); }));
#else
    new (&m) ScatteringMatrix(x.reg[x.nxs - 1].xsmacsc_);
#endif
    VecF tr, nf, ch, f;
    vf::vec(tr, "new_tr", ng);
    vf::vec(nf, "new_nf", ng);
    vf::vec(ch, "new_ch", ng);
    vf::vec(f, "new_f", ng);
    double rm = tr[g] - m.rows_[g].from[g - m.rows_[g].min_g];
    double o0 = r.xsmactr_[g], o1 = r.xsmacnf_[g], o2 = r.xsmacch_[g], o3 = r.xsmacf_[g], o4 = r.xsmacrm_[g];
    vf::hint1("update", [&](long a) { return r.xsmactr_[g] == vf::ite(g < a, tr[g], o0); });
    vf::hint1("update", [&](long a) { return r.xsmacnf_[g] == vf::ite(g < a, nf[g], o1); });
    vf::hint1("update", [&](long a) { return r.xsmacch_[g] == vf::ite(g < a, ch[g], o2); });
    vf::hint1("update", [&](long a) { return r.xsmacf_[g] == vf::ite(g < a, f[g], o3); });
    vf::hint1("update", [&](long a) { return r.xsmacrm_[g] == vf::ite(g < a, rm, o4); });
    r.update(tr, nf, ch, f, m);
    vf::check(r.xsmactr_[g] == tr[g], "transport");
    vf::check(r.xsmacnf_[g] == nf[g], "nu-fission");
    vf::check(r.xsmacch_[g] == ch[g], "spectrum");
    vf::check(r.xsmacf_[g] == f[g], "fission");
    vf::check(vf::eq(r.xsmacrm_[g], rm), "removal");
#ifndef VF_SYM
    vf::check(r.xsmacsc_ == m, "scattering");
#endif
}
struct Expanded {
    vfx::XS x;
#ifndef VF_SYM
    std::unique_ptr<ExpandedXS> own;
#endif
    ExpandedXS &e;
    std::pair<int, int> &state;
    long g, r, k, j;
#ifdef VF_SYM
    Expanded()
        : e(vf::object<ExpandedXS>("expanded")), state(vf::object<std::pair<int, int>>("state"))
    {
        x.m.state_ = vf::range("version", -1000000, 1000000);
        vf::arr1(e.xstr_, "xstr", x.nreg);
        e.xs_mesh_ = &x.m;
        *(std::pair<int, int> **)&e.state_ = &state;
        // the numbers say what is stored, or that nothing is
        state.first  = vf::range("stored_group", -1, 1000000);
        state.second = vf::range("stored_version", -1000000, 1000000);
        common();
    }
#else
    Expanded()
        : own(new ExpandedXS(&x.m)), e(*own), state(*e.state_)
    {
        for (long i = 0; i < x.nreg; i++) e.xstr_((int)i) = -5;
        if (vf::boolean("used")) e.expand((int)vf::range("stored_group", 0, x.ng - 1));
        if (vf::boolean("updated")) {
            for (long i = 0; i < x.nxs; i++)
                for (long h = 0; h < x.ng; h++) x.reg[i].xsmactr_[h] += 1;
            x.m.state_++;
        }
        common();
    }
#endif
    void common()
    {
        g = vf::nat("group", 0, x.ng - 1), r = vf::nat("region", 0, x.nreg - 1);
        vf::assume(g < x.ng && r < x.nreg);
        x.partition();
        x.owned(r);
        k = x.owner[r], j = x.pos[r];
        vf::assume(valid());
    }
    double tr(long h) const { return x.reg[k].xsmactr_[h]; }
    // what is stored for this region is what the state says
    bool valid() const
    {
        bool named = vf::all(state.first >= 0, state.first < x.ng, state.second == x.m.state_);
        return vf::all(state.first < x.ng, vf::implies(named, e.xstr_((int)r) == tr(vf::itei(named, state.first, 0))));
    }
};
VF_HARNESS(expand)
{
    Expanded t;
    double old = t.e.xstr_((int)t.r);
    auto is    = [&](bool done) { return t.e.xstr_((int)t.r) == vf::ite(done, t.tr(t.g), old); };
    vf::hint2("expand", [&](long a, long b) { return is(vf::any(t.k < a, vf::both(t.k == a, t.j < b))); });
    vf::hint1("expand", [&](long a) { return is(t.k < a); });
    t.e.expand(t.g);
    vf::check(t.e[t.r] == t.tr(t.g) && t.e.xs()((int)t.r) == t.tr(t.g), "the region gets the value of its material in this group");
    vf::check(t.valid(), "what is stored is what the state says");
    vf::check(t.e.size() == t.x.nreg, "one value per region");
}
VF_HARNESS(expand_split)
{
    Expanded t;
    ArrayB1 &split = vf::object<ArrayB1>("split_array");
#ifndef VF_SYM
    new (&split) ArrayB1;
#endif
    vf::arr1(split, "split", t.x.nreg);
    double old = t.e.xstr_((int)t.r), want = t.tr(t.g) + split((int)t.r);
    auto is    = [&](bool done) { return t.e.xstr_((int)t.r) == vf::ite(done, want, old); };
    vf::hint2("expand", [&](long a, long b) { return is(vf::any(t.k < a, vf::both(t.k == a, t.j < b))); });
    vf::hint1("expand", [&](long a) { return is(t.k < a); });
    t.e.expand(t.g, split);
    vf::check(vf::eq(t.e[t.r], want), "material and splitting");
    vf::check(t.valid(), "what is stored is what the state says");
}
